"""Factories (P27)."""
import random
from vlib import *
from gen import *
from checks_codec import rng
from checks_json import prep
from checks_transport import T, CHUNKS, data, size, sock_script, ans
MODES = ['r', 'w', 'randw', 'rw', 'none']
def P(r, mode=None, tmo=0, post=1): return {'mode': mode or r.choice(MODES), 'size': r.choice([0, 1, 4, 1024]), 'tmo': tmo, 'post': post}
def tobj(kind, fac, gv, f, g, **k):
    return dict({'kind': kind, 'fac': fac, 'gv': gv, 'f': f, 'g': g, 'mode': '', 'hasr': 0, 'hasw': 0, 'conn': 0, 'badaddr': 0, 'tmo': 0, 'post': 1, 'answers': [], 'maxconns': 8, 'loop': 0,
                 'wire': [], 'failw': 0, 'failf': 0, 'failb': 0, 'endk': 4, 'inner': ''}, **k)
def cobj(kind, proto, fac, r, **k): return dict({'kind': kind, 'proto': proto, 'fac': fac, 'wire': [], 'rem': -1}, **k)
def multi(cid, objs, ops): return {'id': cid, 'kind': 'multi', 'objs': objs, 'ops': ops}
def merge(r, lists):
    """an interleaving of the objects' own histories, each after its making"""
    ls = [[dict(o, ob=i + 1) for o in [T('Make')] + l] for i, l in enumerate(lists)]; out = []
    burst = r.random() < 0.5
    while any(ls):
        l = r.choice([l for l in ls if l])
        for _ in range(r.randrange(1, 4) if burst else 1):
            if l: out.append(l.pop(0))
    return out
def tidy(ops, objs):
    """a factory over streams or addresses of its own makes one product of them, the first"""
    seen = {}; nxt = 1000
    for o in ops:
        if o['o'] != 'Make': continue
        x = objs[o['ob'] - 1]
        if x['kind'] not in ('iostream', 'sock', 'http'): continue
        if x['gv'] not in ('same', 'closed'):
            if x['fac'] in seen: nxt += 1; x['fac'] = nxt
        seen.setdefault(x['fac'], x)
    return ops
def stream_ops(r, n):
    out = []
    for _ in range(n):
        x = r.random()
        out.append(T('W', v=data(r, size(r))) if x < 0.4 else T('F') if x < 0.6 else T(r.choice(['R', 'R', 'RA']), k=size(r)) if x < 0.97 else T('Close'))
    return out
def mem_ops(r, n):
    out = []
    for _ in range(n):
        x = r.random()
        out.append(T('W', v=data(r, size(r))) if x < 0.4 else T(r.choice(['R', 'RA']), k=size(r)) if x < 0.75 else T(r.choice(['Len', 'Bytes', 'F', 'Peek'])) if x < 0.97 else T('Reset'))
    return [T('Len')] + out
def http_ops(r, n):
    out = []
    for _ in range(n):
        x = r.random()
        out.append(T('W', v=data(r, size(r))) if x < 0.35 else T('F') if x < 0.6 else T(r.choice(['R', 'RA']), k=r.choice([0, 1, 2, 10, 500])))
    return out
def prepm(c, m):
    for x in m.get('objs', []):
        if x.get('kind') in ('w', 'r'): prep(None, x)
    return m
def ops_of(o, r):
    """own history of one object"""
    k = o['kind']; n = r.randrange(2, 14)
    if k == 'membuf': return mem_ops(r, n)
    if k == 'framed': return [x for x in stream_ops(r, n) if x['o'] != 'Close']
    if k == 'iostream': return stream_ops(r, n)
    if k == 'http': return http_ops(r, n)
    p = o['g'] if o['gv'] in ('same', 'closed') else o['f']
    return sock_script(r, p['tmo'])[:n]
GV = ['', 'same', 'same', 'other']
def some(r, kind, fac):
    gv = r.choice(GV + (['closed'] if kind == 'iostream' else []))
    if kind == 'sock': return tobj(kind, fac, gv, P(r, tmo=r.choice([0, 0, 150])), P(r, tmo=r.choice([0, 0, 150])), mode='nb')
    if kind == 'http': return tobj(kind, fac, gv, P(r, post=int(r.random() < 0.8)), P(r, post=int(r.random() < 0.8)), answers=[ans(200, data(r, r.choice([0, 1, 5, 300])), 0, r.randrange(2)) for _ in range(r.randrange(1, 3))])
    if kind == 'framed': return tobj(kind, fac, '', P(r), P(r), loop=1, chunk=r.choice(CHUNKS))
    return tobj(kind, fac, gv, P(r), P(r), wire=data(r, r.choice([0, 1, 5, 100, 5000])) if kind == 'iostream' else [], chunk=r.choice(CHUNKS))
def codec(r, proto, fac, sr, sw):
    js = proto in ('json', 'sjson'); kind = r.choice('wwr'); ops = []; wire = []
    for _ in range(r.choice([1, 1, 2])):
        g = Gen(r, utf8=js, maxdepth=r.choice([1, 2, 3])); g.budget = 15
        m = (list(text(r).encode()), r.choice([1, 2, 3, 4]), sgn(be(edge_int(r, 4), 4)), g.value(STRUCT))
        strict = bool(r.randrange(2)) if not sr else r.random() < 0.9
        wire += enc_whole_msg(proto, *m, r, strict)
        o = ops_msg(*m); ops += (o + [O('Flush')]) if kind == 'w' else rops(o)
    c = cobj(kind, proto, fac, r, sr=sr, sw=sw, chunk=r.choice(CHUNKS))
    if kind == 'r': c['wire'] = wire
    return c, ops
def check_P27(c):
    r = rng(c.prop); cases = []
    r1 = tlc('FactoriesMC', env={'EMIT': '1'}, mem='8g'); c.add_tlc(r1); sc = scripts(r1)
    c.count('behaviours of FactoriesMC', len(sc))
    if THOROUGH:
        r2 = tlc('FactoriesMC', cfg='FactoriesMC_big', env={'EMIT': '0'}, mem='12g'); c.add_tlc(r2)
    for i, b in enumerate(r.sample(sc, min(len(sc), 8000 if THOROUGH else 900))):
        kind = ['membuf', 'framed', 'iostream', 'iostream', 'sock', 'http'][i % 6]; n = sum(o['o'] == 'Make' for o in b['ops'])
        objs = []
        for k in range(n):
            o = some(r, kind, 1); o['gv'] = b['gv'][k] if kind != 'framed' else ''
            if kind == 'iostream': o['f']['mode'], o['g']['mode'] = r.choice([('rw', 'randw'), ('randw', 'rw'), ('rw', 'rw'), ('r', 'rw'), ('rw', 'w')]); o['wire'] = data(r, 40)
            objs.append(o)
        ops = []
        for o in b['ops']:
            if o['o'] == 'R' and kind == 'sock': ops.append(dict(T('IsOpen'), ob=o['ob'])); continue
            ops.append(dict(T(o['o'], v=data(r, r.choice([1, 3, 10])) if o['o'] == 'W' else [], k=4), ob=o['ob']))
            if o['o'] == 'Make' and kind == 'sock': ops.append(dict(T('Open'), ob=o['ob']))
        cases.append(multi('%s-g%d' % (c.prop, i), objs, tidy(ops, objs)))
    for i in range(4000 if THOROUGH else 450):   # products of one factory or several, of one kind or many
        kinds = r.choice([['membuf'], ['framed'], ['iostream'], ['iostream'], ['sock'], ['http'], ['membuf', 'framed', 'iostream', 'codec', 'codec'], ['codec'], ['codec']])
        objs = []; hist = []; pf = {}
        for _ in range(r.randrange(1, 5)):
            k = r.choice(kinds)
            if k == 'codec':
                fac = r.randrange(1, 3)
                if fac not in pf: pf[fac] = (r.choice(['bin', 'bin', 'bin', 'com', 'json', 'sjson']), r.randrange(2), r.randrange(2))
                o, h = codec(r, pf[fac][0], fac, pf[fac][1], pf[fac][2])
            else:
                o = some(r, k, r.randrange(1, 3) + 10 * ['membuf', 'framed', 'iostream', 'sock', 'http'].index(k)); h = None
            objs.append(o); hist.append(h)
        for o in objs:     # products of one framed factory share its inner one
            if o['kind'] == 'framed': o['inner'] = 'io' if o['fac'] % 2 else ''
        hist = [h if h is not None else ops_of(o, r) for o, h in zip(objs, hist)]
        cases.append(multi('%s-m%d' % (c.prop, i), objs, tidy(merge(r, hist), objs)))
    for f in MODES:        # every pair of stream modes, given or not
        for g in MODES:
            for gv in ('', 'same', 'other', 'closed'):
                for rep in range(2):
                    o = tobj('iostream', 1, gv, P(r, f), P(r, g), wire=data(r, 12))
                    cases.append(multi('%s-%s-%s-%s%d' % (c.prop, f, g, gv, rep), [o], merge(r, [[T('W', v=[1, 2]), T('R', k=3), T('F'), T('RA', k=2), T('W', v=[3]), T('F'), T('R', k=50), T('Close'), T('R', k=1), T('W', v=[1]), T('F')]])))
    for p in ('bin', 'com', 'json', 'sjson'):
        for sr in (0, 1):
            for sw in (0, 1):
                for rep in range(6):
                    cs = [codec(r, p, 1, sr, sw) for _ in range(3)]
                    cases.append(multi('%s-p%s%d%d%d' % (c.prop, p, sr, sw, rep), [x[0] for x in cs], merge(r, [x[1] for x in cs])))
    c.cases('FactoryTrace', cases, label='products of factories', prepare=prepm, driver_kw={'limit_ms': 8000}, batch=2000)
    wires = []; PR = ['bin', 'com', 'json', 'sjson', 'bin0']
    for sv in ('simple', 'nb'):
        for ctor in range(6):
            for rep in range(60 if THOROUGH else 12):
                wires.append({'id': '%s-w%s%d-%d' % (c.prop, sv, ctor, rep), 'kind': 'wire', 'server': sv, 'ctor': ctor, 'fn': r.choice([0, 1, 1, 2, 5]), 'n': r.choice([0, 1, 1, 2, 4]), 'protos': [r.choice(PR[:3] + PR[4:]), r.choice(PR[:3] + PR[4:])],
                              'framed': [r.randrange(2), r.randrange(2)], 'name': list(r.choice(['echo', '', 'ö', 'a' * 50]).encode()), 'ops': []})
    c.cases('FactoryTrace', wires, label='servers and their factories', driver_kw={'limit_ms': 20000})
