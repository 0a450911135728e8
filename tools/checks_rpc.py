"""Application exceptions (P18) and remote calls (P20)."""
import random
from vlib import *
from gen import *
import checks_codec as K
import checks_json as JS
rng = K.rng
PROTOS = ['bin', 'com', 'json', 'sjson']
CTORS = ['full', 'full', 'full', 'type', 'message', 'default']
def AxW(ctor='full', k=0, v=()): return O('AxW', ctor=ctor, k=be(k, 4), v=list(v))
def RAx(r): return O('RAx', ctor=r.choice(CTORS), k=be(7, 4), v=[120])
KINDS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 63, 64, 127, 128, 255, 256, 8191, 8192, 1 << 20, 1 << 27, (1 << 31) - 1, -1, -2, -64, -65, -128, -129, -8193, -(1 << 31)]
def texts(): return [[]] + [list(s.encode()) for s in ('a', 'UNKNOWN', 'Internal error', 'é漢😀', '"\\', '\n\t\x00\x1f', '%s %d %!', ' ', 'x' * 127, 'x' * 128, 'y' * 300, 'z' * 5000, 'null')]
SUB = (STRUCT, [115], [([109], 1, (STRING, [120])), ([107], 2, (I32, be(9, 4)))])
def fld(l, r):
    m = {'m1': (1, (STRING, [97, 98])), 'm0': (1, (STRING, [])), 'k1': (2, (I32, be(6, 4))), 'k2': (2, (I32, be(-2, 4))), 'xm': (1, (I32, be(6, 4))), 'xb': (1, (BOOL, 0)),
         'xk': (2, (STRING, [97, 98])), 'xs': (2, SUB), 'e3': (3, (STRING, [120, 121])), 'es': (-1, SUB), 'el': (100, (LIST, BOOL, [(BOOL, 1), (BOOL, 0)])),
         'em': (0, (MAP, I32, STRING, [((I32, be(6, 4)), (STRING, [97, 98]))])), 'eb': (4, (BOOL, 0)), 'e0': (5, (MAP, I32, STRING, []))}[l]
    return (r.choice([[], [102]]), m[0], m[1])
def axstruct(r, proto, labels=None):
    """an exception as some peer may write it"""
    if proto == 'sjson':
        f = []
        for _ in range(r.choice([0, 1, 2, 2, 2, 3, 4])):
            f.append((list(b'message'), 1, (STRING, list(text(r).encode()))) if r.random() < 0.5 else (list(b'type'), 2, (I32, be(r.choice(KINDS), 4))))
        return (STRUCT, [120], f)
    if labels is not None: return (STRUCT, [120], [fld(l, r) for l in labels])
    g = Gen(r, utf8=True, maxdepth=3); f = []
    for _ in range(r.choice([0, 1, 2, 2, 3, 5])):
        k = r.random()
        if k < 0.35: f.append(([], 1, (STRING, list(text(r).encode()))))
        elif k < 0.7: f.append(([], 2, (I32, be(r.choice(KINDS + [r.randrange(-2**31, 2**31)]), 4))))
        else:
            g.budget = 12; i = r.choice([0, 1, 2, 3, 4, -1, -32768, 32767, 17, 100, 1000]); v = g.value(r.choice(SCALARS + CONTAINERS * 2))
            if i == 1 and v[0] in (STRING, BINARY): v = (BOOL, 1)
            if i == 2 and v[0] == I32: v = (I64, be(5, 8))
            f.append(([120], i, v))
    return (STRUCT, list(b'TApplicationException'), f)
def check_P18(c):
    r = rng(c.prop)
    r1 = tlc('AppExMC', env={'EMIT': '1'}, mem='6g'); c.add_tlc(r1); sc = scripts(r1); c.count('behaviours of AppExMC', len(sc))
    if THOROUGH: c.add_tlc(tlc('AppExMC', cfg='AppExMC_big', env={'EMIT': '0'}, mem='12g', timeout=850))
    # writing: every constructor, kind and message; alone, repeated, inside messages
    W = []
    def w(p, ops): W.append({'id': '%s-w%d' % (c.prop, len(W)), 'kind': 'w', 'proto': p, 'sr': 0, 'sw': len(W) % 2, 'fact': len(W) % 3 % 2, 'ops': ops + [O('Flush')]})
    for p in PROTOS:
        for k in KINDS: w(p, [AxW(k=k, v=b'm')]); w(p, [AxW('type', k=k)])
        for t in texts(): w(p, [AxW(k=6, v=t)]); w(p, [AxW('message', v=t)]); w(p, [AxW(k=0, v=t)])
        w(p, [AxW('default')]); w(p, [AxW(k=1, v=b'a'), AxW(k=2, v=b'b'), AxW('default')])
        for k in (1, 3): w(p, [O('MsgB', name=list(b'echo'), t=3, v=be(k, 4)), AxW(k=k, v=b'Unknown function'), O('MsgE')] * k)
        for i in range(600 if THOROUGH else 80):
            ops = []
            for _ in range(r.choice([1, 1, 2, 3])):
                a = AxW(r.choice(CTORS), k=r.choice(KINDS + [r.randrange(-2**31, 2**31)]), v=r.choice(texts()) if r.random() < 0.3 else list(text(r).encode()) if p in ('json', 'sjson') else raw(r))
                ops += [O('MsgB', name=list(text(r, 8).encode()), t=3, v=be(r.randrange(-2**31, 2**31), 4)), a, O('MsgE')] if r.random() < 0.6 else [a]
            w(p, ops)
    wires = {}
    def keep(cs, m):
        wires[cs['id']] = list(m['wire']); return JS.prep(cs, m)
    c.cases('CodecTrace', W, prepare=keep, label='exceptions written')
    # reading back what was written
    R = []
    def add(p, wire, ops, **k): R.append(JS.rcase('%s-r%d' % (c.prop, len(R)), p, wire, [{'k': 'ops', 'ops': ops}], fact=len(R) % 2, **k))
    for cs in W:
        if cs['id'] not in wires: continue
        ops = [RAx(r) if o['o'] == 'AxW' else O('R' + o['o']) for o in cs['ops'][:-1]]
        add(cs['proto'], wires[cs['id']], ops, **({'chunk': [r.choice([1, 2, 5])], 'eof': r.randrange(2)} if r.random() < 0.3 else {}))
    # what peers may write
    def peer(p, s, trunc, tail=True):
        msg = r.random() < 0.3
        wire = enc_whole_msg(p, [97], 3, 5, s, r, 1) if msg else enc(p, s, r)
        ops = [O('RMsgB'), RAx(r), O('RMsgE')] if msg else [RAx(r)]
        if trunc:
            for n in trunc(wire): add(p, wire[:n], ops)
            return
        if tail and p != 'sjson': add(p, wire + enc(p, SUB, r), ops + [RAx(r)])
        else: add(p, wire, ops)
    for b in r.sample(sc, min(len(sc), 2000 if THOROUGH else 500)):
        for p in PROTOS[:3]: peer(p, axstruct(r, p, b['fields']), None)
    for i in range(2500 if THOROUGH else 300):
        for p in PROTOS: peer(p, axstruct(r, p), None, r.random() < 0.5)
    for i in range(60 if THOROUGH else 12):
        for p in PROTOS: peer(p, axstruct(r, p, [r.choice(['m1', 'k1', 'k2', 'e3', 'el', 'xm', 'es']) for _ in range(3)] if i % 2 else None), lambda w: range(len(w)) if len(w) < 80 else r.sample(range(len(w)), 60))
    for i in range(1500 if THOROUGH else 200):   # damaged
        for p in PROTOS:
            wire = enc(p, axstruct(r, p), r)
            for _ in range(r.choice([1, 1, 2])): wire = JS.mutate(r, wire) if p in ('json', 'sjson') else K.mutate(r, wire)
            add(p, wire, [RAx(r)])
    c.cases('CodecTrace', R, prepare=JS.prep, driver_kw={'limit_ms': 8000}, label='exceptions read')
    # what a processor answers to an unknown method
    U = []
    for p in PROTOS:
        for i in range(60 if THOROUGH else 15):
            x = Case('%s-u%d' % (c.prop, len(U)), r, p, r.choice(['direct', 'direct', 'http', 'nb']), gc=0, gp=1, **dict(zip(('wrap', 'cwrap'), r.choice(WRAPS)))); U.append(x.d)
            for k in range(1 if x.d['srv'] == 'nb' else r.choice([1, 2, 4])): x.call(1, 'unknown' if x.d['srv'] == 'nb' else r.choice(['unknown', 'unknown', 'call', 'fail']))
    c.cases('RpcTrace', U, driver_kw={'limit_ms': 9000}, label='replies to unknown methods')

# ---------------------------------------------------------------- calls
def canon(v, named):
    """what the reading calls must give"""
    h = lambda b: bytes(b).hex()
    t = v[0]
    if t == BOOL: return ['Bo%d' % v[1]]
    if t == BYTE: return ['By%d' % v[1]]
    if t in SCALARS: return [h(v[1])]
    if t == STRUCT:
        out = []
        for nm, i, x in v[2]: out += ['F' + h(nm) if named else 'F%d:%d' % (i, wire(x[0]))] + canon(x, named)
        return out + ['.']
    if t == MAP: return ['M%d' % len(v[3])] + [s for a, b in v[3] for x in (a, b) for s in canon(x, named)]
    return [('L' if t == LIST else 'S') + '%d' % len(v[2])] + [s for x in v[2] for s in canon(x, named)]
def notnan(v):
    if isinstance(v, tuple): return not (len(v) == 2 and v[0] == DOUBLE and (v[1][0] & 127) == 127 and v[1][1] >= 240) and all(notnan(x) for x in v)
    if isinstance(v, list): return all(notnan(x) for x in v if isinstance(x, (tuple, list)))
    return True
def dstruct(r, proto, budget=None):
    while True:
        g = Gen(r, utf8=proto in ('json', 'sjson'), maxdepth=r.choice([2, 3, 4, 6])); g.budget = budget if budget is not None else r.choice([3, 8, 20, 60])
        v = g.value(STRUCT)
        if notnan(v): return v
def gvals(r, n):
    """arguments or results of the golden service; field 1 carries n if that is given"""
    m = {}
    if n is not None: m[1] = n
    elif r.random() < 0.6: m[1] = sgn(be(edge_int(r, 4), 4))
    for i in range(2, 10):
        if r.random() < 0.5: m[i] = sgn(be(edge_int(r, 4), 4))
        elif i > 6 and r.random() < 0.3: m[i] = -2147483649     # a field with a default, unset
    return m
def glist(m): return ['%d=%d' % (i, m[i]) for i in sorted(m)]
def gseen(m):
    """defaults come in where the sender wrote nothing"""
    x = {7: 0, 8: 1, 9: 0}; x.update({i: v for i, v in m.items() if v != -2147483649})
    return ['%d=%d' % (i, x[i]) for i in sorted(x)]
GNAMES = ['first', 'second', 'third', 'optional_fourth', 'optional_fifth', 'optional_sixth', 'default_seventh', 'default_eighth', 'default_nineth']
def gstruct(m, field, fid):
    """the struct the generated code writes"""
    x = {7: 0, 8: 1, 9: 0}; x.update(m)
    f = [(list(GNAMES[i - 1].encode()), i, (I32, be(x[i], 4))) for i in sorted(x) if x[i] != -2147483649]
    return (STRUCT, [97], [(list(field.encode()), fid, (STRUCT, [99], f))])
class Case:
    def __init__(self, cid, r, proto, srv, nc=1, gc=0, gp=0, mode='seq', **k):
        self.r = r; self.proto = proto
        self.d = dict({'id': cid, 'kind': 'rpc', 'proto': proto, 'sr': 0, 'sw': r.randrange(2), 'fact': 1, 'wrap': '', 'cwrap': '', 'srv': srv, 'sock': 'sv', 'nc': nc, 'gc': gc, 'gp': gp, 'mode': mode, 'calls': [], 'sched': [], 'chunk': []}, **k)
        if proto == 'bin' and self.d['sw']: self.d['sr'] = r.randrange(2)
        self.seq = [r.choice([0, 0, -1, 1, 2**31 - 2, -2**31, r.randrange(-2**31, 2**31)]) for _ in range(nc)]
        self.d['seq0'] = [be(s, 4) for s in self.seq]; self.count = [0] * nc
    def call(self, cl, kind, budget=None, nil=False):
        d, r, p = self.d, self.r, self.proto
        n = len(d['calls']) + 1; self.count[cl - 1] += 1
        s = (self.seq[cl - 1] + self.count[cl - 1] + 2**31) % 2**32 - 2**31
        g = d['gc'] or d['gp']
        name = 'echo' if g and kind != 'unknown' else r.choice(['c%d', 'c%d', 'method_%d', 'Ünï%d', 'a"b\\%d', '%d']) % n
        if kind == 'unknown' and r.random() < 0.2 and not any(x['name'] == [] for x in d['calls']): name = r.choice(['', 'ech', 'echo2', 'Echo', 'x' * 200])
        k = {'cl': cl, 'kind': kind, 'name': list(name.encode()), 's': be(s, 4), 'k': be(s + r.choice([1, -1, 2, 256, 65536, 1 << 24]), 4), 'v': [], 'aops': [], 'ard': [], 'rops': [], 'rrd': [], 'ga': [], 'gr': [], 'a': [], 'r': []}
        if kind == 'fail':
            v = r.choice(['boom', '', 'é漢', 'a "quoted" \\ thing', 'x' * 300]) if r.random() < 0.7 else text(r)
            k['v'] = list((('Internal error processing echo: ' if d['gp'] else '') + v).encode())
        if not g:
            A = (STRUCT, [], []) if p == 'sjson' and kind == 'unknown' else dstruct(r, p, budget)
            R = dstruct(r, p, budget)
            k['aops'], k['a'], k['ard'] = ops_value(A), canon(A, p == 'sjson'), rops_value(A)
            k['rops'], k['r'], k['rrd'] = ops_value(R), canon(R, p == 'sjson'), rops_value(R)
        else:
            am = gvals(r, n); rm = gvals(r, None)
            k['ga'] = ['nil'] if nil else glist(am); k['a'] = ['nil'] if nil else gseen(am)
            rnil = r.random() < 0.1
            k['gr'] = ['nil'] if rnil else glist(rm)
            R = (STRUCT, [], []) if rnil else gstruct(rm, 'success', 0)
            if d['gc']: k['r'] = ['nil'] if rnil else gseen(rm)
            else: k['r'], k['rrd'] = canon(R, p == 'sjson'), rops_value(R)
            A = (STRUCT, [], []) if nil else gstruct(am, 'message', 1)
            if not d['gc']:
                if kind == 'unknown': A = (STRUCT, [], []) if p == 'sjson' else dstruct(r, p, budget)
                elif p != 'sjson' and r.random() < 0.5:     # what a newer client adds
                    x = dstruct(r, p, 8); fs = [f for f in x[2] if f[1] != 1]
                    A = (A[0], A[1], fs + A[2] if r.random() < 0.5 else A[2] + fs)
                k['aops'] = ops_value(A)
            if not d['gp']:
                k['a'], k['ard'] = canon(A, p == 'sjson'), rops_value(A); k['rops'] = ops_value(R)
        d['calls'].append(k); return n
    def script(self, b):
        for i, prog in enumerate(b['prog']):
            for kind in prog: self.call(i + 1, kind)
        self.d['sched'] = b['steps']; return self.d
WRAPS = [('', ''), ('framed', 'framed'), ('framed2', 'framed2')]
def rpc_cases(c, tag, n, kinds=None):
    r = rng(tag); out = []
    def new(*a, **k):
        w = k.pop('w', None) or r.choice(WRAPS)
        if a[1] in ('direct',) and 'chunk' not in k: k['chunk'] = r.choice([[], [], [1], [3]])
        x = Case('%s-%d' % (tag, len(out)), r, *a, wrap=w[0], cwrap=w[1], **k); out.append(x.d); return x
    # one call after the other, every protocol, wrapper and server
    for p in PROTOS:
        for srv in ('direct', 'http', 'simple', 'nb'):
            for w in WRAPS:
                for g in (0, 1):
                    for rep in range(max(1, n // 100)):
                        x = new(p, srv, w=w, gc=g, gp=g, sock=r.choice(['sv', 'nb']) if srv in ('simple', 'nb') else 'sv')
                        ks = ['call', 'call', 'call', 'fail', 'call', 'call'] if g or srv == 'http' else ['call', 'oneway', 'call', 'fail', 'call', 'oneway', 'unknown', 'call']
                        if srv in ('simple', 'nb'): ks = sorted(ks, key=lambda k: k in ('fail', 'unknown'))[:-1] if r.random() < 0.5 else [k for k in ks if k not in ('fail', 'unknown')]
                        if not g and srv == 'http': ks = ['call', 'oneway', 'unknown', 'call', 'fail', 'call', 'call']
                        for k in ks: x.call(1, k, nil=bool(g) and r.random() < 0.15)
    # the golden processor under a client that looks at the headers, and the golden client under odd peers
    for p in PROTOS:
        for i in range(max(4, n // 12)):
            srv = r.choice(['direct', 'direct', 'http', 'nb', 'simple'])
            x = new(p, srv, gc=0, gp=1)
            ks = [r.choice(['call', 'fail', 'unknown', 'call'] if srv in ('direct', 'http') else ['call']) for _ in range(r.choice([1, 2, 4, 6]))]
            if srv in ('simple', 'nb'): ks.append(r.choice(['unknown', 'fail']))
            for k in ks: x.call(1, k)
            x = new(p, 'direct', gc=1, gp=0); x.call(1, r.choice(['call', 'fail', 'badseq', 'badseq']))
    # several clients at once
    for i in range(n // 2):
        p = r.choice(PROTOS); g = int(r.random() < 0.4); nc = r.choice([2, 3, 5, 8])
        srv = r.choice(['nb', 'nb', 'direct', 'http', 'simple'])
        x = new(p, srv, nc=nc, gc=g, gp=g, mode='free', sock=r.choice(['sv', 'nb']) if srv == 'nb' else 'sv')
        for j in range(r.choice([2, 5, 9])):
            for cl in range(1, nc + 1):
                k = 'call' if g or srv == 'http' or r.random() < 0.75 else 'oneway'
                if srv in ('direct', 'http') and r.random() < 0.1: k = 'fail'
                x.call(cl, k, budget=r.choice([3, 8]))
    return out
def check_P20(c):
    for cfg in ('', '_simple'):
        r1 = tlc('RpcMC', cfg='RpcMC' + cfg, env={'EMIT': '1'}, mem='8g'); c.add_tlc(r1)
        sc = scripts(r1); c.count('behaviours of RpcMC' + cfg, len(sc)); r = rng(c.prop + cfg)
        if not sc: raise CheckError('no behaviours')
        cs = []
        for i, b in enumerate(r.sample(sc, min(len(sc), 3000 if THOROUGH else 400))):
            w = r.choice(WRAPS); srv = 'simple' if cfg else r.choice(['nb', 'nb', 'direct'])
            x = Case('%s-s%s%d' % (c.prop, cfg, i), r, r.choice(PROTOS), srv, nc=len(b['prog']), mode='sched', wrap=w[0], cwrap=w[1])
            cs.append(x.script(b))
        c.cases('RpcTrace', cs, driver_kw={'limit_ms': 9000, 'par': 8}, label='interleavings of calls, handlers and replies')
    for cfg in ('_live', '_live_simple') + (('_big',) if THOROUGH else ()):
        c.add_tlc(tlc('RpcMC', cfg='RpcMC' + cfg, env={'EMIT': '0'}, mem='12g'))
    c.cases('RpcTrace', rpc_cases(c, c.prop, 1500 if THOROUGH else 200), driver_kw={'limit_ms': 9000, 'par': 8}, label='calls over every protocol, wrapper and server')
