"""Errors (P26)."""
import random
from vlib import *
from gen import *
from checks_codec import rng
from checks_transport import T, sock, http, ans, framed, data
from checks_server import C, ssock, number
PR = ['bin', 'com', 'json', 'sjson']
CL = ['nil', 'go', 'eof', 'b64', 'own', 'E', 'T', 'Tk', 'Tm', 'T0', 'P', 'Pk', 'Pm', 'P0', 'A']
TEXTS = ['', 'b', 'boom', 'EOF', 'read: connection reset', 'ö%d %s', 'x' * 300, '\n', 'Error']
def base(c, k=-1, m=''): return {'c': c, 'k': k, 'm': list(m.encode())}
def rbase(r, cl):
    c = r.choice(cl)
    return base(c, r.choice([0, 1, 2, 3, 4, 5, 9, 100]) if c in ('T', 'Tk', 'P', 'Pk', 'own', 'A', 'b64') else -1, r.choice(TEXTS) if c in ('go', 'own', 'E', 'T', 'Tm', 'P', 'Pm', 'A') else '')
def err(cid, sub, b, **k): return dict({'id': cid, 'kind': 'err', 'sub': sub, 'base': b, 'wrap': '', 'proto': 'bin', 'must': 0, 'want': {}}, **k)
def place(r, o):
    nm = lambda: list(r.choice(['', 'f', 'field', 'ö', '7', 'a' * 40]).encode())
    return {'o': o, 'id': r.choice([0, 1, 2, 9, 10, 65, 97, 100, 127, 1234, 32767, -1, -5, -32768, r.randrange(-32768, 32768)]), 'name': nm(), 'st': nm()}
def message(r, proto):
    js = proto in ('json', 'sjson'); g = Gen(r, utf8=js, maxdepth=r.choice([1, 2, 3])); g.budget = 20
    nm = list(text(r).encode()); mt = r.choice([1, 2, 3, 4]); sq = sgn(be(edge_int(r, 4), 4)); v = g.value(STRUCT)
    return nm, mt, sq, v
def frame(w, b): return be(len(b), 4) + b if w == 'framed' else frame('framed', frame('framed', b)) if w == 'framed2' else b
def check_P26(c):
    r = rng(c.prop); cases = []
    # wrapped over and over
    r1 = tlc('ErrorsMC', env={'EMIT': '1'}, mem='8g'); c.add_tlc(r1); sc = scripts(r1)
    c.count('behaviours of ErrorsMC', len(sc))
    if THOROUGH:
        r2 = tlc('ErrorsMC', cfg='ErrorsMC_big', env={'EMIT': '0'}, mem='12g'); c.add_tlc(r2)
    for i, b in enumerate(r.sample(sc, min(len(sc), 12000 if THOROUGH else 1500))):
        cases.append(err('%s-g%d' % (c.prop, i), 'wrap', b['base'], eops=[place(r, o) for o in b['ops']]))
    for i in range(6000 if THOROUGH else 1200):
        ops = [place(r, r.choice(['E', 'T', 'P', 'PT', 'RF', 'WF', 'RS', 'WS', 'T', 'P'])) for _ in range(r.randrange(1, 9))]
        cases.append(err('%s-w%d' % (c.prop, i), 'wrap', rbase(r, CL), eops=ops))
    n = 0
    # met by a reader, at every place of a message
    X = ['T', 'T', 'P', 'own', 'b64', 'go', 'go', 'eof', 'eof', 'E', 'A']
    RW = ['', 'framed', 'framed2', 'iorw', 'iorandw']
    def rd(proto, w, b, wire, ops, **k):
        nonlocal n; n += 1
        cases.append(err('%s-r%d' % (c.prop, n), 'read', b, proto=proto, wrap=w, wire=wire, steps=[{'k': 'ops', 'ops': ops}], sr=r.randrange(2), fact=r.randrange(2), chunk=r.choice([[], [], [1], [3, 1]]), **k))
    def bs(w):
        b = rbase(r, X)
        return b if w or b['c'] not in ('eof', 'b64') else rbase(r, ['T', 'P', 'go'])
    for p in PR:
        for w in RW:
            for rep in range(8 if THOROUGH else 2):
                m = message(r, p); ops = rops(ops_msg(*m)); full = frame(w, enc_whole_msg(p, *m, r, True))
                for cut in range(len(full)) if len(full) < 60 else sorted(r.sample(range(len(full)), 60)):
                    rd(p, w, bs(w), full[:cut], ops, must=int(p in ('bin', 'com')))
            for rep in range(400 if THOROUGH else 40):
                m = message(r, p); full = frame(w, enc_whole_msg(p, *m, r, True)); cut = r.randrange(len(full))
                rd(p, w, bs(w), full[:cut], rops(ops_msg(*m)), must=int(p in ('bin', 'com')))
            # while it skips
            if p in ('bin', 'com'):
                for rep in range(40 if THOROUGH else 8):
                    m = message(r, p); full = frame(w, enc(p, m[3], r)); cut = r.randrange(len(full))
                    rd(p, w, bs(w), full[:cut], [O('RSkip', t=STRUCT)], must=1)
    # met by a writer
    WW = ['', 'framed', 'framed2', 'iorw', 'iorandw', 'sock', 'framedsock', 'iow', 'framediow']
    for p in PR:
        for w in WW:
            for rep in range(150 if THOROUGH else 25):
                m = message(r, p); ops = (ops_msg(*m) + [O('Flush')]) * r.choice([1, 1, 2]); n += 1
                k = dict(failf=r.choice([1, 1, 2])) if r.random() < 0.15 else dict(failw=r.choice([1, 1, 2, 3, r.randrange(1, 2 * len(ops))]), failb=r.choice([0, 0, 1, 2, 100]))
                cases.append(err('%s-o%d' % (c.prop, n), 'write', bs(w), proto=p, wrap=w, ops=ops, sw=r.randrange(2), fact=r.randrange(2), once=r.randrange(2), **k))
    # unopened and closed transports
    for p in PR:
        for w in ['!sock', '!nbsock', '!framedsock', '~sock', '~nbsock', '~framedsock', '~io', '~framedio', '!io', '!http']:
            for rep in range(6 if THOROUGH else 2):
                m = message(r, p); n += 1; want = {'k': 1, 'm': []}
                if 'http' not in w:
                    cases.append(err('%s-c%d' % (c.prop, n), 'write', base('nil'), proto=p, wrap=w, ops=ops_msg(*m) + [O('Flush')], sw=1, fact=rep % 2, must=1, want=want)); n += 1
                cases.append(err('%s-c%d' % (c.prop, n), 'read', base('nil'), proto=p, wrap=w, wire=[], steps=[{'k': 'ops', 'ops': rops(ops_msg(*m))}], sr=rep % 2, fact=rep % 2, must=1, want=want))
    # corrupt base64
    for p in ('json', 'sjson'):
        for s in ['!', '!!!!', 'Q', 'QQ', 'QQQ', 'QQ=Q', 'Q===', '====', 'QUJD*UJD', 'QUJD QUJD', 'QUJDQ', 'QQ==QQ==', 'é', '\\u0000AAA'] + [''.join(r.choice('ABCabc019+/') for _ in range(4 * r.randrange(5))) + r.choice('!*-_ .') + 'AAA' for _ in range(40)]:
            for w in ('', 'framed', 'iorw'):
                rd(p, w, base('nil'), frame(w, list(('"%s" ' % s).encode())), [O('RBin')], must=1, want={'k': 1, 'm': []})
    # wrong headers
    for rep in range(600 if THOROUGH else 100):
        for p in ('bin', 'com', 'json'):
            m = message(r, p); m = (m[0], m[1], m[2], m[3]); w = r.choice(RW); full = enc_whole_msg(p, *m, r, True); sr = r.randrange(2)
            if p == 'bin':
                x = r.random()
                if x < 0.3: full = enc_whole_msg(p, *m, r, False); sr = 1
                else:
                    while True:
                        hi = r.randrange(0x8000, 0x10000)
                        if hi != 0x8001: break
                    if x < 0.6: hi = r.choice([0x8000, 0x8002, 0x8003, 0x8101, 0xffff, 0xc001, 0x9001])
                    full = be(hi, 2) + full[2:]
            elif p == 'com':
                if r.random() < 0.5: full[0] = r.choice([x for x in (0, 0x80, 0x81, 0x83, 0x02, 0xff, r.randrange(256)) if x != 0x82])
                else: full[1] = (full[1] & 0xe0) | r.choice([0, 2, 3, 31])
            else: full = list(r.choice(['[0,', '[2,', '[ 3 ,', '[-1,', '[100000,']).encode()) + full[full.index(44) + 1:]
            n += 1
            cases.append(err('%s-v%d' % (c.prop, n), 'read', base('nil'), proto=p, wrap=w, wire=frame(w, full), steps=[{'k': 'ops', 'ops': rops(ops_msg(*m))[:1]}], sr=sr, fact=r.randrange(2), chunk=r.choice([[], [1]]),
                             must=1, want={'k': 4, 'm': [], 'nm': list(b'EOF')}))
    c.cases('ErrorTrace', cases, label='errors', batch=4000)
    # transports: opened twice, used before and after, read to the end
    tc = []
    for i in range(400 if THOROUGH else 60):
        ops = []; cn = int(r.random() < 0.3); op = peer = cn == 1
        for _ in range(r.randrange(2, 14)):
            x = r.random()
            if x < 0.35: ops.append(T('Open')); peer = peer if op else True; op = True
            elif x < 0.5: ops.append(T(r.choice(['Close', 'Interrupt']))); op = False
            elif x < 0.6 and op: ops.append(T(r.choice(['PEof', 'PClose']))); peer = False
            elif x < 0.8 and not (op and peer): ops.append(T(r.choice(['R', 'RA']), k=r.choice([1, 2, 50])))
            elif x < 0.95: ops.append(T('W', v=data(r, r.choice([1, 3, 5000])))); ops.append(T('F'))
            else: ops.append(T('IsOpen'))
        tc.append(sock('%s-s%d' % (c.prop, i), ops + [T('Close'), T('R', k=1), T('W', v=[1]), T('F'), T('Close')], ['b', 'nb'][i % 2], fact=r.randrange(2), conn=cn))
        wire = []
        for _ in range(r.randrange(0, 4)): k = r.choice([0, 1, 2, 10]); wire += be(k, 4) + data(r, k)
        if wire and r.random() < 0.6: wire = wire[:r.randrange(len(wire))]
        tc.append(framed('%s-f%d' % (c.prop, i), [T(r.choice(['R', 'RA']), k=r.choice([1, 2, 5])) for _ in range(12)], wire, fact=i % 2, eof=r.randrange(2), endk=r.choice([4, 4, 0, 1, 3])))
        mode = r.choice(['r', 'w', 'randw', 'rw', 'none'])
        ops = []
        for _ in range(r.randrange(2, 12)): ops.append(r.choice([T('R', k=2), T('RA', k=3), T('W', v=[1, 2]), T('F'), T('Open'), T('Close') if r.random() < 0.5 else T('R', k=1)]))
        tc.append({'id': '%s-i%d' % (c.prop, i), 'kind': 'iostream', 'mode': mode, 'hasr': int(mode in ('r', 'randw', 'rw')), 'hasw': int(mode in ('w', 'randw', 'rw')), 'wire': data(r, r.choice([0, 1, 5])),
                   'failw': 0, 'failf': 0, 'endk': r.choice([4, 4, 0, 1, 3]), 'ops': ops, 'fact': r.randrange(2), 'eof': r.randrange(2)})
        tc.append({'id': '%s-m%d' % (c.prop, i), 'kind': 'membuf', 'fact': i % 2, 'size': 4, 'ops': [T('Open')] + [r.choice([T('W', v=[1]), T('R', k=1), T('RA', k=2), T('R', k=5)]) for _ in range(6)] + [T('Close'), T('R', k=1)]})
        if i % 3 == 0:
            b = data(r, r.choice([0, 1, 30]))
            tc.append(http('%s-h%d' % (c.prop, i), [T('R', k=1), T('W', v=[1]), T('F'), T('RA', k=len(b)), T('R', k=1), T('RA', k=1), T('Close'), T('R', k=1)], [ans(r.choice([200, 200, 500]), b, r.randrange(2), 0)], fact=r.randrange(2)))
    c.cases('TransportTrace', tc, label='transports at their ends', driver_kw={'limit_ms': 8000}, batch=2500)
    sc = []
    for sk in ('sv', 'nb'):
        for i in range(200 if THOROUGH else 40):
            ops = []; op = False; q = 0; intr = False
            for _ in range(r.randrange(2, 14)):
                f = r.choice(['Listen', 'Open', 'Close', 'Interrupt', 'Accept', 'R', 'RA', 'W', 'F', 'Dial'])
                if f == 'Accept':
                    if op and q == 0: f = 'Dial'
                    if not op and sk == 'sv' and not intr: f = 'Listen'
                ops.append(C(f))
                if f in ('Listen', 'Open'): op = True; intr = False
                elif f in ('Close', 'Interrupt'): op = False; q = 0; intr = intr or f == 'Interrupt'
                elif f == 'Dial' and op: q += 1
                elif f == 'Accept' and op: q -= 1
            sc.append(ssock('%s-%s-v%d' % (c.prop, sk, i), number(ops), sk, how=r.randrange(3)))
    c.cases('ServerTrace', sc, label='server sockets at their ends', driver_kw={'limit_ms': 12000}, batch=2500)
