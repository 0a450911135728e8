"""Transport checks (P10-P14)."""
import random
from vlib import *
from gen import be
def rng(tag): return random.Random('%s/%d' % (tag, SEED))
def T(o, **k): return dict({'o': o, 'v': [], 'k': 0, 'n': 0}, **k)

def design(c, name, n):
    """check the specification of this transport, return behaviours to replay"""
    out = []
    for cfg in ['TransportMC_' + name] + (['TransportMC_%s_big' % name] if THOROUGH else []):
        r = tlc('TransportMC', cfg=cfg, env={'EMIT': '1'}, mem='8g', timeout=850)
        c.add_tlc(r); s = scripts(r)
        if not s: raise CheckError('no behaviours from ' + cfg)
        c.count('behaviours of ' + cfg, len(s)); out.append(s)
    r = rng(c.prop + name); pick = []
    for s in out: pick += r.sample(s, min(len(s), n * (4 if THOROUGH else 1)))
    return pick
def data(r, n):
    if n > 300: b = r.randrange(256); return [(b + 7 * i) % 256 for i in range(n)]
    return [r.randrange(256) for _ in range(n)]
SIZES = [0, 1, 1, 2, 3, 4, 5, 7, 15, 16, 31, 64, 127, 128, 255, 256, 257, 500, 1023, 1024, 1025, 4095, 4096, 4097, 5000, 9000]
def size(r): return r.choice(SIZES) if r.random() < 0.5 else r.randrange(12)
def run(c, cases, label, **k):
    # TLC holds whole cases in memory: keep batches modest
    c.cases('TransportTrace', cases, label=label, batch=2500, **k)

# ---------------------------------------------------------------- framed
def framed(cid, ops, wire=(), loop=0, **k):
    return dict({'id': cid, 'kind': 'framed', 'wire': list(wire), 'loop': loop, 'failw': 0, 'failf': 0, 'endk': 4, 'ops': ops}, **k)
CHUNKS = [[], [], [1], [2], [3, 1, 4], [5, 1], [1, 1, 1, 1, 100]]
def check_P11(c):
    r = rng(c.prop); cases = []
    for i, b in enumerate(design(c, 'framed', 600)):
        cases.append(framed('%s-g%d' % (c.prop, i), b['ops'], loop=1, fact=i % 2, chunk=CHUNKS[i % 7]))
    for i, b in enumerate(design(c, 'frames', 600)):
        cases.append(framed('%s-f%d' % (c.prop, i), b['ops'], b['c']['wire'], fact=i % 2, chunk=CHUNKS[i % 7], eof=i % 3 // 2))
    n = 3000 if THOROUGH else 400
    for i in range(n):   # writing and reading through a loop
        ops = []
        for _ in range(r.randrange(2, 40)):
            x = r.random()
            if x < 0.4: ops.append(T('W', v=data(r, size(r))))
            elif x < 0.6: ops.append(T('F'))
            elif x < 0.85: ops.append(T('R', k=size(r)))
            elif x < 0.95: ops.append(T('RA', k=r.choice([1, 2, 3, 5, 10, 100, 1000])))
            else: ops.append(T(r.choice(['IsOpen', 'Peek', 'Nop'])))
        cases.append(framed('%s-l%d' % (c.prop, i), ops, loop=1, fact=r.randrange(2), chunk=r.choice(CHUNKS)))
    for sz in sorted(set(SIZES)) + [65535, 65536, 70000, 100000]:      # one frame of every size, in one and in many writes
        v = data(r, sz)
        parts = [v] if sz < 3 else [v[:1], v[1:sz // 2], v[sz // 2:]]
        for p in ([v], parts): cases.append(framed('%s-s%d-%s' % (c.prop, sz, 'm' if p is parts else 'o'), [T('W', v=x) for x in p] + [T('F'), T('RA', k=sz), T('R', k=1)], loop=1))
    for i in range(n):   # incoming frames of a peer, whole, cut, failing or negative
        wire = []; total = 0
        for _ in range(r.randrange(0, 5)):
            k = r.choice([0, 0, 1, 2, 3, 10, 255, 256, 700]); total += k
            wire += be(k, 4) + data(r, k)
        x = r.random()
        if x < 0.4 and wire: wire = wire[:r.randrange(len(wire))]
        elif x < 0.55: wire += be(r.choice([-1, -2, -100, -2147483648, -2147483647]), 4) + data(r, 8)
        elif x < 0.65: wire += be(r.choice([20, 1000, 66000]), 4) + data(r, 8)
        ops = []
        for _ in range(r.randrange(1, 25)): ops.append(T(r.choice(['R', 'R', 'RA']), k=r.choice([0, 1, 1, 2, 3, 4, 5, 8, 10, 100, 300, 2000])))
        cases.append(framed('%s-i%d' % (c.prop, i), ops, wire, fact=r.randrange(2), chunk=r.choice(CHUNKS), eof=r.randrange(2), endk=r.choice([4, 4, 0, 1, 3])))
    for i in range(n // 2):   # the underlying transport refuses a write or flush
        ops = []
        for _ in range(r.randrange(2, 10)): ops += [T('W', v=data(r, size(r)))] * r.randrange(0, 3) + [T('F')]
        f = {'failf': r.randrange(1, 6)} if r.random() < 0.4 else {'failw': r.randrange(1, 10), 'failb': r.randrange(0, 6)}
        cases.append(framed('%s-w%d' % (c.prop, i), ops, fact=r.randrange(2), **f))
    run(c, cases, 'framed transport histories')

# ------------------------------------------------- memory buffer, streams
def check_P12(c):
    r = rng(c.prop); cases = []; n = 3000 if THOROUGH else 400
    def mb(cid, ops, **k): cases.append(dict({'id': cid, 'kind': 'membuf', 'ops': ops}, **k))
    for i, b in enumerate(design(c, 'membuf', 700)):
        mb('%s-g%d' % (c.prop, i), b['ops'] + [T('Len'), T('Bytes')], fact=i % 2, size=[0, 1, 64][i % 3])
    for i in range(n):
        ops = []
        for _ in range(r.randrange(2, 50)):
            x = r.random()
            if x < 0.35: ops.append(T(r.choice(['W', 'W', 'W', 'WS', 'RF']), v=data(r, size(r))))
            elif x < 0.7: ops.append(T(r.choice(['R', 'R', 'RA']), k=size(r)))
            elif x < 0.8: ops.append(T('RB'))
            elif x < 0.95: ops.append(T(r.choice(['Len', 'Bytes', 'String', 'IsOpen', 'Peek', 'F', 'Open', 'WT'])))
            else: ops.append(T(r.choice(['Reset', 'Close'])))
        mb('%s-m%d' % (c.prop, i), ops, fact=r.randrange(2), size=r.choice([0, 1, 10, 1024]))
    def st(cid, mode, ops, **k):
        cases.append(dict({'id': cid, 'kind': 'iostream', 'mode': mode, 'hasr': int(mode in ('r', 'randw', 'rw')), 'hasw': int(mode in ('w', 'randw', 'rw')),
                           'wire': [], 'failw': 0, 'failf': 0, 'endk': 4, 'ops': ops}, **k))
    for i, b in enumerate(design(c, 'iostream', 500)):
        st('%s-h%d' % (c.prop, i), b['c']['mode'], b['ops'], wire=b['c']['wire'], fact=i % 2, size=i // 2 % 2, chunk=CHUNKS[i % 7], eof=i % 2)
    for i in range(n):
        mode = r.choice(['r', 'w', 'randw', 'randw', 'rw', 'rw', 'none'])
        ops = []
        for _ in range(r.randrange(2, 30)):
            x = r.random()
            if x < 0.35: ops.append(T('W', v=data(r, size(r))))
            elif x < 0.5: ops.append(T('F'))
            elif x < 0.85: ops.append(T(r.choice(['R', 'R', 'RA']), k=size(r)))
            elif x < 0.95: ops.append(T(r.choice(['Open', 'Nop'])))
            elif x < 0.98: ops.append(T('Close'))
        k = {}
        if r.random() < 0.3: k = {'failw': r.randrange(1, 6), 'failb': r.choice([0, 0, 1, 3])}
        elif r.random() < 0.15: k = {'failf': r.randrange(1, 3)}
        st('%s-i%d' % (c.prop, i), mode, ops, wire=data(r, r.choice([0, 1, 5, 100, 5000, 9000])), fact=r.randrange(2), size=r.randrange(2), chunk=r.choice(CHUNKS), eof=r.randrange(2),
           endk=r.choice([4, 4, 0, 1, 3]), **k)
    run(c, cases, 'memory buffer and stream histories')

# ---------------------------------------------------------------- ReadAll
def check_P10(c):
    r = rng(c.prop); cases = []; n = 4000 if THOROUGH else 500
    def ra(cid, script, ks, **k):
        cases.append(dict({'id': cid, 'kind': 'readall', 'script': script, 'exact': 1, 'ops': [T('RA', k=x) for x in ks]}, **k))
    for i, b in enumerate(design(c, 'readall', 1000)):
        ra('%s-g%d' % (c.prop, i), b['c']['script'], [o['k'] for o in b['ops']], mode=['', 'iorw'][i % 2])
    for i in range(n):
        s = []; bytes_ = 0
        for _ in range(r.randrange(0, 9)):
            s.append([r.choice([0, 1, 1, 2, 3, 5, 8, 100, 1000, 5000]), -1 if r.random() < 0.85 else r.choice([4, 4, 0, 1, 3])])
            bytes_ += s[-1][0]
        ks = [r.choice([0, 1, 2, 3, 4, 5, 8, 16, 100, bytes_, max(0, bytes_ - 1), bytes_ + 1, r.randrange(bytes_ + 2)]) for _ in range(r.randrange(1, 8))]
        mode = r.choice(['', '', 'iorw', 'ior'])
        if mode == 'ior':  # a buffering reader: errors only at the end
            for e in s: e[1] = -1
            if s and r.random() < 0.5: s[-1][1] = 4
            ra('%s-r%d' % (c.prop, i), s, ks, mode=mode, exact=0)
        else: ra('%s-r%d' % (c.prop, i), s, ks, mode=mode)
    # the other transports' own exact reads
    for i in range(n // 2):
        wire = []
        for _ in range(r.randrange(0, 5)): k = r.choice([0, 1, 2, 3, 10, 300]); wire += be(k, 4) + data(r, k)
        if r.random() < 0.4 and wire: wire = wire[:r.randrange(len(wire))]
        cases.append(framed('%s-f%d' % (c.prop, i), [T('RA', k=r.choice([1, 2, 3, 5, 8, 13, 100, 303])) for _ in range(6)], wire, chunk=r.choice(CHUNKS), eof=r.randrange(2), endk=r.choice([4, 4, 0, 1, 3])))
        v = data(r, r.choice([0, 1, 5, 100]))
        cases.append({'id': '%s-m%d' % (c.prop, i), 'kind': 'membuf', 'ops': [T('W', v=v)] + [T('RA', k=r.choice([0, 1, 2, 3, 5, 50, len(v)])) for _ in range(5)]})
        mode = r.choice(['r', 'rw', 'randw', 'none', 'w'])
        cases.append({'id': '%s-i%d' % (c.prop, i), 'kind': 'iostream', 'mode': mode, 'hasr': int(mode in ('r', 'randw', 'rw')), 'hasw': int(mode in ('w', 'randw', 'rw')),
                      'wire': v, 'failw': 0, 'failf': 0, 'endk': r.choice([4, 4, 0, 1, 3]), 'chunk': r.choice(CHUNKS), 'eof': r.randrange(2),
                      'ops': [T('RA', k=r.choice([0, 1, 2, 3, 5, 50, len(v)])) for _ in range(5)] + [T('Close'), T('RA', k=1)]})
    # sockets and HTTP bodies
    for i in range(60 if THOROUGH else 16):
        ops = [T('Open'), T('PSend', v=data(r, r.choice([3, 10, 1000]))), T('RA', k=2), T('PSend', v=data(r, 4)), T('RA', k=5), T(r.choice(['PEof', 'PClose'])), T('RA', k=r.choice([1, 2000])), T('RA', k=1), T('Close'), T('RA', k=1)]
        cases.append(sock('%s-s%d' % (c.prop, i), ops, ['b', 'nb'][i % 2]))
        b = data(r, r.choice([0, 1, 10, 3000]))
        cases.append(http('%s-h%d' % (c.prop, i), [T('W', v=[1]), T('F'), T('RA', k=r.choice([1, len(b) // 2, len(b)])), T('RA', k=r.choice([1, len(b) // 2, len(b)])), T('RA', k=len(b) + 1)], [ans(200, b, i % 2, i // 2 % 2)]))
    run(c, cases, 'exact reads', driver_kw={'limit_ms': 8000})

# ---------------------------------------------------------------- sockets
def sock(cid, ops, mode, **k):
    return dict({'id': cid, 'kind': 'sock', 'mode': mode, 'conn': 0, 'badaddr': 0, 'tmo': 0, 'ops': ops}, **k)
def sock_script(r, tmo):
    """a random history in which no read waits for ever"""
    ops = []; opened = False; avail = 0; peer = 'up'; lis = True
    for _ in range(r.randrange(4, 25)):
        x = r.random()
        if x < 0.16 or (not opened and x < 0.5):
            ops.append(T('Open'))
            if not opened and lis: opened = True; avail = 0; peer = 'up'
        elif x < 0.34: ops.append(T('W', v=data(r, size(r))))
        elif x < 0.48: ops.append(T('F'))
        elif x < 0.58:
            v = data(r, r.choice([1, 2, 5, 100, 3000])); ops.append(T('PSend', v=v))
            if opened and peer == 'up': avail += len(v)
        elif x < 0.78:
            if not opened or peer != 'up': ops.append(T(r.choice(['R', 'RA']), k=r.choice([1, 2, 50])))
            elif avail > 0:
                k = r.randrange(1, avail + 1)
                ops.append(T('RA', k=k)); avail -= k
            elif tmo and r.random() < 0.3: ops.append(T('R', k=3))
        elif x < 0.84: ops.append(T(r.choice(['IsOpen', 'Peek'])))
        elif x < 0.88: ops.append(T(r.choice(['PEof', 'PClose']))); peer = 'eof' if opened else peer
        elif x < 0.91: ops.append(T('LOff' if lis else 'LOn')); lis = not lis
        else:
            ops.append(T(r.choice(['Close', 'Interrupt']))); opened = False
    return ops + [T('Close'), T('IsOpen')]
def waits(b):
    """could a read of this behaviour wait for ever (if earlier reads gave more bytes than the model's)?"""
    opened = b['c']['conn'] == 1; avail = 0; up = True; lis = b['c']['badaddr'] == 0
    for o in b['ops']:
        x = o['o']
        if x == 'Open' and not opened and lis: opened, avail, up = True, 0, True
        elif x in ('Close', 'Interrupt'): opened = False
        elif x == 'LOff': lis = False
        elif x == 'LOn': lis = b['c']['badaddr'] == 0
        elif x == 'PSend' and opened and up: avail += len(o['v'])
        elif x in ('PEof', 'PClose'): up = False
        elif x in ('R', 'RA') and opened and up:
            if avail < (1 if x == 'R' else o['k']): return True
            avail = max(0, avail - o['k'])
    return False
def check_P13(c):
    r = rng(c.prop); cases = []
    for i, b in enumerate([b for b in design(c, 'sock', 600) if not waits(b)]):
        cases.append(sock('%s-g%d' % (c.prop, i), b['ops'] + [T('IsOpen'), T('Close')], ['b', 'nb'][i % 2], conn=b['c']['conn'], badaddr=b['c']['badaddr'], fact=i // 2 % 2))
    for i in range(2000 if THOROUGH else 250):
        tmo = r.choice([0, 0, 0, 150])
        cases.append(sock('%s-r%d' % (c.prop, i), sock_script(r, tmo), ['b', 'nb'][i % 2], tmo=tmo, fact=r.randrange(2)))
    for m in ('b', 'nb'):
        for k in (0, 1):
            tag = '%s-t%s%d' % (c.prop, m, k)
            cases += [
             # a read waits no longer than the timeout, and the socket survives it
             sock(tag + 'a', [T('Open'), T('R', k=4), T('IsOpen'), T('PSend', v=[1, 2, 3]), T('RA', k=3), T('R', k=1), T('RA', k=2), T('W', v=[5]), T('F'), T('Close')], m, tmo=150, fact=k),
             sock(tag + 'b', [T('Open'), T('PSend', v=[9]), T('RA', k=2), T('Close'), T('Open'), T('SetTO', n=0), T('PSend', v=[1]), T('R', k=4), T('Close')], m, tmo=120, fact=k),
             sock(tag + 'c', [T('Open'), T('SetTO', n=100), T('R', k=1), T('Close'), T('R', k=1)], m, fact=k),
             # a timeout runs from the operation it limits
             sock(tag + 'd', [T('Open'), T('W', v=[1, 2]), T('Sleep', n=220), T('F'), T('Sleep', n=220), T('W', v=[3]), T('F'), T('PSend', v=[7]), T('Sleep', n=200), T('RA', k=1), T('Close')], m, tmo=150, fact=k),
             # a timed operation does not limit later untimed ones
             sock(tag + 'e', [T('Open'), T('PSend', v=[7]), T('RA', k=1), T('W', v=[1]), T('F'), T('SetTO', n=0), T('Sleep', n=200), T('PSend', v=[8]), T('RA', k=1), T('W', v=[2]), T('F'), T('Close')], m, tmo=150, fact=k),
             sock(tag + 'f', [T('Open'), T('RInt'), T('IsOpen'), T('Open'), T('W', v=[1]), T('F'), T('Close')], m, fact=k),
             sock(tag + 'g', [T('Open'), T('W', v=data(r, 70000)), T('F'), T('PSend', v=data(r, 70000)), T('RA', k=70000), T('Close')], m, fact=k),
            ]
    run(c, cases, 'socket histories against a TCP peer', driver_kw={'limit_ms': 8000})

# ---------------------------------------------------------------- HTTP
def ans(st, body=(), cut=0, chnk=0): return {'st': st, 'body': list(body), 'cut': cut, 'chnk': chnk if not cut else 0}
def http(cid, ops, answers, **k):
    return dict({'id': cid, 'kind': 'http', 'post': 1, 'answers': answers, 'maxconns': 8, 'ops': ops}, **k)
def check_P14(c):
    r = rng(c.prop); cases = []
    for i, b in enumerate(design(c, 'http', 500)):
        cases.append(http('%s-g%d' % (c.prop, i), b['ops'] + [T('IsOpen')], b['c']['answers'], post=b['c']['post'], fact=i % 2))
    for i in range(1500 if THOROUGH else 250):
        answers = [ans(r.choice([200, 200, 200, 200, 500, 404, 400, 503, 0]), data(r, r.choice([0, 1, 5, 100, 3000, 9000])), int(r.random() < 0.1), r.randrange(2)) for _ in range(r.randrange(1, 5))]
        ops = []
        for _ in range(r.randrange(3, 25)):
            x = r.random()
            if x < 0.3: ops.append(T('W', v=data(r, size(r))))
            elif x < 0.55: ops.append(T('F'))
            elif x < 0.75: ops.append(T('R', k=r.choice([0, 1, 2, 10, 500, 5000])))
            elif x < 0.92: ops.append(T('RA', k=r.choice([0, 1, 2, 5, 50, 3000])))
            elif x < 0.96: ops.append(T(r.choice(['IsOpen', 'Peek', 'Open'])))
            elif x < 0.98: ops.append(T('Close'))
        post = int(r.random() < 0.93)
        if not post: answers[0] = ans(200, answers[0]['body'], answers[0]['cut'], answers[0]['chnk'])
        cases.append(http('%s-r%d' % (c.prop, i), ops, answers, post=post, fact=r.randrange(2)))
    for i, answers in enumerate([[ans(200, data(r, 400))], [ans(500, data(r, 400))], [ans(200, data(r, 9000), 0, 1)], [ans(200, data(r, 30)), ans(404, data(r, 5000))]]):
        for j in (0, 1):   # long series, bodies read fully, partly or not
            ops = []
            for k in range(60): ops += [T('W', v=[k, i]), T('F')] + ([T('RA', k=r.choice([1, 20]))] if j else [])
            cases.append(http('%s-n%d-%d' % (c.prop, i, j), ops + [T('Conns'), T('Close'), T('Conns')], answers, maxconns=12))
    run(c, cases, 'HTTP client histories against an HTTP server', driver_kw={'limit_ms': 8000})
