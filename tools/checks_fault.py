"""Write faults (P19)."""
import random
from vlib import *
from gen import *
from checks_codec import boundary_write_scripts, random_write_script
from checks_json import *
def rng(tag): return random.Random('%s/%d' % (tag, SEED))
WRAPS = ['', 'framed', 'framed2', 'iorw', 'iorandw', 'sock', 'framedsock', 'iow', 'framediow']
def wf(cid, proto, wrap, ops, r, **k):
    d = {'id': cid, 'kind': 'wf', 'proto': proto, 'sr': 0, 'sw': r.randrange(2), 'fact': r.randrange(2), 'wrap': wrap, 'ops': ops, 'failw': 0, 'failb': 0, 'failf': 0, 'once': 0}
    d.update(k); return d
def check_P19(c):
    r = rng(c.prop); cases = []; PR = ['bin', 'com', 'json', 'sjson']
    r1 = tlc('WriteFaultMC', env={'EMIT': '1'}, mem='8g'); c.add_tlc(r1); sc = scripts(r1)
    c.count('behaviours of WriteFaultMC', len(sc))
    if THOROUGH:
        r2 = tlc('WriteFaultMC', cfg='WriteFaultMC_big', env={'EMIT': '0'}, mem='12g'); c.add_tlc(r2)
    ST = {'': ['', 'iorw', 'iow', 'sock'], 'buf': ['sock', 'iorandw'], 'frame': ['framed', 'framediow'], 'frame,frame': ['framed2'], 'buf,frame': ['framedsock'], 'frame,buf': ['framedsock'], 'buf,buf': ['sock', 'framedsock']}
    for i, b in enumerate(r.sample(sc, min(len(sc), 8000 if THOROUGH else 1200))):
        wrap = r.choice(ST[','.join(b['stack'])]); f = b['fault']
        ops = []
        for o in b['ops']:
            ops += [O('Flush')] if o == 'F' else [O('Byte', n=r.randrange(256))] if o == '1' else [O('Str', v=list(text(r).encode()))]
        cases.append(wf('%s-g%d' % (c.prop, i), r.choice(PR[:2]), wrap, ops, r, failw=f['w'], failb=f['b'], failf=f['f'], once=int(f['once'])))
    n = 0
    def scripts_for(p):
        js = p in ('json', 'sjson')
        while True:
            ops = random_write_script(r, utf8=js, multi=not js or r.random() < 0.3, maxdepth=r.choice([1, 2, 3])) if not js else json_script(r, p)
            if len(ops) <= 60: break
        if ops[-1]['o'] != 'Flush': ops = ops + [O('Flush')]
        return ops
    def json_script(r, p):
        g = Gen(r, utf8=True, maxdepth=r.choice([1, 2, 3])); g.budget = 20
        return ops_msg(list(text(r).encode()), r.choice([1, 2, 3, 4]), sgn(be(edge_int(r, 4), 4)), g.value(STRUCT))
    # one script, every place
    for p in PR:
        for w in WRAPS:
            for rep in range(12 if THOROUGH else 2):
                ops = scripts_for(p)
                if rep == 0 and r.random() < 0.5: ops = ops + ops
                for k in list(range(1, 9)) + r.sample(range(9, 120), 8) + [-1, -2, -3]:
                    for once in (0, 1):
                        n += 1; cases.append(wf('%s-e%d' % (c.prop, n), p, w, ops, r, failw=k, failb=r.choice([0, 0, 1, 2, 3, 100]), once=once))
                for k in (1, 2, -1):
                    n += 1; cases.append(wf('%s-e%d' % (c.prop, n), p, w, ops, r, failf=k, once=n % 2))
                n += 1; cases.append(wf('%s-e%d' % (c.prop, n), p, w, ops, r))
    for i in range(20000 if THOROUGH else 2500):
        p = r.choice(PR); ops = scripts_for(p)
        k = dict(failf=r.choice([1, 1, 2, 3, -1])) if r.random() < 0.1 else dict(failw=r.choice([r.randrange(1, 6), r.randrange(1, 3 * len(ops)), -r.randrange(1, 6)]), failb=r.choice([0, 0, 1, 2, 1000]))
        cases.append(wf('%s-r%d' % (c.prop, i), p, r.choice(WRAPS), ops, r, once=r.randrange(2), **k))
    # larger than any buffer
    for p in PR:
        for w in WRAPS:
            for size in (4000, 4097, 9000):
                big = [97 + j % 26 for j in range(size)]
                body = ops_value((STRUCT, [115], [([97], 1, (STRING, big)), ([98], 2, (STRING if p == 'sjson' else BINARY, big[:size // 2])), ([99], 3, (BOOL, 1))]))
                for k in (dict(failw=1), dict(failw=2), dict(failw=-1), dict(failw=1, failb=1000), dict(failf=1), {}):
                    n += 1; cases.append(wf('%s-l%d' % (c.prop, n), p, w, body + [O('Flush')], r, once=r.randrange(2), **k))
    # replies with application exceptions
    for p in PR:
        for w in WRAPS:
            for rep in range(6 if THOROUGH else 1):
                a = O('AxW', ctor='full', k=be(r.choice([0, 1, 6, -1, 70000]), 4), v=list(r.choice(['', 'boom', 'x' * 200]).encode()))
                ops = [O('MsgB', name=list(b'echo'), t=3, v=be(5, 4)), a, O('MsgE'), O('Flush')] * r.choice([1, 2])
                for k in list(range(1, 30)) + [-1, -2]:
                    n += 1; cases.append(wf('%s-x%d' % (c.prop, n), p, w, ops, r, failw=k, failb=r.choice([0, 0, 1, 2, 3, 100]), once=n % 2))
                n += 1; cases.append(wf('%s-x%d' % (c.prop, n), p, w, ops, r, failf=1))
                n += 1; cases.append(wf('%s-x%d' % (c.prop, n), p, w, ops, r))
    c.cases('FaultTrace', cases, label='write faults', batch=4000)
