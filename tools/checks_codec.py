"""Binary and compact protocol checks (P01-P04)."""
import random
from vlib import *
from gen import *

def rng(tag): return random.Random('%s/%d' % (tag, SEED))

# ------------------------------------------------- behaviours from the model
def design(c, n):
    """Check the design-level properties exhaustively within the bounds, and
    return (a seeded sample of) the behaviours of the model for replay."""
    out = []
    for cfg in ('CodecMC', 'CodecMC_vals', 'CodecMC_ids') + (('CodecMC_big',) if THOROUGH else ()):
        r = tlc('CodecMC', cfg=cfg, env={'EMIT': '1'}, mem='8g')
        c.add_tlc(r); s = scripts(r)
        if not s: raise CheckError('no behaviours from ' + cfg)
        c.count('behaviours of ' + cfg, len(s)); out.append(s)
    r = rng(c.prop + 'design'); pick = []
    for s in out: pick += r.sample(s, min(len(s), n * (4 if THOROUGH else 1)))
    return pick
def fullop(o): return O(o['o'], **{k: v for k, v in o.items() if k != 'o'})
TAIL = [222, 173, 1]

# ---------------------------------------------------------------- writing
def boundary_write_scripts(proto):
    """deterministic boundary scripts"""
    out = []
    def val(t, v): out.append(ops_value((t, v)))
    for b in (0, 1): val(BOOL, b)
    for b in (0, 1, 2, 127, 128, 255): val(BYTE, b)
    for n, t in ((2, I16), (4, I32), (8, I64)):
        vals = {0, 1, -1, 2, -2}
        for k in range(8 * n - 1): vals |= {1 << k, -(1 << k), (1 << k) - 1, (1 << k) + 1, -(1 << k) + 1, -(1 << k) - 1}
        vals |= {(1 << (8*n-1)) - 1, -(1 << (8*n-1))}
        vals = [v for v in vals if -(1 << (8*n-1)) <= v < (1 << (8*n-1))]
        ops = []
        for v in sorted(vals): ops += ops_value((t, be(v, n)))
        out.append(ops)
    out.append(sum([ops_value((DOUBLE, dbl(x))) for x in DOUBLES], []))
    for t in (STRING, BINARY):
        for n in (0, 1, 2, 127, 128, 129, 255, 256, 300, 1023, 1024, 1025):
            out.append(ops_value((t, [(i * 7 + n) % 256 for i in range(n)])))
    for et in (BOOL, BYTE, I16, I32, I64, DOUBLE, STRING, BINARY):
        z = {BOOL: 1, BYTE: 7}.get(et, be(1, {I16: 2, I32: 4, I64: 8, DOUBLE: 8}.get(et, 0)) if et not in (STRING, BINARY) else [65])
        for k in (LIST, SET):
            for n in (0, 1, 14, 15, 16):
                out.append(ops_value((k, et, [(et, z)] * n)))
        for n in (0, 1, 2):
            out.append(ops_value((MAP, et, BYTE, [((et, z), (BYTE, 3))] * n)))
            out.append(ops_value((MAP, I32, et, [((I32, be(5, 4)), (et, z))] * n)))
    for k in (LIST, SET):
        for n in (127, 128, 255, 256, 300): out.append(ops_value((k, BYTE, [(BYTE, i % 256) for i in range(n)])))
    out.append(ops_value((MAP, BYTE, BOOL, [((BYTE, i % 256), (BOOL, i % 2)) for i in range(130)])))
    # only headers matter for big counts
    for n in (16383, 16384, 65535, 65536, 2097151, 2097152):
        out.append([O('LstB', t=BYTE, n=n)]); out.append([O('SetB', t=I64, n=n)]); out.append([O('MapB', kt=I32, t=STRING, n=n)])
    # every field type at every interesting id distance
    for last in (0, 1, 100, 32750, -5, -32768):
        for d in (-1, 0, 1, 2, 14, 15, 16, 17, 127, 128, 300, 40000):
            i = last + d
            if not -32768 <= i <= 32767: continue
            for t, v in ((BOOL, 0), (BOOL, 1), (BYTE, 5), (STRING, [])):
                flds = ([] if last == 0 else [([97], last, (BYTE, 1))]) + [([98], i, (t, v)), ([99], min(i + 1, 32767), (BOOL, 1))]
                out.append(ops_value((STRUCT, [115], flds)))
    # nesting: a field after a nested struct at every depth, several times over
    def nest(d, w):
        if d == 0: return (STRUCT, [120], [([97], 3, (BOOL, 1)), ([98], 4, (BYTE, 9))])
        return (STRUCT, [120], [([97], 2 + d, (BOOL, 0)), ([98], 7 + d, nest(d - 1, w)), ([99], 8 + d, (BYTE, d)),
                                ([100], 9 + d, nest(d - 1, 0) if w else (BOOL, 1)), ([101], 30 + d, (STRING, [100]))])
    for d in range(1, 6): out.append(ops_value(nest(d, d <= 3)))
    out.append(ops_value((LIST, STRUCT, [nest(1, 1)] * 3)))
    out.append(ops_value((MAP, STRUCT, STRUCT, [(nest(1, 0), nest(2, 0))] * 2)))
    for mt in (1, 2, 3, 4):
        for seq in (0, 1, -1, 127, 128, 2147483647, -2147483648, 300, 16384):
            for nm in ([], [97], list(b'testService'), [200] * 130):
                out.append(ops_msg(nm, mt, seq, (STRUCT, [97], [([97], 1, (I32, be(seq, 4)))])))
    return out

def random_write_script(r, utf8=False, multi=True, binary=True, maxdepth=None):
    g = Gen(r, utf8=utf8, maxdepth=maxdepth or r.choice([2, 3, 4, 5, 8]), binary=binary)
    ops = []
    for _ in range(r.choice([1, 1, 2, 3, 5]) if multi else 1):
        g.budget = r.choice([5, 20, 60])
        if r.random() < 0.4:
            body = g.value(STRUCT)
            ops += ops_msg(g.name(), r.choice([1, 2, 3, 4]), sgn(be(edge_int(r, 4), 4)), body)
            if r.random() < 0.7: ops.append(O('Flush'))
        else:
            t = r.choice(SCALARS + CONTAINERS * 3) if binary else r.choice(SCALARS[:-1] + CONTAINERS * 3)
            ops += ops_value(g.value(t))
            if r.random() < 0.3: ops.append(O('Flush'))
    return ops

def write_cases(proto, tag, nrand):
    r = rng(tag); cases = []
    for i, ops in enumerate(boundary_write_scripts(proto)):
        for sw in ((0, 1) if proto == 'bin' and ops[0]['o'] == 'MsgB' else (1,)):
            cases.append({'id': '%s-b%d-%d' % (tag, i, sw), 'kind': 'w', 'proto': proto, 'sr': 0, 'sw': sw, 'fact': i % 2, 'ops': ops + [O('Flush')]})
    for i in range(nrand):
        ops = random_write_script(r)
        if ops[-1]['o'] != 'Flush': ops.append(O('Flush'))
        cases.append({'id': '%s-r%d' % (tag, i), 'kind': 'w', 'proto': proto, 'sr': r.randrange(2), 'sw': r.randrange(2), 'fact': r.randrange(2), 'ops': ops})
    return cases

# ---------------------------------------------------------------- reading
def read_case(r, proto, cid, maxdepth=None):
    g = Gen(r, maxdepth=maxdepth or r.choice([2, 3, 4, 5, 8]))
    wire = []; steps = []
    sr = r.randrange(2)
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        g.budget = r.choice([5, 20, 60])
        if r.random() < 0.4:
            wire += enc_msg(proto, g.name(), r.choice([1, 2, 3, 4]), sgn(be(edge_int(r, 4), 4)), r, sr or r.randrange(2))
            wire += enc(proto, g.value(STRUCT), r)
            steps += [{'k': 'msg'}, {'k': 'val', 't': STRUCT}, {'k': 'msge'}]
        else:
            t = r.choice(SCALARS[:-1] + CONTAINERS * 3)
            wire += enc(proto, g.value(t), r); steps.append({'k': 'val', 't': t})
    tail = [r.randrange(256) for _ in range(r.choice([0, 0, 1, 5]))]   # bytes of a later message must stay untouched
    return {'id': cid, 'kind': 'r', 'proto': proto, 'sr': sr, 'sw': 1, 'fact': r.randrange(2), 'wire': wire + tail, 'steps': steps, 'alt': r.randrange(3)}

def boundary_read_cases(proto, tag):
    r = random.Random(5); out = []
    def add(wire, steps, sr=0, alt=0, **k):
        out.append({**k, 'id': '%s-b%d' % (tag, len(out)), 'kind': 'r', 'proto': proto, 'sr': sr, 'sw': 1, 'wire': wire, 'steps': steps, 'alt': alt})
    def v(val, alt=0): add(enc(proto, val, r) + [1, 2, 3], [{'k': 'val', 't': val[0] if val[0] != BINARY else STRING}], alt=alt)
    for n, t in ((2, I16), (4, I32), (8, I64)):
        vals = {0, 1, -1}
        for k in range(8 * n - 1): vals |= {1 << k, -(1 << k), (1 << k) - 1, -(1 << k) - 1}
        vals = sorted(x for x in vals if -(1 << (8*n-1)) <= x < (1 << (8*n-1)))
        add(sum([enc(proto, (t, be(x, n)), r) for x in vals], []), [{'k': 'val', 't': t}] * len(vals))
    add(sum([enc(proto, (DOUBLE, dbl(x)), r) for x in DOUBLES], []), [{'k': 'val', 't': DOUBLE}] * len(DOUBLES))
    for n in (0, 1, 127, 128, 255, 256, 1024, 5000):
        for alt in (0, 1, 2): v((STRING, [(i * 13) % 256 for i in range(n)]), alt)
    for et in (BOOL, BYTE, I16, I32, I64, DOUBLE, STRING):
        z = {BOOL: 1, BYTE: 7, STRING: [65]}.get(et) or be(1, {I16: 2, I32: 4}.get(et, 8))
        for k in (LIST, SET):
            for n in (0, 1, 14, 15, 16): v((k, et, [(et, z)] * n))
        for n in (0, 1, 2): v((MAP, et, BOOL, [((et, z), (BOOL, i % 2)) for i in range(n)])); v((MAP, I32, et, [((I32, be(5, 4)), (et, z))] * n))
    for k in (LIST, SET):
        for n in (127, 128, 300): v((k, BYTE, [(BYTE, i % 256) for i in range(n)]))
    v((LIST, BOOL, [(BOOL, int(i % 3 == 0)) for i in range(20)]))
    for n in (1000, 16383, 16384, 32768, 65536, 70000):   # only the first elements are read
        for big in ((LIST, BYTE, [(BYTE, i % 100) for i in range(n)]), (SET, BYTE, [(BYTE, 4)] * n), (MAP, BYTE, BOOL, [((BYTE, 3), (BOOL, 1))] * n)):
            add(enc(proto, big, r), [{'k': 'val', 't': big[0]}], budget=12)
    for last in (0, 1, 100, 32750, -5, -32768):
        for d in (-1, 0, 1, 2, 14, 15, 16, 17, 127, 128, 300):
            i = last + d
            if not -32768 <= i <= 32767: continue
            for t, x in ((BOOL, 0), (BOOL, 1), (BYTE, 5), (STRING, [])):
                v((STRUCT, [], ([] if last == 0 else [([], last, (BYTE, 1))]) + [([], i, (t, x)), ([], min(i + 1, 32767), (BOOL, 1))]))
    def nest(d, w):
        if d == 0: return (STRUCT, [], [([], 3, (BOOL, 1)), ([], 4, (BYTE, 9))])
        return (STRUCT, [], [([], 2 + d, (BOOL, 0)), ([], 7 + d, nest(d - 1, w)), ([], 8 + d, (BYTE, d)),
                             ([], 9 + d, nest(d - 1, 0) if w else (BOOL, 1)), ([], 30 + d, (STRING, [100]))])
    for d in range(1, 6): v(nest(d, d <= 3))
    v((LIST, STRUCT, [nest(1, 1)] * 3)); v((MAP, STRUCT, STRUCT, [(nest(1, 0), nest(2, 0))] * 2))
    for strict in (0, 1):
        for sr in (0, 1):
            for mt in (1, 2, 3, 4):
                for seq in (0, 1, -1, 128, 2147483647, -2147483648):
                    for nm in ([], [97], [200] * 130):
                        body = enc(proto, (STRUCT, [], [([], 1, (BOOL, 0))]), r)
                        add(enc_msg(proto, nm, mt, seq, random.Random(1), strict) + body, [{'k': 'msg'}, {'k': 'val', 't': STRUCT}, {'k': 'msge'}], sr)
    # bad versions
    if proto == 'bin':
        for hdr in ([128, 2, 0, 1], [129, 1, 0, 1], [255, 255, 255, 255], [128, 0, 0, 1], [192, 1, 0, 1]):
            for sr in (0, 1): add(hdr + be(1, 4) + [97] + be(7, 4), [{'k': 'msg'}], sr)
    else:
        for hdr in ([0x83, 0x21], [0x80, 1], [0x82, 0x22], [0x82, 0x20], [0x82, 0x3f], [0, 0x21], [2, 0x21]):
            add(hdr + [5, 1, 97], [{'k': 'msg'}])
    return out

def check_write(c, proto):
    cases = write_cases(proto, c.prop, 6000 if THOROUGH else 700)
    for i, b in enumerate(design(c, 600)):
        cases.append({'id': '%s-g%d' % (c.prop, i), 'kind': 'w', 'proto': proto, 'sr': 0, 'sw': 1, 'fact': i % 2, 'ops': [fullop(o) for o in b['ops']] + [O('Flush')]})
    c.cases('CodecTrace', cases, label='scripted write histories')
def check_read(c, proto):
    r = rng(c.prop)
    cases = boundary_read_cases(proto, c.prop) + [read_case(r, proto, '%s-r%d' % (c.prop, i)) for i in range(6000 if THOROUGH else 700)]
    for i, b in enumerate(design(c, 600)):
        cases.append({'id': '%s-g%d' % (c.prop, i), 'kind': 'r', 'proto': proto, 'sr': 0, 'sw': 1, 'fact': i % 2, 'wire': b[proto] + TAIL, 'steps': [{'k': 'val', 't': b['t']}]})
    c.cases('CodecTrace', cases, label='streams read back')

def check_P01(c): check_write(c, 'bin')
def check_P02(c): check_read(c, 'bin')
def check_P03(c): check_write(c, 'com')
def check_P04(c): check_read(c, 'com')

# ------------------------------------------------- malformed streams (P08)
def mutate(r, wire):
    w = list(wire); n = len(w)
    c = r.randrange(8)
    if n == 0: return [r.randrange(256)] * r.randrange(3)
    if c <= 2: return w[:r.randrange(n)]
    i = r.randrange(n)
    if c == 3: w[i] = r.choice([0x80, 0xff, 0x8f, 0xf0])
    elif c == 4: w[i] ^= 1 << r.randrange(8)
    elif c == 5: w[i] = r.randrange(32)
    elif c == 6: w[i:i + 1] = [0xff] * r.choice([1, 2, 4, 5, 9, 10, 11, 12])
    else: del w[i]
    return w

def malformed_cases(protos, tag, n):
    r = rng(tag); out = []
    for proto in protos:
        base = boundary_read_cases(proto, tag + proto)
        # deterministic: all truncations of small streams, all header bytes of small values
        small = [b for b in base if len(b['wire']) <= 24]
        r0 = random.Random(11)
        for b in r0.sample(small[:-14], min(len(small) - 14, 60)) + small[-14:]:
            for k in range(len(b['wire'])):
                c = dict(b); c['wire'] = b['wire'][:k]; c['id'] = '%s-t%d' % (b['id'], k); out.append(c)
        for b in r0.sample(small, 25):
            for k in range(len(b['wire']) - 3):
                for x in (0x80, 0xff, 0x0d, 0x1f):
                    if x < 0x80 and b['wire'][k + 1] == 0 and b['wire'][k + 2:k + 3] == [0]: continue   # no huge lengths
                    c = dict(b); w = list(b['wire']); w[k] = x; c['wire'] = w; c['id'] = '%s-s%d-%d' % (b['id'], k, x); out.append(c)
        # crafted
        def add(wire, t, alt=0, more=()):
            out.append({'id': '%s-%s-c%d' % (tag, proto, len(out)), 'kind': 'r', 'proto': proto, 'sr': 0, 'sw': 1, 'wire': list(wire), 'steps': [{'k': 'val', 't': t}] if t else list(more), 'alt': alt})
        if proto == 'bin':
            for neg in (-1, -2, -128, -2147483648, -256):
                for alt in (0, 1, 2): add(be(neg, 4) + [1, 2, 3], STRING, alt)
                for t in (LIST, SET): add([BYTE] + be(neg, 4) + [1, 2, 3], t)
                add([BYTE, BYTE] + be(neg, 4) + [1, 2, 3], MAP)
                add(be(-2147418111, 4) + be(neg, 4) + [0] * 8, 0, more=[{'k': 'msg'}])
            for big in (4, 5, 1000, 100000):
                for alt in (0, 1, 2): add(be(big, 4) + [1, 2, 3], STRING, alt)
                for t in (LIST, SET): add([BYTE] + be(big, 4) + [1, 2, 3], t)
                add([BYTE, BYTE] + be(big, 4) + [1, 2, 3], MAP)
                add([0, 0, 0, big % 256] + [97] * 3, 0, more=[{'k': 'msg'}])
            for t in (5, 7, 9, 19, 20, 100, 200, 255): add([t, 0, 1, 9, 9, 9, 0], STRUCT); add([t, 0, 0, 0, 1, 9, 9], LIST); add([t, BYTE, 0, 0, 0, 1, 9, 9], MAP); add([BYTE, t, 0, 0, 0, 1, 9, 9], MAP)
        else:
            negv = varint((1 << 32) - 1)
            for v in (negv, varint(1 << 31), varint((1 << 32) - 128)):
                for alt in (0, 1, 2): add(v + [1, 2, 3], STRING, alt)
                for t in (LIST, SET): add([0xf3] + v + [1, 2, 3], t)
                add(v + [0x33, 1, 2, 3], MAP); add([0x82, 0x21, 5] + v + [97], 0, more=[{'k': 'msg'}])
            for big in (4, 5, 1000, 100000):
                for alt in (0, 1, 2): add(varint(big) + [1, 2, 3], STRING, alt)
                for t in (LIST, SET): add([0xf3] + varint(big) + [1, 2, 3], t)
                add(varint(big) + [0x33, 1, 2, 3], MAP); add([0x82, 0x21, 5] + varint(big) + [97], 0, more=[{'k': 'msg'}])
            for ct in (13, 14, 15):
                add([0x10 | ct, 1, 2, 0], STRUCT); add([ct, 2, 2, 0], STRUCT); add([0x20 | ct, 1, 2], LIST); add([0x20 | ct, 1, 2], SET)
                add([1, ct << 4 | 3, 1, 2], MAP); add([1, 0x30 | ct, 1, 2], MAP)
            for k in (11, 12, 15, 30):
                for t in (I16, I32, I64, STRING, MAP): add([0x80] * (k - 1) + [0, 0, 0, 0], t); add([0xff] * (k - 1) + [1, 0, 0, 0], t)
                add([0xf3] + [0x80] * (k - 1) + [0, 0, 0], LIST); add([0x03] + [0x80] * (k - 1) + [0, 0, 0], STRUCT)
                add([0x82, 0x21] + [0xff] * (k - 1) + [1, 0], 0, more=[{'k': 'msg'}])
        for i in range(n):
            b = read_case(r, proto, '%s-%s-m%d' % (tag, proto, i), maxdepth=3) if r.random() < 0.7 else dict(r.choice(base))
            b['id'] = '%s-%s-m%d' % (tag, proto, i)
            w = b['wire']
            for _ in range(r.choice([1, 1, 1, 2])): w = mutate(r, w)
            b['wire'] = w
            if r.random() < 0.3:   # let the skipping code meet the damage
                b['skips'] = sorted(r.sample(range(1, 12), 4))
            out.append(b)
    return out

def check_P08(c):
    import checks_json
    checks_json.malformed(c)
    c.cases('CodecTrace', driver_kw={'limit_ms': 8000}, cases=malformed_cases(('bin', 'com'), c.prop, 6000 if THOROUGH else 900), label='damaged streams')

# ------------------------------------------------------- skipping (P07)
def nval(v):
    t = v[0]
    if t == STRUCT: return 1 + sum(nval(x) for _, _, x in v[2])
    if t in (LIST, SET): return 1 + sum(nval(x) for x in v[2])
    if t == MAP: return 1 + sum(nval(a) + nval(b) for a, b in v[3])
    return 1

def shapes():
    """one value of every type and every container of every type, two levels deep"""
    sc = {BOOL: (BOOL, 1), BYTE: (BYTE, 200), I16: (I16, be(-2, 2)), I32: (I32, be(70000, 4)), I64: (I64, be(-1 << 40, 8)),
          DOUBLE: (DOUBLE, dbl(2.5)), STRING: (STRING, [104, 105])}
    l1 = list(sc.values()) + [(BOOL, 0), (STRING, [])]
    l2 = [(STRUCT, [], []), (STRUCT, [], [([97], 1, (BOOL, 0)), ([98], 2, (BOOL, 1)), ([99], 40, (I32, be(1, 4)))])]
    for v in sc.values():
        l2 += [(LIST, v[0], [v, v]), (SET, v[0], [v]), (LIST, v[0], []), (SET, v[0], []), (MAP, v[0], I16, [(v, sc[I16])] * 2), (MAP, STRING, v[0], [(sc[STRING], v)]), (MAP, v[0], v[0], []), (STRUCT, [], [([97], 5, v), ([98], 21, v)])]
    l3 = []
    for v in l2[:2] + l2[2:12] + l2[26:34]:
        l3 += [(LIST, v[0], [v, v]), (SET, v[0], [v]), (MAP, v[0], BYTE, [(v, sc[BYTE])]), (MAP, BYTE, v[0], [(sc[BYTE], v)]), (STRUCT, [], [([97], 2, v), ([98], 3, (BOOL, 1)), ([99], 4, v)])]
    return l1, l2, l3

def skip_cases(protos, tag, n):
    r = rng(tag); out = []
    l1, l2, l3 = shapes()
    mark = (STRUCT, [], [([97], 7, (I32, be(12345, 4))), ([98], 8, (BOOL, 1)), ([99], 9, (STRING, [111, 107]))])
    for proto in protos:
        def add(wire, steps, **k):
            out.append(dict({'id': '%s-%s-%d' % (tag, proto, len(out)), 'kind': 'r', 'proto': proto, 'sr': 0, 'sw': 1, 'wire': wire, 'steps': steps}, **k))
        rr = random.Random(3)
        for i, v in enumerate(l1 + l2 + l3):
            # at top level between values, and as an unknown field inside a struct
            add(enc(proto, v, rr) + enc(proto, mark, rr), [{'k': 'skip', 't': v[0]}, {'k': 'val', 't': STRUCT}])
            s = (STRUCT, [], [([97], 3, (BYTE, 1)), ([98], 4, v), ([99], 6, (BOOL, 0)), ([100], 7, (I64, be(5, 8)))])
            add(enc(proto, s, rr) + enc(proto, mark, rr), [{'k': 'val', 't': STRUCT}, {'k': 'val', 't': STRUCT}], skips=[3])
            w = enc(proto, v, rr)
            for d in (1, 2, 3, 4): add(w + enc(proto, mark, rr), [{'k': 'skip', 't': v[0]}, {'k': 'val', 't': STRUCT}], depth=d)
            if i % 3 == 0:
                for k in range(len(w)): add(w[:k], [{'k': 'skip', 't': v[0]}])
        for k in (100, 128, 255, 256, 257, 300, 1000, 33000, 70000):   # large ones
            vs = [(LIST, BYTE, [(BYTE, i % 100) for i in range(k)]), (SET, BOOL, [(BOOL, 1)] * k), (MAP, BYTE, BOOL, [((BYTE, 3), (BOOL, 1))] * k), (STRING, [7] * k)]
            if k <= 300: vs += [(SET, STRING, [(STRING, [65])] * k), (LIST, I32, [(I32, be(i, 4)) for i in range(k)]), (MAP, I16, STRING, [((I16, [0, 3]), (STRING, []))] * k), (STRUCT, [], [([], i + 1, (BYTE, 1)) for i in range(k)]), (SET, STRUCT, [mark] * k)]
            for v in vs: add(enc(proto, v, rr) + enc(proto, mark, rr), [{'k': 'skip', 't': v[0]}, {'k': 'val', 't': STRUCT}])
        for d in range(1, 8):  # chains of each container kind, limit just below, at and above the nesting
            for kind in range(5):
                v = (BYTE, 9)
                for _ in range(d - 1):
                    v = [(LIST, v[0], [v]), (SET, v[0], [v]), (MAP, BYTE, v[0], [((BYTE, 1), v)]), (MAP, v[0], BYTE, [(v, (BYTE, 1))]), (STRUCT, [], [([97], 1, v)])][kind]
                for lim in (d - 1, d, d + 1):
                    if lim >= 1: add(enc(proto, v, rr) + enc(proto, mark, rr), [{'k': 'skip', 't': v[0]}, {'k': 'val', 't': STRUCT}], depth=lim)
        for i in range(n):
            c = read_case(r, proto, '%s-%s-r%d' % (tag, proto, i))
            c['skips'] = sorted(r.sample(range(1, 20), r.choice([1, 2, 4])))
            if r.random() < 0.3:
                for s in c['steps']:
                    if s['k'] == 'val' and r.random() < 0.5: s['k'] = 'skip'
            if r.random() < 0.3: c['depth'] = r.randrange(1, 6)
            if r.random() < 0.15 and c['wire']: c['wire'] = c['wire'][:r.randrange(len(c['wire']))]
            out.append(c)
    return out

def check_P07(c):
    import checks_json
    checks_json.skipping(c)
    cases = skip_cases(('bin', 'com'), c.prop, 4000 if THOROUGH else 500)
    for i, b in enumerate(design(c, 300)):
        for proto in ('bin', 'com'):
            cases.append({'id': '%s-g%d-%s' % (c.prop, i, proto), 'kind': 'r', 'proto': proto, 'sr': 0, 'sw': 1, 'wire': b[proto] + b[proto], 'steps': [{'k': 'skip', 't': b['t']}, {'k': 'val', 't': b['t']}]})
    c.cases('CodecTrace', cases, driver_kw={'limit_ms': 8000}, label='streams with skipped values')

# --------------------------------------------------------- slicing (P09)
def sliced(r, c, i):
    c = dict(c)
    c['id'] = '%s-k%d' % (c['id'], i)
    m = i % 5
    c['chunk'] = [[1], [2], [3, 1, 4], [r.randrange(1, 9) for _ in range(50)], [max(1, len(c['wire']) - 1), 1]][m]
    c['eof'] = r.randrange(2)
    c['wrap'] = r.choice(['', '', '', 'iorw', 'iorandw'])
    return c
def check_P09(c):
    import checks_json
    checks_json.slicing(c)
    slicing(c)
def slicing(c):
    r = rng(c.prop); cases = []
    n = 1500 if THOROUGH else 200
    for proto in ('bin', 'com'):
        base = boundary_read_cases(proto, c.prop + proto)
        base = [b for b in base if len(b['wire']) < 400]
        for i, b in enumerate(base):
            if i % 2 == 0: cases.append(sliced(r, b, i))
        for i in range(n):
            b = read_case(r, proto, '%s-%s-r%d' % (c.prop, proto, i))
            if r.random() < 0.2 and b['wire']: b['wire'] = b['wire'][:r.randrange(len(b['wire']))]
            if r.random() < 0.2: b['skips'] = [2, 5, 7]
            for k in r.sample(range(5), 2): cases.append(sliced(r, b, k))
    for i, b in enumerate(design(c, 100)):
        for proto in ('bin', 'com'):
            cases.append(sliced(r, {'id': '%s-g%d-%s' % (c.prop, i, proto), 'kind': 'r', 'proto': proto, 'sr': 0, 'sw': 1, 'wire': b[proto] + b[proto], 'steps': [{'k': 'val', 't': b['t']}] * 2}, i))
    c.cases('CodecTrace', cases, label='streams delivered in slices')
