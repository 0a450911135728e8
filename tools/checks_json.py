"""JSON and simple JSON protocol checks (P05, P06) and the JSON parts of
skipping, malformed input and slicing."""
import itertools, random
from vlib import *
from gen import *
from jsontok import tokens
import checks_codec as K
rng = K.rng
NUMERIC = (BYTE, I16, I32, I64, DOUBLE)

def prep(c, m):
    """JSON streams reach the specification as tokens"""
    if m.get('proto') in ('json', 'sjson'):
        m['toks'] = tokens(m['wire']); m['wire'] = []
    return m

def design(c, n):
    pick = []; r = rng(c.prop + 'jdesign')
    for cfg in ('JsonMC', 'JsonMC_vals', 'JsonMC_ids') + (('JsonMC_big',) if THOROUGH else ()):
        x = tlc('JsonMC', cfg=cfg, env={'EMIT': '1'}, mem='8g')
        c.add_tlc(x); s = scripts(x)
        if not s: raise CheckError('no behaviours from ' + cfg)
        c.count('behaviours of ' + cfg, len(s)); pick += r.sample(s, min(len(s), n * (4 if THOROUGH else 1)))
    return pick

# ---------------------------------------------------------------- values
def z(t):
    return {BOOL: 1, BYTE: 200, I16: be(-300, 2), I32: be(70000, 4), I64: be(-(1 << 53) - 1, 8), DOUBLE: dbl(0.1), STRING: list('"é\\'.encode()), BINARY: [0, 255, 62]}[t]
def strings():
    out = [''] + [chr(i) for i in range(0, 0x100)] + ['\u07ff', '\u0800', '\u2028', '\u2029', '\ud7ff', '\ue000', '\ufffd', '\ufffe', '\uffff', '\U00010000', '\U0010ffff', '😀😀']
    for k in range(1, 7): out += ['\\' * k, '"' * k, '\\' * k + '"', ('\\"') * k, 'a' + '\\' * k]
    out += ['\\u0041', '\\n', '</script>', '&amp;', '"quoted"', '{"a":1}', '[1,2]', 'null', 'true', '1', 'NaN', 'Infinity', '-Infinity', '\x00\x01', '漢字', ' lead', 'trail ', ',', ':', '"]}"', 'a' * 300, '\\' * 300, '"' * 300, 'é' * 2100]
    for k in range(1, 6): out += [''.join(x) for x in itertools.product('\\"a', repeat=k)]
    return [list(s.encode('utf-8')) for s in out]
def ints(n):
    v = {0, 1, -1, 9, 10, -10, 99, 100}
    for k in range(8 * n - 1): v |= {1 << k, -(1 << k), (1 << k) - 1, -(1 << k) - 1}
    for k in range(1, 19): v |= {10 ** k, 10 ** k - 1, -10 ** k}
    return [be(x, n) for x in sorted(v) if -(1 << (8 * n - 1)) <= x < (1 << (8 * n - 1))]
def doubles():
    out = list(DOUBLES) + [x for k in range(-25, 26) for x in (10.0 ** k, 1.1 * 10.0 ** k, -(10.0 ** k))] + [2.0 ** k for k in (52, 53, 54, 62, 63, 64, -1074, -1022, 1023)]
    return [dbl(x) for x in out]
def binaries():
    return [[(i * 37 + n) % 256 for i in range(n)] for n in list(range(0, 20)) + [48, 49, 50, 255, 256, 767, 768, 769, 1023, 1024, 1025, 3000]] + [[255] * 3, [251, 255, 191], [0], [0, 0]]

def boundary_values():
    out = []
    def add(v): out.append(v)
    for b in (0, 1): add((BOOL, b))
    for t, vs in ((BYTE, range(256)), (I16, ints(2)), (I32, ints(4)), (I64, ints(8)), (DOUBLE, doubles()), (STRING, strings()), (BINARY, binaries())):
        vs = list(vs)
        for i in range(0, len(vs), 40): add((LIST, t, [(t, v) for v in vs[i:i + 40]]))
        for v in vs[:6]: add((t, v))
    for v in strings()[:60:7]: add((STRING, v))
    for t in SCALARS:
        for k in (LIST, SET):
            for n in (0, 1, 2, 15): add((k, t, [(t, z(t))] * n))
        for n in (0, 1, 2): add((MAP, t, t, [((t, z(t)), (t, z(t)))] * n))
        add((MAP, STRING, t, [((STRING, [97]), (t, z(t)))])); add((MAP, t, LIST, [((t, z(t)), (LIST, t, [(t, z(t))] * 2))] * 2))
        add((STRUCT, [115], [([97], 1, (t, z(t))), ([98], 2, (t, z(t)))]))
    for i in (0, 1, -1, 255, -255, 32767, -32768): add((STRUCT, [], [([97], i, (BOOL, 0)), ([98], -i if i > -32768 else 5, (I32, be(i, 4)))]))
    add((STRUCT, [], []))
    for nm in strings()[1:300:9]: add((STRUCT, nm, [(nm, 1, (STRING, nm)), (nm[::1], 2, (BOOL, 1))]))
    _, l2, l3 = K.shapes()
    out.extend(l2); out.extend(l3)
    def nest(d):
        if d == 0: return (STRUCT, [120], [([97], 3, (BOOL, 1)), ([98], 4, (BYTE, 9))])
        return (STRUCT, [120], [([97], 2 + d, (BOOL, 0)), ([98], 7 + d, nest(d - 1)), ([99], 8, (LIST, STRUCT, [nest(d - 1)] * 2)), ([100], 9, (MAP, STRING, STRUCT, [((STRING, [107]), nest(d - 1))])), ([101], 30, (STRING, [100]))])
    for d in (1, 2, 3): add(nest(d))
    v = (I64, be(5, 8))
    for d in range(30): v = (LIST, v[0], [v]) if d % 3 else (MAP, STRING, v[0], [((STRING, [100 + d % 9]), v)])
    add(v)
    return out

def boundary_ops():
    """top-level histories: a number ends only where something else begins, so
    numbers stand alone"""
    out = [ops_value(v) for v in boundary_values()]
    for mt in (1, 2, 3, 4):
        for seq in (0, 1, -1, 2147483647, -2147483648, 300):
            for nm in ([], [97], list(b'testService'), list('"\\é'.encode())):
                out.append(ops_msg(nm, mt, seq, (STRUCT, [97], [([97], 1, (I32, be(seq, 4)))])))
    m = ops_msg([109], 1, 7, (STRUCT, [97], [([97], 1, (I32, be(9, 4))), ([98], 2, (MAP, STRING, STRING, []))]))
    s = ops_value((STRUCT, [97], [([97], 1, (DOUBLE, dbl(1.5)))]))
    l = ops_value((LIST, I32, [(I32, be(9, 4))])); q = ops_value((STRING, [34, 92])); b = ops_value((BINARY, [1, 2])); t = ops_value((BOOL, 1))
    F = [O('Flush')]
    # announced sizes; the elements do not matter here
    for k in range(0, 31):
        for n in {(1 << k) - 1, 1 << k, (1 << k) + (1 << k >> 1)}: out += [[O('MapB', kt=BOOL, t=BOOL, n=n)], [O('LstB', t=BOOL, n=n)], [O('SetB', t=BOOL, n=n)]]
    out += [m * 3, (m + F) * 3, s + m + s, l + l + F + l, q + q + b + b + q, t + t + ops_value((BOOL, 0)), s + l + q + b + t + m + F + ops_value((MAP, STRING, I32, [])), F + m + F + F + s]
    return out

def random_ops(r):
    g = Gen(r, utf8=True, maxdepth=r.choice([2, 3, 4, 5, 8])); ops = []
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        g.budget = r.choice([5, 20, 60])
        if r.random() < 0.4: ops += ops_msg(g.name(), r.choice([1, 2, 3, 4]), sgn(be(edge_int(r, 4), 4)), g.value(STRUCT))
        else: ops += ops_value(g.value(r.choice([STRING, BINARY, BOOL] + CONTAINERS * 3)))
        if r.random() < 0.4: ops.append(O('Flush'))
    return ops

# ---------------------------------------------------------------- reading
def known_shape(ops): return [{'k': 'ops', 'ops': rops(ops)}]
def stream(r, proto, n=None, utf8=True):
    """(wire, steps) of a few messages and values"""
    g = Gen(r, utf8=True, maxdepth=r.choice([2, 3, 4, 5, 8])); wire = []; steps = []
    n = n or r.choice([1, 1, 2, 3, 5])
    for k in range(n):
        g.budget = r.choice([5, 20, 60]); shape = proto == 'sjson' or r.random() < 0.5
        if r.random() < 0.4:
            nm, mt, seq, body = g.name(), r.choice([1, 2, 3, 4]), sgn(be(edge_int(r, 4), 4)), g.value(STRUCT)
            wire += ws(r) + enc_whole_msg(proto, nm, mt, seq, body, r, 1)
            steps += known_shape(ops_msg(nm, mt, seq, body)) if shape else [{'k': 'msg'}, {'k': 'val', 't': STRUCT}, {'k': 'msge'}]
        else:
            v = g.value(r.choice([STRING, BINARY, BOOL] + CONTAINERS * 3) if k < n - 1 else r.choice(SCALARS + CONTAINERS))
            wire += ws(r) + enc(proto, v, r)
            steps += known_shape(ops_value(v)) if shape else [{'k': 'val', 't': STRING if v[0] == BINARY else v[0]}]
    return wire, steps
def number_last(steps):
    s = steps[-1]
    if s['k'] == 'val': return s['t'] in NUMERIC
    return s['k'] == 'ops' and s['ops'][-1]['o'] in ('RByte', 'RI16', 'RI32', 'RI64', 'RDbl')
def rcase(cid, proto, wire, steps, **k):
    return dict({'id': cid, 'kind': 'r', 'proto': proto, 'sr': 0, 'sw': 1, 'wire': wire, 'steps': steps}, **k)

def boundary_reads(proto, tag, every=1):
    r = random.Random(77); out = []
    for i, v in enumerate(boundary_values()):
        if i % every: continue
        st = known_shape(ops_value(v)) if proto == 'sjson' or i % 2 else [{'k': 'val', 't': STRING if v[0] == BINARY else v[0]}]
        out.append(rcase('%s-b%d' % (tag, i), proto, enc(proto, v, r), st, fact=i % 2))
    return out

# ---------------------------------------------------------------- checks
def roundtrip(c, proto):
    r = rng(c.prop)
    hist = boundary_ops() + [random_ops(r) for _ in range(4000 if THOROUGH else 500)]
    hist += [[K.fullop(o) for o in b['ops']] for b in design(c, 500)]
    cases = []
    for i, ops in enumerate(hist):
        if ops[-1]['o'] != 'Flush': ops = ops + [O('Flush')]
        cases.append({'id': '%s-w%d' % (c.prop, i), 'kind': 'w', 'proto': proto, 'sr': 0, 'sw': 1, 'fact': i % 2, 'ops': ops})
    # what was written is kept for reading back
    wires = {}
    def keep(cs, m):
        if m['kind'] == 'w': wires[cs['id']] = list(m['wire'])
        return prep(cs, m)
    c.cases('CodecTrace', cases, prepare=keep, label='scripted write histories')
    back = []
    for i, cs in enumerate(cases):
        w = wires.get(cs['id'])
        if w is None: continue
        st = known_shape(cs['ops'])
        if not st[0]['ops']: continue
        back.append(rcase('%s-x%d' % (c.prop, i), proto, w, st, fact=i % 2))
    back += boundary_reads(proto, c.prop)
    for i in range(3000 if THOROUGH else 400):
        w, st = stream(r, proto); back.append(rcase('%s-r%d' % (c.prop, i), proto, w, st, fact=i % 2))
    c.cases('CodecTrace', back, prepare=prep, label='read back what was written, and what others may write')

def check_P05(c): roundtrip(c, 'json')
def check_P06(c): roundtrip(c, 'sjson')

# ------------------------------------------------------- skipping (P07)
def skip_cases(tag, n):
    r = rng(tag + 'json'); out = []; rr = random.Random(5)
    mark = (STRUCT, [], [([97], 7, (I32, be(12345, 4))), ([98], 8, (BOOL, 1)), ([99], 9, (STRING, [111, 107]))])
    l1, l2, l3 = K.shapes()
    extra = [(LIST, BINARY, [(BINARY, [1, 2, 3])] * 2), (MAP, BINARY, BINARY, [((BINARY, [1]), (BINARY, []))]), (SET, BINARY, []),
             (STRUCT, [], [([97], 1, (BINARY, [9, 9]))]), (LIST, STRING, [(STRING, s) for s in strings()[30:130]]), (LIST, DOUBLE, [(DOUBLE, d) for d in doubles()[:60]])]
    def add(wire, steps, **k): out.append(rcase('%s-json-%d' % (tag, len(out)), 'json', wire, steps, **k))
    e = lambda v: enc('json', v, rr)
    for i, v in enumerate(l1 + l2 + l3 + extra):
        sep = [32] if v[0] in NUMERIC else []
        add(e(v) + sep + e(mark), [{'k': 'skip', 't': v[0]}, {'k': 'val', 't': STRUCT}])
        s = (STRUCT, [], [([97], 3, (BYTE, 1)), ([98], 4, v), ([99], 6, (BOOL, 0)), ([100], 7, (I64, be(5, 8)))])
        add(e(s) + e(mark), [{'k': 'val', 't': STRUCT}, {'k': 'val', 't': STRUCT}], skips=[3])
        w = e(v)
        for d in (1, 2, 3, 4): add(w + sep + e(mark), [{'k': 'skip', 't': v[0]}, {'k': 'val', 't': STRUCT}], depth=d)
        if i % 4 == 0:
            for k in range(len(w)): add(w[:k], [{'k': 'skip', 't': v[0]}])
    for k in (100, 256, 300, 3000):
        for v in ((LIST, BYTE, [(BYTE, i % 100) for i in range(k)]), (SET, BOOL, [(BOOL, 1)] * k), (STRING, [55] * k), (BINARY, [7] * k)):
            add(e(v) + e(mark), [{'k': 'skip', 't': v[0]}, {'k': 'val', 't': STRUCT}])
    for d in range(1, 7):
        for kind in range(5):
            v = (BYTE, 9)
            for _ in range(d - 1):
                v = [(LIST, v[0], [v]), (SET, v[0], [v]), (MAP, BYTE, v[0], [((BYTE, 1), v)]), (MAP, v[0], BYTE, [(v, (BYTE, 1))]), (STRUCT, [], [([97], 1, v)])][kind]
            for lim in (d - 1, d, d + 1):
                if lim >= 1: add(e(v) + [32] + e(mark), [{'k': 'skip', 't': v[0]}, {'k': 'val', 't': STRUCT}], depth=lim)
    for i in range(n):
        w, st = stream(r, 'json'); c = rcase('%s-json-r%d' % (tag, i), 'json', w, st)
        c['skips'] = sorted(r.sample(range(1, 20), r.choice([1, 2, 4])))
        if r.random() < 0.3:
            for s in c['steps']:
                if s['k'] == 'val' and r.random() < 0.5: s['k'] = 'skip'
        if r.random() < 0.3: c['depth'] = r.randrange(1, 6)
        if r.random() < 0.15 and w: c['wire'] = w[:r.randrange(len(w))]
        out.append(c)
    return out
def skipping(c): c.cases('CodecTrace', skip_cases(c.prop, 2500 if THOROUGH else 250), prepare=prep, driver_kw={'limit_ms': 8000}, label='JSON streams with skipped values')

# ------------------------------------------------- malformed streams (P08)
PIECES = [b'{', b'}', b'[', b']', b',', b':', b'"', b'\\', b' ', b'0', b'-', b'1.5', b'1e400', b'99999999999999999999', b'null', b'true', b'tru', b'NaN', b'x', b'\x00', b'""', b'"\\x"', b'01', b'-5', b'3.', b'"rec"', b'"zzz"', b'\xff']
def mutate(r, wire):
    w = list(wire); n = len(w)
    if n == 0: return list(r.choice(PIECES))
    i = r.randrange(n); c = r.randrange(7)
    if c <= 1: return w[:i]
    if c == 2: del w[i]
    elif c == 3: w[i:i + 1] = list(r.choice(PIECES))
    elif c == 4: w[i:i] = list(r.choice(PIECES))
    elif c == 5:
        t = tokens(w)
        if len(t) > 2:
            x = r.choice(t[:-1]); w[x['s']:x['e']] = list(r.choice(PIECES)) if r.random() < 0.6 else []
    else:
        t = tokens(w)
        if len(t) > 3:
            a, b = r.sample(t[:-1], 2); w[a['s']:a['e']] = list(wire[b['s']:b['e']])
    return w
def crafted():
    """(text, top-level type) that is no encoding of such a value"""
    out = []
    for s in ('', ' ', 'x', 'tru', 'truth', 'fals', 'True', 'nul', 'nulx', '"true"', '1', '0', '{}', '[]', 't', 'f', 'n'): out.append((s, BOOL))
    for t in (BYTE, I16, I32, I64):
        for s in ('', ' ', '-', '+', '1.5', '1e2', '0.0', '1-2', '--1', '1e', '.', 'e', 'x', '1x', '"', '"1', '""', '"x"', '"1"2', 'true', '{}', '[]', 'NaN', '"NaN"', '"Infinity"', '-Infinity', '99999999999999999999', '-9223372036854775809', '9223372036854775808', '1e400', '01', '-01', '1.', '.5', '+5', '12"', '0x10', '1,', '1_000', '\x00'): out.append((s, t))
    for s, t in (('256', BYTE), ('-129', BYTE), ('300', BYTE), ('32768', I16), ('-32769', I16), ('65536', I16), ('2147483648', I32), ('-2147483649', I32), ('4294967297', I32)): out.append((s, t))
    for s in ('', 'x', '-', '1.5.5', '1e5e5', '1e5.5', 'NaX', '"NaX"', 'Infinit', '"Infinit"', '"-Infinit"', '-Inf', '"1.5', '1e999', '"nan"', 'true', '{}', '[1]', '1-', '--1', '0x1p3', '01.5', '1.', 'Na', '"Na'): out.append((s, DOUBLE))
    for s in ('', 'x', '1', 'true', '"', '"abc', '"\\', '"\\"', '"\\x"', '"\\u12"', '"\\u12G4"', '"a\nb"', '"\x00"', '"\x1f"', "'a'", '{}', '[]', 'nul', '"\\u', '"\\u00'): out.append((s, STRING))
    for s in ('"a"', '"ab"', '"abc"', '"abcde"', '"===="', '"a==="', '"ab=c"', '"!!!!"', '"abc', 'x', '1', '"YWJ"', '"YWI=YWI="', '"YW-_"', '"YWJj "', '" YWJj"', '"é"'): out.append((s, BINARY))
    for s in ('', '{', '{"1"', '{"1":', '{"1":{', '{"1":{"i32"', '{"1":{"i32":', '{"1":{"i32":5', '{"1":{"i32":5}', '{"1":{"i32":5},', '{"1":{"i32":5},}', '{"1":{"i32":5}}}'[:-2], '{,}', '{"1":{"i32":5,}}', '{"1"{"i32":5}}', '{"1":{"i32"5}}', '{"1":{"i32":}}', '{"1":{"zzz":5}}', '{"1":{"":5}}', '{"1":{"16":5}}', '{"1":{5:5}}', '{"1":5}', '{"1":null}', '{"x":{"i32":5}}', '{"1.5":{"i32":5}}', '{"40000":{"i32":5}}', '{"":{"i32":5}}', '{"1":{"i32":5} "2":{"i32":5}}', '{"1":{"i32":5}]', '{"1":{"i32":5]}', '{"1":{"i32":5}},', '[', '}', '1', '"x"', '{"1":{"i32":"x"}}', '{"1":{"str":5}}', '{"1":{"tf":1}}', '{"1":{"lst":{}}}', '{"1":{"rec":[]}}', '{"1":{"i32":5}; "2":{"i32":6}}', '{"1":{"i32":5} null'): out.append((s, STRUCT))
    for t in (LIST, SET):
        for s in ('', '[', '[]', '[8', '[8]', '[8,', '[8,1', '[8,1]', '[8,1,', '[8,1,5', '[8,1,]', '[8,1 5]', '[8,1,5,6]', '[8,1,5}', '[8,2,5]', '[8,2,5,]', '[8,-1]', '[8,-1,5]', '[8,1.5,5]', '[8,4294967297,5]', '[8,"x",5]', '[8,9999999999999999999,5]', '[300,1,5]', '[-200,1,5]', '[8,,1,5]', '[,8,1,5]', '{8,1,5}', '[8:1:5]', '[8,0', '[8,0,', '[8,0,]', '[8,0,1]', '[99,1,5]', '[8,1,5 null', '[15,1,[8,1,5]', '[12,1,{]]', '[11,1,"a]', '[8,100000,1]'): out.append((s, t))
    for s in ('', '[', '[]', '["i32"]', '["i32","i32"]', '["i32","i32",', '["i32","i32",1]', '["i32","i32",1,5]', '["i32","i32",1,5,6', '["i32","i32",1,5,6,7]', '["i32","i32",-1]', '["i32","zzz",1,5,6]', '["zzz","i32",1,5,6]', '["","i32",1,5,6]', '[8,8,1,5,6]', '["i32" "i32",1,5,6]', '["i32","i32",1,5:6]', '["i32","i32",1,{"5":6}]', '["i32","i32",2,5,6]', '["i32","i32",1.5,5,6]', '["16","i32",1,5,6]', '["i32","i32",0', '["i32","i32",0,]'): out.append((s, MAP))
    return [(list(s.encode('utf-8')), t) for s, t in out]
def crafted_msgs(proto):
    h = '1,' if proto == 'json' else ''
    out = ['', '[', '[]', '{}', 'null', 'x', '[' + h[:-1], '[' + h, '[' + h + '"a"', '[' + h + '"a",1', '[' + h + '"a",1,', '[' + h + '"a",1,5'[:-1], '[' + h + '"a" 1,5', '[' + h + '"a",1,x', '[' + h + '"a",1.5,7]', '[' + h + '"a",300,7]', '[' + h + '"a",1,4294967296]', '[' + h + 'a,1,7]', '[' + h + '5,1,7]', '[' + h + '"a","x",7]', '[' + h + '"a",1,7.5]']
    if proto == 'json': out += ['[2,"a",1,7]', '[0,"a",1,7]', '[-1,"a",1,7]', '["a",1,7]', '[1.0,"a",1,7]', '[1 "a",1,7]', '[10,"a",1,7]']
    return [list(s.encode()) for s in out]
ROF = {BOOL: 'RBool', BYTE: 'RByte', I16: 'RI16', I32: 'RI32', I64: 'RI64', DOUBLE: 'RDbl', STRING: 'RStr', BINARY: 'RBin'}
def malformed_cases(tag, n):
    r = rng(tag + 'json'); out = []
    def add(proto, wire, steps, **k): out.append(rcase('%s-%s-%d' % (tag, proto, len(out)), proto, wire, steps, **k))
    for w, t in crafted():
        if t in ROF:
            for proto in ('json', 'sjson'): add(proto, w, [{'k': 'ops', 'ops': [O(ROF[t])]}])
            # the same inside a list, where something else follows
            add('json', list(b'[8,1,') + w + list(b']'), [{'k': 'ops', 'ops': [O('RLstB'), O(ROF[t]), O('RLstE')]}])
        else:
            add('json', w, [{'k': 'val', 't': t}]); add('json', w, [{'k': 'skip', 't': t}])
            if t in (LIST, SET): add('sjson', w, [{'k': 'val', 't': t}])
    for w in crafted_msgs('json'): add('json', w, [{'k': 'msg'}, {'k': 'msge'}])
    for w in crafted_msgs('sjson'): add('sjson', w, [{'k': 'msg'}, {'k': 'msge'}])
    sj = ['', '{', '{"a"', '{"a":', '{"a":5', '{"a":5,', '{"a":5,}', '{,}', '{"a" 5}', '{a:5}', '{5:5}', '{"a":5]', '{"a":5 "b":5}', '{"a":5,"b"}', '[', '5', '{"a":"5}', '{"a\\":5}', '{"a":,"b":5}', '{"a":5,,"b":5}', '{"a":x}', '{"a":5}'[:-1] + ' null']
    for s in sj:
        for rd in ('RI32', 'RStr'): add('sjson', list(s.encode()), [{'k': 'ops', 'ops': [O('RStrB'), O('RFldB'), O(rd), O('RFldE'), O('RFldB'), O(rd), O('RFldE'), O('RFldB'), O('RStrE')]}])
        add('sjson', list(s.encode()), [{'k': 'ops', 'ops': [O('RStrB'), O('RFldB'), O('RI32'), O('RFldE'), O('RFldB'), O('RStrE')]}])
    # every truncation
    for proto in ('json', 'sjson'):
        base = [b for b in boundary_reads(proto, tag + proto) if len(b['wire']) <= 60]
        for b in random.Random(9).sample(base, min(len(base), 45)):
            for k in range(len(b['wire'])): add(proto, b['wire'][:k], b['steps'])
        for i in range(n):
            w, st = stream(r, proto)
            for _ in range(r.choice([1, 1, 1, 2])): w = mutate(r, w)
            add(proto, w, st, **({'skips': sorted(r.sample(range(1, 12), 4))} if proto == 'json' and r.random() < 0.3 else {}))
    return out
def malformed(c): c.cases('CodecTrace', malformed_cases(c.prop, 4000 if THOROUGH else 500), prepare=prep, driver_kw={'limit_ms': 8000}, label='damaged JSON streams')

# --------------------------------------------------------- slicing (P09)
def slicing(c):
    r = rng(c.prop + 'json'); cases = []
    for proto in ('json', 'sjson'):
        for i, b in enumerate(boundary_reads(proto, c.prop + proto, 3)):
            if len(b['wire']) < 1500: cases.append(K.sliced(r, b, i))
        for i in range(900 if THOROUGH else 120):
            w, st = stream(r, proto); b = rcase('%s-%s-r%d' % (c.prop, proto, i), proto, w, st)
            if r.random() < 0.2 and w: b['wire'] = w[:r.randrange(len(w))]
            elif r.random() < 0.2 and proto == 'json': b['skips'] = [2, 5, 7]
            for k in r.sample(range(5), 2): cases.append(K.sliced(r, b, k))
    # nothing more arrives: what has been sent in full must be readable
    stall = []
    for proto in ('json', 'sjson'):
        for i, b in enumerate(boundary_reads(proto, c.prop + proto + 's', 4)):
            if not number_last(b['steps']): stall.append(dict(b, stall=1, chunk=[[], [1], [3]][i % 3]))
        for i in range(400 if THOROUGH else 60):
            w, st = stream(r, proto)
            if not number_last(st): stall.append(rcase('%s-%s-s%d' % (c.prop, proto, i), proto, w, st, stall=1, chunk=r.choice([[], [1], [2], [7]])))
    c.cases('CodecTrace', cases, prepare=prep, driver_kw={'limit_ms': 8000}, label='JSON streams delivered in slices')
    c.cases('CodecTrace', stall, prepare=prep, driver_kw={'limit_ms': 3000}, label='JSON streams that go silent')
