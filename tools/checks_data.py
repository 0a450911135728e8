"""Containers (P21-P23), comparisons (P24), descriptions (P25)."""
import random, struct
from vlib import *
from gen import *
from checks_codec import rng
UTF8, UTF16, VOID = 16, 17, 1
def A(t, b=(), a=(), v=(), g=''):
    d = {'t': t, 'b': list(b), 'a': list(a), 'v': list(v)}
    if g: d['g'] = g
    return d
NIL = A(-1)
WIDTH = {I16: 2, I32: 4, I64: 8}
# ---- values of a type
class Vals:
    """values from small pools, so that equal ones meet"""
    def __init__(self, r, plain=False):
        self.r = r; self.plain = plain   # plain: only the Go types that name the Thrift type
        self.structs = [self._struct() for _ in range(4)]
    def _struct(self):
        r = self.r; ids = r.sample([-3, -1, 0, 1, 2, 3, 7, 100], r.choice([0, 1, 2, 2, 3])); names = r.sample(['a', 'b', 'c', 'dd', 'ö', 'A'], len(ids))
        return (r.choice(['', 's', 'S', 'point']), [(i, nm, r.choice([BOOL, I32, I64, DOUBLE, STRING, BINARY])) for i, nm in zip(ids, names)])
    def type(self, depth=2, keys=False):
        r = self.r; ts = [BOOL, BYTE, I16, I32, I64, DOUBLE, STRING, BINARY]
        if depth > 0 and r.random() < 0.45: return r.choice([(LIST, self.type(depth - 1)), (SET, self.type(depth - 1)), (MAP, self.type(depth - 1), self.type(depth - 1)), (STRUCT,)])
        return (r.choice(ts),)
    def value(self, t, small=True, g=True):
        r = self.r; k = t[0]
        if k == BOOL: return A(k, [r.randrange(2)])
        if k == BYTE: return A(k, [r.choice([0, 1, 2, 127, 128, 255])], g=r.choice(['', '', 'i']) if g and not self.plain else '')
        if k in WIDTH:
            n = WIDTH[k]; m = 8 * n
            x = r.choice([0, 1, -1, 2, 127, 128, -128, -129, 255, 256, 32767, -32768, (1 << m - 1) - 1, -(1 << m - 1), 1 << m - 2, 3 << m - 4, (1 << m - 1) - 2, -(1 << m - 2)]) if small or r.random() < 0.5 else r.randrange(-(1 << m - 1), 1 << m - 1)
            if small: x = r.choice([x, r.choice([0, 1, 2, 3, -1, -2])])
            G = ['', '']
            if g and not self.plain:
                G.append('i')
                if k != I16 and -(1 << 15) <= x < 1 << 15: G.append('i16')
                if k == I64 and -(1 << 31) <= x < 1 << 31: G.append('i32')
                if k != I64: G.append('i64')
            return A(k, be(x, n), g=r.choice(G))
        if k == DOUBLE:
            x = r.choice([0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.0, 1e10, -1e10, 1e100, 1e-100, -1e-100, 5e-324, -5e-324, 1.7976931348623157e308, float('inf'), float('-inf'), 1.0000000000000002, 3.0])
            G = ['', '']
            if g and not self.plain and abs(x) <= 2: G.append('f32' if x != 1.0000000000000002 and abs(x) > 1e-3 else '')
            if g and not self.plain and x in (0.0, 1.0, -1.0, 2.0, 3.0): G += ['i', 'i64']
            return A(k, dbl(x), g=r.choice(G))
        if k in (STRING, UTF8, UTF16):
            b = r.choice(['', 'a', 'b', 'ab', 'aa', 'A', 'abc', 'é', '漢', '0', '1', 'true', 'false', '\x00', '\x7f', ' ']) if small or r.random() < 0.3 else text(r)
            return A(k, list(b.encode()), g=r.choice(['', '', 'b']) if g and not self.plain else '')
        if k == BINARY:
            b = r.choice([[], [0], [0, 0], [97], [97, 98], [255], [128], [127], [255, 0], [0, 255]]) if small or r.random() < 0.3 else raw(r)
            return A(k, b, g=r.choice(['', '', 's']) if g and not self.plain else '')
        n = r.choice([0, 1, 1, 2, 2, 3])
        if k == LIST: return A(k, a=[t[1][0]], v=[self.value(t[1], g=False) for _ in range(n)])
        if k == SET: return A(k, a=[t[1][0]], v=self.distinct(t[1], n))
        if k == MAP: return A(k, a=[t[1][0], t[2][0]], v=[x for kk in self.distinct(t[1], n) for x in (kk, self.value(t[2], g=False))])
        if k == STRUCT:
            nm, fs = r.choice(self.structs); at = r.random() < 0.6
            if r.random() < 0.3: nm = 'point'
            f = [A(ft, list(n2.encode()), [i], [self.value((ft,), g=False) if at and r.random() < 0.85 else NIL]) for i, n2, ft in fs]
            if r.random() < 0.3: r.shuffle(f)
            return A(k, list(nm.encode()), v=f)
    def distinct(self, t, n):
        out = []; seen = set()
        for _ in range(3 * n):
            v = self.value(t, g=False); c = canon(v)
            if c not in seen and len(out) < n: seen.add(c); out.append(v)
        return out
def canon(v):
    """for choosing inputs only"""
    k = v['t']; parts = [canon(x) for x in v['v']]
    if k == SET: parts = sorted(parts, key=repr)
    if k == MAP: parts = sorted(zip(parts[0::2], parts[1::2]), key=repr)
    if k == STRUCT: parts = sorted(((x['t'], tuple(x['b']), tuple(x['a']), canon(x['v'][0])) for x in v['v']), key=repr)
    return (k, tuple(v['b']), tuple(v['a']), tuple(parts))
def shape(r, t):
    """a concrete nested type for a container's element type code"""
    return t
def misfit(r, t):
    """a value a container of this type has no place for"""
    k = t[0]; L = [A(LIST, a=[I32], v=[A(I32, be(1, 4))]), A(SET, a=[I32]), A(MAP, a=[I32, I32])]
    if k in (LIST, SET, MAP, STRUCT): return r.choice([A(I32, be(1, 4)), A(STRING, b'x'), A(BOOL, [1])] + [x for x in L if x['t'] != k])
    return r.choice(L)
def case(cid, sub, ops, **k):
    return dict({'id': cid, 'kind': 'data', 'sub': sub, 'et': 0, 'kt': 0, 'ctor': 0, 'size': 0, 'name': [], 'fields': [], 'st': 0, 'ops': ops}, **k)
def opener(r, vs, t):
    """(ctor, et): made with its type, or taking that of its first value"""
    return (r.choice([1, 0]), 0) if r.random() < 0.25 and vs.plain else (0, t[0])
STRINGY = {STRING: [STRING, STRING, UTF8, UTF16]}

def list_case(cid, r, n):
    vs = Vals(r, plain=r.random() < 0.4); t = vs.type(); ctor, et = opener(r, vs, t)
    if et == STRING: et = r.choice(STRINGY[STRING]); t = (et,)
    ops = []; ln = 0; pool = [vs.value(t) for _ in range(r.choice([3, 5, 8]))]
    val = lambda: r.choice(pool) if r.random() < 0.8 else vs.value(t)
    idx = lambda: r.choice([0, ln - 1, ln, r.randrange(ln + 1), r.randrange(ln + 1), ln + r.randrange(3), -1 if r.random() < 0.3 else 0])
    if et == 0:
        if r.random() < 0.3: ops.append(O('Obs'))
        ops.append(O(r.choice(['Push', 'Push', 'Insert', 'Set']), v=val(), i=0)); ln = 1
    for _ in range(n):
        k = r.random()
        if k < 0.34: ops.append(O('Push', v=val())); ln += 1
        elif k < 0.46:
            i = idx(); ops.append(O('Insert', i=i, v=val())); ln += 0 <= i <= ln
        elif k < 0.56:
            i = idx(); ops.append(O('Set', i=i, v=val())); ln += i >= ln
        elif k < 0.66:
            i = idx(); ops.append(O('Delete', i=i)); ln -= 0 <= i < ln
        elif k < 0.72: ops.append(O('Pop')); ln -= ln > 0
        elif k < 0.80: ops.append(O('Swap', i=idx(), j=idx()))
        elif k < 0.85: ops.append(O('At', i=idx()))
        elif k < 0.91: ops.append(O('Has', v=val()))
        elif k < 0.95: ops.append(O('Less', i=idx(), j=idx()))
        elif k < 0.97: ops.append(O(r.choice(['Push', 'Insert', 'Has']), i=0, v=misfit(r, t)))
        if r.random() < 0.3: ops.append(O('Obs'))
    ops.append(O('Obs')); ops += follow_list(r, ops, et or t[0], vs, t)
    return case(cid, 'list', ops, et=et, ctor=ctor, size=r.choice([0, 1, 5, 100]))
def follow_list(r, ops, et, vs, t):
    """compare with the list itself and with near ones"""
    l = []
    for o in ops:
        v = o.get('v'); ok = v is not None and v['t'] == t[0]; i = o.get('i', 0); n = len(l)
        if o['o'] == 'Push' and ok: l.append(v)
        elif o['o'] == 'Insert' and ok and 0 <= i <= n: l.insert(i, v)
        elif o['o'] == 'Set' and ok and i >= 0:
            if i < n: l[i] = v
            else: l.append(v)
        elif o['o'] == 'Delete' and 0 <= i < n: del l[i]
        elif o['o'] == 'Pop' and n: l.pop()
        elif o['o'] == 'Swap' and 0 <= i < n and 0 <= o['j'] < n: l[i], l[o['j']] = l[o['j']], l[i]
    out = []; strip = lambda x: dict(x, g='')
    l = [strip(x) for x in l]
    for _ in range(3):
        m = list(l); k = r.randrange(6)
        if k == 1 and m: m[r.randrange(len(m))] = vs.value(t, g=False)
        elif k == 2 and m: m[-1] = vs.value(t, g=False)
        elif k == 3: m = m + [vs.value(t, g=False)]
        elif k == 4: m = m[:-1]
        elif k == 5: r.shuffle(m)
        out.append(O('Eq', v=A(LIST, a=[et], v=m)))
    if r.random() < 0.2: out.append(O('Eq', v=A(LIST, a=[BOOL if et != BOOL else I32])))
    return out + [O('Obs')]

def set_case(cid, r, n):
    vs = Vals(r, plain=r.random() < 0.4); t = vs.type(); ctor, et = opener(r, vs, t)
    if et == STRING: et = r.choice(STRINGY[STRING]); t = (et,)
    pool = [vs.value(t) for _ in range(r.choice([3, 6, 10]))]; ops = []; have = {}
    val = lambda: dict(r.choice(pool)) if r.random() < 0.85 else vs.value(t)
    if et == 0: ops.append(O('Add', v=val()))
    for _ in range(n):
        k = r.random(); rev = r.randrange(2)
        if k < 0.5: ops.append(O('Add', v=val(), rev=rev))
        elif k < 0.72: ops.append(O('Remove', v=val(), rev=rev))
        elif k < 0.9: ops.append(O('Has', v=val(), rev=rev))
        elif k < 0.93: ops.append(O(r.choice(['Add', 'Remove', 'Has']), v=misfit(r, t)))
        if r.random() < 0.35: ops.append(O('Obs'))
    for o in ops:
        if 'v' not in o or o['v']['t'] != t[0]: continue
        c = canon(o['v'])
        if o['o'] == 'Add': have[c] = dict(o['v'], g='')
        elif o['o'] == 'Remove': have.pop(c, None)
    ops.append(O('Obs')); m0 = list(have.values())
    for _ in range(3):
        m = list(m0); r.shuffle(m); k = r.randrange(5)
        if k == 1 and m: m.pop()
        elif k == 2:
            x = vs.value(t, g=False)
            if canon(x) not in have: m.insert(r.randrange(len(m) + 1), x)
        elif k == 3 and m:
            x = vs.value(t, g=False)
            if canon(x) not in have: m[r.randrange(len(m))] = x
        ops.append(O('Eq', v=A(SET, a=[et or t[0]], v=m), rev=r.randrange(2)))
    ops.append(O('Obs'))
    return case(cid, 'set', ops, et=et, ctor=ctor, size=r.choice([0, 1, 5, 100]))

def map_case(cid, r, n):
    vs = Vals(r, plain=r.random() < 0.4); kt, vt = vs.type(), vs.type(); ctor, ke, ve = 0, kt[0], vt[0]
    if vs.plain and r.random() < 0.3: ctor, ke, ve = r.choice([(1, 0, 0), (0, 0, 0), (0, ke, 0), (0, 0, ve)])
    if ke == STRING: ke = r.choice(STRINGY[STRING]); kt = (ke,)
    if ve == STRING: ve = r.choice(STRINGY[STRING]); vt = (ve,)
    pool = [vs.value(kt) for _ in range(r.choice([3, 6, 10]))]; ops = []; have = {}
    key = lambda: dict(r.choice(pool)) if r.random() < 0.85 else vs.value(kt)
    if r.random() < 0.2 and ke: ops.append(O('Obs')); ops.append(O('Get', k=key())); ops.append(O('Has', k=key()))
    if not (ke and ve): ops.append(O('Put', k=key(), v=vs.value(vt)))
    for _ in range(n):
        x = r.random(); rev = r.randrange(2)
        if x < 0.5: ops.append(O('Put', k=key(), v=vs.value(vt), rev=rev))
        elif x < 0.72: ops.append(O('Get', k=key(), rev=rev))
        elif x < 0.88: ops.append(O('Has', k=key(), rev=rev))
        elif x < 0.92: ops.append(r.choice([O('Put', k=misfit(r, kt), v=vs.value(vt)), O('Put', k=key(), v=misfit(r, vt)), O('Get', k=misfit(r, kt)), O('Has', k=misfit(r, kt))]))
        if r.random() < 0.3: ops.append(O('Obs'))
    for o in ops:
        if o['o'] == 'Put' and o['k']['t'] == kt[0] and o['v']['t'] == vt[0]: have[canon(o['k'])] = (dict(o['k'], g=''), dict(o['v'], g=''))
    ops.append(O('Obs')); m0 = list(have.values())
    for _ in range(3):
        m = list(m0); r.shuffle(m); x = r.randrange(6)
        if x == 1 and m: m.pop()
        elif x == 2 and m: i = r.randrange(len(m)); m[i] = (m[i][0], vs.value(vt, g=False))
        elif x == 3 and len(m) > 1: (a, b), (c2, d) = m[0], m[1]; m[0], m[1] = (a, d), (c2, b)
        elif x == 4 and m:
            kk = vs.value(kt, g=False)
            if canon(kk) not in have: m[0] = (kk, m[0][1])
        ops.append(O('Eq', v=A(MAP, a=[ke or kt[0], ve or vt[0]], v=[y for p in m for y in p]), rev=r.randrange(2)))
    ops.append(O('Obs'))
    return case(cid, 'map', ops, kt=ke, et=ve, ctor=ctor, size=r.choice([0, 1, 5, 100]))

def mc(c, name, n, make):
    r1 = tlc('ContainersMC', cfg='ContainersMC_' + name, env={'EMIT': '1'}, mem='6g'); c.add_tlc(r1); sc = scripts(r1)
    c.count('behaviours of ContainersMC_' + name, len(sc))
    if THOROUGH: c.add_tlc(tlc('ContainersMC', cfg='ContainersMC_%s_big' % name, env={'EMIT': '0'}, mem='16g', timeout=850))
    r = rng(c.prop + 'mc')
    return [make('%s-g%d' % (c.prop, i), r, b['ops']) for i, b in enumerate(r.sample(sc, min(len(sc), n)))]
def three(r):
    """three distinct values of a type, in no special order"""
    while True:
        vs = Vals(r, plain=True); t = vs.type(1); l = vs.distinct(t, 3)
        if len(l) == 3: return vs, t, l
def data_check(c, sub, one):
    def script(cid, r, ops):
        vs, t, l = three(r); vt = vs.type(1); w = [vs.value(vt) for _ in range(3)]; out = []
        for o in ops:
            n = {'o': o['o']}
            for k in ('i', 'j'):
                if k in o: n[k] = o[k]
            if sub == 'map':
                if 'x' in o: n['k'] = l[o['x'] - 1]
                if 'y' in o: n['v'] = w[o['y'] - 1]
            elif 'x' in o: n['v'] = l[o['x'] - 1]
            out += [n, O('Obs')]
        for x in l: out.append(O('Get', k=x) if sub == 'map' else O('Has', v=x))
        return case(cid, sub, out, et=vt[0] if sub == 'map' else t[0], kt=t[0] if sub == 'map' else 0, size=r.choice([0, 2]))
    cases = mc(c, sub, 20000 if THOROUGH else 1500, script)
    r = rng(c.prop); n = 30000 if THOROUGH else 2500
    for i in range(n): cases.append(one('%s-r%d' % (c.prop, i), r, r.choice([3, 6, 12, 12, 25] + [60] * (i % 10 == 0))))
    c.cases('DataTrace', cases, driver_kw={'limit_ms': 8000, 'par': 4}, batch=4000, label=sub)
def check_P21(c): data_check(c, 'list', list_case)
def check_P22(c): data_check(c, 'set', set_case)
def check_P23(c): data_check(c, 'map', map_case)

def check_P24(c):
    r = rng(c.prop); cases = []
    r1 = tlc('ValuesMC', mem='6g'); c.add_tlc(r1)
    def add(ops): cases.append(case('%s-%d' % (c.prop, len(cases)), 'cmp', ops))
    def mat(t, vals): return {'o': 'Matrix', 't': t, 'vs': vals}
    # scalars: every pair of edge values, and random ones
    for rep in range(40 if THOROUGH else 6):
        for t in (BOOL, BYTE, I16, I32, I64, DOUBLE, STRING, UTF8, UTF16, BINARY):
            vs = Vals(r, plain=rep % 2 == 0)
            l = [vs.value((t,), small=rep % 3 == 0) for _ in range(14)]
            if t == DOUBLE: l += [A(t, dbl(0.0)), A(t, dbl(-0.0)), A(t, dbl(struct.unpack('>d', bytes(r.randrange(256) for _ in range(8)))[0] or 1.0))]; l = [x for x in l if not nan(x)]
            if t in WIDTH and rep % 2:
                n = WIDTH[t]; x = r.randrange(1 << 8 * n)
                l += [A(t, be(x, n)), A(t, be(x ^ (1 << r.randrange(8 * n)), n)), A(t, be(x + 1, n)), A(t, be(-x, n))]
            if t in (STRING, BINARY, UTF8, UTF16):
                b = raw(r) or [1]; l += [A(t, b), A(t, b + [0]), A(t, b[:-1]), A(t, b[:-1] + [(b[-1] + 1) % 256]), A(t, b[:-1] + [b[-1] ^ 128])]
            if rep % 4 == 1: l.append(NIL)
            add([mat(t, l)])
    for i in range(3000 if THOROUGH else 260):
        vs = Vals(r, plain=i % 2 == 0); t = vs.type(2 if i % 3 else 3)
        if t[0] in SCALARS: t = r.choice([(LIST, t), (SET, t), (MAP, t, vs.type(1)), (STRUCT,), (LIST, (LIST, t)), (MAP, vs.type(1), t)])
        l = [vs.value(t) for _ in range(r.choice([4, 8, 12]))]
        if r.random() < 0.5: l += [near(r, vs, t, x) for x in l[:6]]
        if r.random() < 0.2: l.append(r.choice(l))
        if r.random() < 0.2 and t[0] in (LIST, SET): l.append(A(t[0], a=[r.choice([BOOL, I64, STRING])]))
        if r.random() < 0.1: l.append(NIL)
        add([mat(t[0], l)])
    H = []
    for i in range(4000 if THOROUGH else 700):
        vs = Vals(r, plain=True); f, t = r.choice([('Int', I64), ('Int16', I16), ('Int32', I32), ('Int64', I64), ('Byte', BYTE), ('Bool', BOOL), ('Double', DOUBLE), ('Float', DOUBLE), ('String', STRING), ('StringArray', LIST), ('Array', LIST)])
        if f == 'Float': x, y = [A(DOUBLE, dbl(r.choice([0.0, 1.0, -1.0, 0.5, -0.25, 2.0, 1e10 // 1 * 0 + 1024.0, float('inf'), float('-inf')]))) for _ in range(2)]
        elif t == LIST:
            e = (STRING,) if f == 'StringArray' else vs.type(1); x = vs.value((LIST, e)); y = vs.value((LIST, e)) if r.random() < 0.5 else near(r, vs, (LIST, e), x)
        else:
            x = vs.value((t,), small=r.random() < 0.5); y = vs.value((t,), small=r.random() < 0.5) if r.random() < 0.8 else x
            if t in WIDTH and r.random() < 0.3: y = A(t, be(sgn(x['b']) + r.choice([1, -1, 1 << 31, 1 << 32, -(1 << 32)]), WIDTH[t]))
        if not all_natural(x) or not all_natural(y): continue
        H.append({'o': 'Help', 'f': f, 'x': x, 'y': y})
    for i in range(0, len(H), 20): add(H[i:i + 20])
    c.cases('DataTrace', cases, driver_kw={'limit_ms': 8000, 'par': 4}, batch=4000, label='comparisons')
def nan(x): return (x['b'][0] & 127) == 127 and x['b'][1] >= 240 and (x['b'][1] > 240 or any(x['b'][2:]))
def all_natural(x): return x['t'] not in (SET, MAP, STRUCT) and (x['t'] != LIST or (x['a'][0] not in (SET, MAP, STRUCT) and all(map(all_natural, x['v']))))
def near(r, vs, t, x):
    """a value that differs a little"""
    k = t[0]; x = json.loads(json.dumps(x))
    if k in (LIST, SET) and x['v']:
        i = r.randrange(len(x['v'])); q = r.random()
        if k == LIST: x['v'][i] = near(r, vs, t[1], x['v'][i]) if q < 0.7 else vs.value(t[1], g=False)
        elif q < 0.5: x['v'].reverse()
        elif q < 0.8:
            y = vs.value(t[1], g=False)
            if canon(y) not in [canon(z) for z in x['v']]: x['v'][i] = y
        else: del x['v'][i]
        return x
    if k == MAP and x['v']:
        i = 2 * r.randrange(len(x['v']) // 2); q = r.random()
        if q < 0.5: x['v'][i + 1] = vs.value(t[2], g=False)
        elif q < 0.8: x['v'] = [z for j in range(len(x['v']) - 2, -1, -2) for z in x['v'][j:j + 2]]
        else: del x['v'][i:i + 2]
        return x
    if k == STRUCT and x['v']:
        f = x['v'][r.randrange(len(x['v']))]; q = r.random()
        if q < 0.5: f['v'] = [vs.value((f['t'],), g=False)]
        elif q < 0.6: f['b'] = f['b'] + [120]
        elif q < 0.7: f['t'] = STRING if f['t'] == BINARY else BINARY; f['v'] = [NIL]
        elif q < 0.8: x['b'] = x['b'] + [120]
        elif q < 0.9: x['v'].reverse()
        else: x['v'].pop()
        return x
    return vs.value(t, g=False)

def check_P25(c):
    r = rng(c.prop); cases = []
    NAMES = ['a', 'b', 'ab', 'A', 'é', 'field', 'Field', 'a b', "a'b", '1', 'x' * 50, 'id', 'name']
    IDS = [0, 1, 2, 3, -1, -2, 15, 16, 255, 256, 32767, -32768, 100, 1000]
    TYPES = [BOOL, BYTE, I16, I32, I64, DOUBLE, STRING, STRUCT, MAP, SET, LIST, BINARY, UTF8, UTF16, STOP, VOID, 127]
    def field(i=None, n=None): return {'id': r.choice(IDS) if i is None else i, 't': r.choice(TYPES), 'name': list((r.choice(NAMES) if n is None else n).encode())}
    def fields(n, few=False):
        ids = r.sample(IDS[:5] if few else IDS, n); nm = r.sample(NAMES[:5] if few else NAMES, n)
        fs = [field(i, x) for i, x in zip(ids, nm)]
        if few:
            for f in fs: f['t'] = r.choice([I32, STRING])
        if fs and r.random() < 0.15: r.choice(fs)['name'] = []
        return fs
    for k in range(6000 if THOROUGH else 900):
        fs = fields(r.choice([0, 1, 2, 3, 5, 8, 13])); st = r.choice([0, 0, 1, 2]); ops = [O('Obs')]
        for i in set(IDS + [4, -3, 65536, 65537, 70000]): ops.append(O('ById', i=i))
        for n in NAMES + ['zz', 'aB', 'fiel']: ops.append(O('ByName', v=list(n.encode())))
        for f in fs: ops.append(O('HasF', f=f)); ops.append(O('HasF', f=dict(f, name=[122]))); ops.append(O('HasF', f=dict(f, t=(f['t'] + 1) % 19))); ops.append(O('HasF', f=dict(f, id=f['id'] + 1)))
        ops.append(O('HasF', f=field())); r.shuffle(ops)
        ops = r.sample(ops, min(len(ops), 25)) + [O('Obs'), O('Obs')]
        cases.append(case('%s-d%d' % (c.prop, k), 'desc', ops, fields=fs, st=st, name=list(r.choice(['', 'Work', 'é', 'a.b']).encode()) if st else []))
    for k in range(600 if THOROUGH else 90):
        ops = []
        for _ in range(6):
            f = field(); f['id'] = r.choice([f['id'], r.randrange(-40000, 70000)]); ops.append(O('Field', f=f))
            m = lambda: {'id': r.choice([0, 1, -1, 2**31 - 1, -2**31 + 1, r.randrange(-2**31 + 1, 2**31)]), 't': r.choice([1, 2, 3, 4]), 'name': list(r.choice(['', 'echo', 'Echo', 'é']).encode())}
            a = m(); b = r.choice([m(), a, dict(a, id=r.choice([0, 1, 5])), dict(a, t=r.choice([1, 2])), dict(a, name=[120])])
            ops.append(O('Msg', m=a, m2=b))
        ops.append(O('FldMat', fs=[field(r.choice([0, 1, 2, -1]), r.choice(NAMES[:4])) for _ in range(4)] + [dict(field(), t=r.choice([I32, STRING]), id=1) for _ in range(4)]))
        ds = [fields(r.choice([0, 1, 2, 2, 3]), few=True) for _ in range(7)]
        for d in ds[:3]:
            d2 = [dict(f) for f in d]
            if d2:
                f = r.choice(d2); q = r.randrange(3)
                if q == 0: f['name'] = f['name'] + [120]
                elif q == 1: f['t'] = BOOL
                else: f['id'] += 50
            r.shuffle(d2); ds.append(d2)
        ops.append(O('DescMat', ds=ds, i=k % 2))
        cases.append(case('%s-m%d' % (c.prop, k), 'desc', ops))
    c.cases('DataTrace', cases, driver_kw={'limit_ms': 8000, 'par': 4}, batch=4000, label='descriptions')
