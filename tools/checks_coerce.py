"""Coercions of values to Thrift types (P28)."""
import random, struct
from vlib import *
from gen import *
from checks_codec import rng
TYPES = [BOOL, BYTE, DOUBLE, I16, I32, I64, STRING, 16, 17, BINARY, LIST, SET, MAP, STRUCT]
NUMT = [BOOL, BYTE, DOUBLE, I16, I32, I64]
def be9(x): return list((x % (1 << 72)).to_bytes(9, 'big'))
def db(x): return list(struct.pack('>d', x))
def S(g, b=(), d=(), x=(), kb=1, kd=0, kx=0): return {'g': g, 'b': list(b), 'd': list(d), 'x': list(x), 'kb': kb, 'kd': kd, 'kx': kx}
RANGE = {'int': (-(1 << 63), 1 << 63), 'int8': (-128, 128), 'int16': (-32768, 32768), 'int32': (-(1 << 31), 1 << 31), 'int64': (-(1 << 63), 1 << 63),
         'byte': (0, 256), 'uint': (0, 1 << 64), 'uint16': (0, 65536), 'uint32': (0, 1 << 32), 'uint64': (0, 1 << 64)}
EDGE = [0, 1, -1, 2, 9, 10, 48, 65, 97, 100, 127, 128, -128, -129, 255, 256, 300, 32767, 32768, -32768, -32769, 65535, 65536, (1 << 31) - 1, 1 << 31, -(1 << 31), -(1 << 31) - 1, (1 << 32) - 1, 1 << 32,
        (1 << 53) - 1, 1 << 53, (1 << 53) + 1, (1 << 53) + 2, (1 << 53) + 3, -(1 << 53) - 1, (1 << 54) + 2, (1 << 54) + 6, (1 << 62) + 255, (1 << 62) + 257, (1 << 63) - 1, (1 << 63) - 511, (1 << 63) - 513, -(1 << 63), 1 << 63, (1 << 64) - 1, (1 << 63) + 1025, 123456789, -987654321012]
def num(r):
    if r.random() < 0.5: return r.choice(EDGE)
    b = r.randrange(1, 65); x = r.randrange(1 << b)
    return -x if r.random() < 0.4 else x
def fits(x, go): lo, hi = RANGE[go]; return lo <= x < hi
FLT = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 0.9999999999999999, 1.5, 2.5, -2.75, 127.9, 128.0, 255.5, 256.0, -129.0, 32767.9, 65536.5, 2147483647.5, 2147483648.0, -2147483649.5, 4294967296.0, 9007199254740993.0, 1e15, 123456789.125, 1e18, 9.223372036854774e18, -9.223372036854774e18,
       9.223372036854775807e18, 1e19, 1e300, -1e300, 5e-324, 1e-7, 1e21, 0.1, 1 / 3, float('inf'), float('-inf'), float('nan'), 1.7976931348623157e308, 100000.0, 1e6, 1e20, 123456.789e3]
def flt(r):
    x = r.random()
    if x < 0.5: return r.choice(FLT)
    if x < 0.8: return r.uniform(-1, 1) * 10 ** r.randrange(-3, 19)
    return struct.unpack('>d', r.randbytes(8))[0]
def text_src(s, g='txt'):
    try:
        s.encode('ascii'); bad = not s or s != s.strip() or '_' in s
        d = None if bad else float(s)
    except ValueError: d = None
    body = s[1:] if s[:1] in ('+', '-') else s
    if d is not None and (abs(d) == float('inf')) and body[:1].isdigit(): return S(g, s.encode())   # out of range
    if d is not None: return S(g, s.encode(), d=db(d), kd=1)
    if body[:1].lower() in ('0', 'i', 'n', '.') : return S(g, s.encode())
    return S(g, s.encode(), kd=2)
TEXTS = ['', '0', '-0', '+0', '1', '-1', '+5', '007', '00', '65', '300', '-129', '99999', '2147483648', '-2147483649', '9223372036854775807', '-9223372036854775808', '9223372036854775808', '-9223372036854775809', '18446744073709551616', '1' * 30, '0' * 30 + '7',
         'x', 'true', 'false', 'False', 'TRUE', ' 1', '1 ', '1x', '--1', '+-1', '-', '+', '1.5', '-2.25', '.5', '5.', '1e3', '1E-2', '1,000', '12:30', 'one', 'é', '漢', '10 000', '3.14159265358979', '100000000000000000000', '1e', 'e1', '0.1', '٣', '1\x00', '\n', 'NaN', 'Inf', '-Infinity', 'Infinity']
def text(r):
    x = r.random()
    if x < 0.45: return r.choice(TEXTS)
    if x < 0.65: return str(num(r))
    if x < 0.8: v = flt(r); return repr(v)
    if x < 0.9: s = str(num(r)); i = r.randrange(len(s) + 1); return s[:i] + r.choice(['x', ' ', '-', '+', '5', '/', ':']) + s[i:]
    return ''.join(r.choice('0123456789+-.ex ') for _ in range(r.randrange(1, 8)))
def source(r):
    k = r.choice(['int'] * 6 + ['flt'] * 3 + ['txt'] * 5 + ['num'] * 4 + ['bool', 'bin', 'bin', 'enum', 'enum', 'nil', 'list', 'set', 'map', 'struct', 'other'])
    if k == 'int':
        x = num(r); gs = [g for g in RANGE if fits(x, g)]
        while not gs: x = num(r); gs = [g for g in RANGE if fits(x, g)]
        return S('int', be9(x)), r.choice(gs)
    if k == 'flt':
        x = flt(r)
        if r.random() < 0.4:
            try: return S('flt', db(struct.unpack('>f', struct.pack('>f', x))[0]), kx=32), 'f32'
            except OverflowError: pass
        return S('flt', db(x)), 'f64'
    if k == 'txt': return text_src(text(r)), r.choice(['string', 'string', 'stringer'])
    if k == 'bin':
        if r.random() < 0.5: return text_src(text(r), 'bin'), ''
        return S('bin', r.randbytes(r.choice([0, 1, 1, 2, 5])), kd=0), ''
    if k == 'bool': return S('bool', [r.randrange(2)]), ''
    if k == 'enum':
        x = num(r)
        while not fits(x, 'int64'): x = num(r)
        return S('enum', be9(x), x=r.choice(['ONE', 'Color_RED', '', '<UNSET>', 'false', '0', '7']).encode()), ''
    if k == 'num':
        g = r.choice(['double', 'double', 'i64', 'i32', 'string', 'string', 'json', 'jsonnull', 'null'])
        if g == 'double':
            x = flt(r); ok = x == x and abs(x) < 9.2e18
            return S('num', be9(int(x)) if ok else [], d=db(x), kb=int(ok), kd=1), g
        if g in ('i64', 'i32'):
            x = num(r)
            while not fits(x, 'int64' if g == 'i64' else 'int32'): x = num(r)
            return S('num', be9(x), d=db(float(x)), x=str(x).encode(), kd=1, kx=1), g
        if g in ('jsonnull', 'null'): return S('num', be9(0), d=db(0.0), kd=1, kx=2), g
        s = text(r) if r.random() < 0.6 else str(num(r)) if r.random() < 0.6 else repr(flt(r))
        t = text_src(s); isint = t['kd'] == 1 and (s[1:] if s[:1] in '+-' else s).isdigit() and -(1 << 63) <= int(s) < 1 << 63
        if s in ('Infinity', '-Infinity', 'NaN'): return S('num', [], d=db(float(s)), x=s.encode(), kb=0, kd=1, kx=1), g
        return S('num', be9(int(s)) if isint else [], d=t['d'], x=s.encode(), kb=int(isint), kd=int(t['kd'] == 1), kx=1), g
    if k == 'other': return S('other'), r.choice(['chan', 'complex', 'ptr', 'struct'])
    return S(k), ''
def case(cid, src, go, ops): return {'id': cid, 'kind': 'coerce', 'src': src, 'go': go, 'ops': ops}
def O_(o, t=0): return {'o': o, 't': t}
def check_P28(c):
    r = rng(c.prop); cases = []
    r1 = tlc('CoerceMC', env={'EMIT': '1'}, mem='8g'); c.add_tlc(r1); sc = scripts(r1)
    c.count('behaviours of CoerceMC', len(sc))
    if THOROUGH:
        r2 = tlc('CoerceMC', cfg='CoerceMC_big', env={'EMIT': '0'}, mem='12g'); c.add_tlc(r2)
    GO = {'int': None, 'flt': ['f64'], 'txt': ['string', 'stringer'], 'num': ['i64', 'i32'], 'other': ['chan', 'struct', 'ptr']}
    for i, b in enumerate(r.sample(sc, min(len(sc), len(sc) if THOROUGH else 2500))):
        s = b['src']; g = s['g']; gos = GO.get(g, [''])
        if g == 'int':
            x = int.from_bytes(bytes(s['b']), 'big'); x -= (1 << 72) if s['b'][0] >= 128 else 0
            gos = [k for k in RANGE if fits(x, k)]
        cases.append(case('%s-g%d' % (c.prop, i), s, r.choice(gos), [O_('To', t) for t in b['ops']]))
    n = 0
    for x in EDGE:                                  # every Go form of every edge number, as every type
        for go in RANGE:
            if not fits(x, go): continue
            for t in NUMT + [STRING, BINARY] if not THOROUGH else TYPES:
                n += 1; cases.append(case('%s-e%d' % (c.prop, n), S('int', be9(x)), go, [O_('TypeOf'), O_('To', t), O_('To', r.choice([STRING, BINARY, I64, DOUBLE])), O_('To', t)]))
    for s in TEXTS:
        for t in NUMT + [r.choice([STRING, 16, 17, BINARY])]:
            n += 1; cases.append(case('%s-x%d' % (c.prop, n), text_src(s), r.choice(['string', 'stringer']), [O_('To', t), O_('To', STRING), O_('To', t)]))
    for x in FLT:
        for t in NUMT + [STRING, BINARY]:
            n += 1; cases.append(case('%s-f%d' % (c.prop, n), S('flt', db(x)), 'f64', [O_('To', t), O_('To', STRING), O_('To', DOUBLE)]))
    for i in range(60000 if THOROUGH else 4000):
        s, go = source(r)
        ops = [O_(r.choice(['TypeOf', 'View']))] if s['g'] != 'num' else [O_('View')]
        ops += [O_('To', r.choice(TYPES[:10] if s['g'] not in ('list', 'set', 'map', 'struct', 'nil') or r.random() < 0.3 else TYPES)) for _ in range(r.randrange(1, 6))]
        if r.random() < 0.1: ops.insert(1, O_('To', r.choice([0, 1])))
        cases.append(case('%s-r%d' % (c.prop, i), s, go, ops))
    c.cases('CoerceTrace', cases, label='chains of coercions', driver_kw={'limit_ms': 8000}, batch=4000)
