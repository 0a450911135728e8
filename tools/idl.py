"""Programs for the Go generator: types, fields, defaults; their notation for
gen/thrift/main.cc, their schema for GenStruct.tla, values of them."""
import struct as _s
INTS = {'BYTE': (0, 255), 'I16': (-32768, 32767), 'I32': (-(1 << 31), (1 << 31) - 1), 'I64': (-(1 << 63), (1 << 63) - 1)}
IDL = {'BOOL': 'bool', 'BYTE': 'byte', 'I16': 'i16', 'I32': 'i32', 'I64': 'i64', 'DOUBLE': 'double', 'STRING': 'string', 'BINARY': 'binary'}
SCALARS = list(IDL) + ['ENUM']
NIL = {'t': 'NIL', 'v': '', 'a': [], 'i': 0}
def V(t, v='', a=()): return {'t': t, 'v': v, 'a': list(a), 'i': 0}
def T(k, *a, n='', td=None): return {'k': k, 'n': n, 'a': list(a), 'td': td}
def hx(b): return b.hex()
def dbl(x): return V('DOUBLE', _s.pack('>d', x).hex())
def undbl(v): return _s.unpack('>d', bytes.fromhex(v['v']))[0]
def text(s): return V('STRING', s.encode('utf8').hex())
def held(t): return 'I32' if t['k'] == 'ENUM' else t['k']
def wname(t): return {'ENUM': 'I32', 'BINARY': 'STRING'}.get(t['k'], t['k'])
def same(x, y): return x['t'] == y['t'] and x['v'] == y['v'] and len(x['a']) == len(y['a']) and all(same(p, q) for p, q in zip(x['a'], y['a']))
def F(i, n, t, r='def', d=None): return {'i': i, 'n': n, 't': t, 'r': r, 'd': d or NIL}
class Program:
    versions = {}
    def __init__(self, name):
        self.name = name; self.enums = {}; self.typedefs = []; self.structs = {}; self.excs = set(); self.order = []; self.consts = []; self.services = []; self.hidden = set()
    def enum(self, n, vals): self.enums[n] = vals; self.order.append(('enum', n))
    def typedef(self, n, t): self.order.append(('typedef', n, t)); return dict(t, td=n)
    def struct(self, n, fields, exc=False):
        self.structs[n] = fields; self.order.append(('struct', n))
        if exc: self.excs.add(n)
    def service(self, n, fns, base='-'):
        """fns: (oneway, type or None, name, arguments, exceptions)"""
        fs = []
        for one, ret, m, args, exc in fns:
            self.structs[m + '_args'] = args; self.structs[m + '_result'] = ([F(0, 'success', ret)] if ret else []) + exc; self.hidden |= {m + '_args', m + '_result'}
            fs.append({'oneway': one, 'ret': ret, 'n': m, 'args': args, 'exc': exc})
        self.services.append((n, fs, base))
    # ---- notation ----
    def t(self, t):
        if t.get('td'): return t['td']
        if t['k'] in IDL: return IDL[t['k']]
        if t['k'] in ('ENUM', 'STRUCT'): return t['n']
        return t['k'].lower() + ' ' + ' '.join(self.t(x) for x in t['a'])
    def numbers(self, e):
        r = {}; last = -1
        for n, v in self.enums[e]:
            last = last + 1 if v is None else v; r[n] = last
        return r
    def const(self, t, v, intform=False):
        k = t['k']
        if k == 'BOOL' or k in INTS: return 'int ' + v['v']
        if k == 'DOUBLE':
            x = undbl(v)
            return 'int %d' % int(x) if x == int(x) and abs(x) < 1e6 and v.get('int') else 'dbl %r' % x
        if k in ('STRING', 'BINARY'): return 'str =' + v['v']
        if k == 'ENUM':
            for n, x in self.numbers(t['n']).items():
                if str(x) == v['v']: return 'id %s %s' % (n, t['n'])
            return 'int ' + v['v']
        if k in ('LIST', 'SET'): return 'list %d %s' % (len(v['a']), ' '.join(self.const(t['a'][0], x) for x in v['a']))
        if k == 'MAP': return 'map %d %s' % (len(v['a']) // 2, ' '.join(self.const(t['a'][i % 2], x) for i, x in enumerate(v['a'])))
        fs = [(f, x) for f, x in zip(self.structs[t['n']], v['a']) if not same(x, self.initial(f))]
        return 'map %d %s' % (len(fs), ' '.join('str =%s %s' % (hx(f['n'].encode()), self.const(f['t'], x)) for f, x in fs))
    def fields(self, fs):
        o = ['%d' % len(fs)]
        for f in fs: o.append('%d %s %s %s %s' % (f['i'], f['r'], self.t(f['t']), f['n'], '-' if f['d'] is NIL or f['d']['t'] == 'NIL' else '+ ' + self.const(f['t'], f['d'])))
        return '\n'.join(o)
    def text(self):
        o = ['program ' + self.name]
        for x in self.order:
            if x[0] == 'enum': o.append('enum %s %d %s' % (x[1], len(self.enums[x[1]]), ' '.join('%s %s' % (n, '-' if v is None else v) for n, v in self.enums[x[1]])))
            elif x[0] == 'typedef': o.append('typedef %s %s' % (x[1], self.t(x[2])))
            else: o.append('%s %s %s' % ('exception' if x[1] in self.excs else 'struct', x[1], self.fields(self.structs[x[1]])))
        for n, t, v in self.consts: o.append('const %s %s %s' % (n, self.t(t), self.const(t, v)))
        for n, fns, base in self.services:
            o.append('service %s %s %d' % (n, base, len(fns)))
            for f in fns: o.append('%s %s %s %s %s' % ('oneway' if f['oneway'] else 'call', 'void' if f['ret'] is None else self.t(f['ret']), f['n'], self.fields(f['args']), self.fields(f['exc'])))
        return '\n'.join(o) + '\nend\n'
    # ---- schema ----
    def env(self, names=None):
        def ty(t): return {'k': t['k'], 'n': t['n'], 'a': [ty(x) for x in t['a']]}
        need = set(); todo = list(names or self.structs)
        def walk(t):
            if t['k'] == 'STRUCT' and t['n'] not in need: todo.append(t['n'])
            for x in t['a']: walk(x)
        while todo:
            n = todo.pop()
            if n in need: continue
            need.add(n)
            for f in self.structs[n]: walk(f['t'])
        def val(v): return {'t': v['t'], 'v': v['v'], 'a': [val(x) for x in v['a']], 'i': v['i']}
        return {n: [{'i': f['i'], 'n': f['n'], 't': ty(f['t']), 'r': f['r'], 'd': val(f['d'])} for f in self.structs[n]] for n in sorted(need)}
    # ---- values ----
    def zero(self, t):
        k = t['k']
        if k in ('BOOL',) or k in INTS: return V(k, '0')
        if k == 'DOUBLE': return dbl(0.0)
        if k == 'STRING': return text('')
        if k == 'ENUM': return V('ENUM', 'UNSET')
        return NIL
    def initial(self, f): return f['d'] if f['d']['t'] != 'NIL' else self.zero(f['t'])
    def new(self, n): return V('STRUCT', n, [self.initial(f) for f in self.structs[n]])
    def value(self, r, t, depth=3, const=False):
        k = t['k']
        if k == 'BOOL': return V(k, r.choice('01'))
        if k in INTS:
            lo, hi = INTS[k]
            return V(k, str(r.choice([0, 1, 2, 5, lo, hi, hi // 2, max(lo, -1), max(lo, -7), r.randrange(lo, hi + 1), r.randrange(lo, hi + 1)])))
        if k == 'DOUBLE':
            x = r.choice([0.0, 1.0, -1.0, 3.0, 1.5, 3.141592653589793, 0.1, 1e100, -2.5e-7, 123456789.123, 1e20, 5e-324, 1.7976931348623157e308, r.uniform(-1, 1), r.uniform(-1e6, 1e6), float(r.randrange(-1000, 1000))])
            return dict(dbl(x), int=r.random() < 0.5)
        if k == 'STRING':
            if const: return text(''.join(r.choice('abcXYZ019 _-.:\n\t"\\\'é') for _ in range(r.choice([0, 1, 3, 8]))))
            return text(r.choice(['', 'a', 'x y', '"q"\\', 'é漢', '\n\t\r', 'true', '0', '</>&', ''.join(r.choice('abcdefgh0123 {}[],:"') for _ in range(r.randrange(1, 40)))]))
        if k == 'BINARY':
            b = r.choice([b'', b'a', b'\x00\xff', b'abc=', r.randbytes(r.randrange(1, 30))])
            if const: b = bytes(x for x in b if 32 <= x < 127)
            return V(k, hx(b))
        if k == 'ENUM':
            if const or r.random() < 0.7: return V(k, str(r.choice(list(self.numbers(t['n']).values()))))
            return V(k, str(r.choice([0, -1, 77, -(1 << 31), (1 << 31) - 1])))
        if k == 'STRUCT':
            return self.obj(r, t['n'], depth - 1, const)
        n = 0 if depth <= 0 else r.choice([0, 1, 2, 3, 5])
        if k == 'LIST': return V(k, held(t['a'][0]), [self.value(r, t['a'][0], depth - 1, const) for _ in range(n)])
        seen = []; out = []
        for _ in range(n):
            x = self.value(r, t['a'][0], depth - 1, const)
            y = self.settle(t['a'][0], x)                # members that the wire does not tell apart would become one
            if any(eq(y, z) for z in seen): continue
            seen.append(y); out.append(x)
            if k == 'MAP': out.append(self.value(r, t['a'][1], depth - 1, const))
        return V(k, held(t['a'][0]) if k == 'SET' else held(t['a'][0]) + ':' + held(t['a'][1]), out)
    def settle(self, t, x):
        """What is left of a value once it went over the wire."""
        k = t['k']
        if x['t'] == 'NIL' or k in SCALARS: return x
        if k == 'STRUCT':
            a = []
            for f, y in zip(self.structs[t['n']], x['a']):
                gone = y['t'] == 'NIL' or y['v'] == 'UNSET' or f['r'] == 'opt' and y['t'] in ('LIST', 'SET', 'MAP') and not y['a'] and not f['d']['a']
                a.append(self.initial(f) if gone else self.settle(f['t'], y))
            return dict(x, a=a)
        return dict(x, a=[self.settle(t['a'][i % len(t['a'])], y) for i, y in enumerate(x['a'])])
    def obj(self, r, n, depth=3, const=False):
        p = r.choice([0.2, 0.6, 0.9]); a = []
        for f in self.structs[n]:
            x = self.initial(f)
            if r.random() < p and not (f['t']['k'] == 'STRUCT' and depth <= 0) and not (const and f['t']['k'] == 'STRUCT' and r.random() < 0.6): x = self.value(r, f['t'], depth, const)
            elif not const and r.random() < 0.15 and f['t']['k'] not in IDL and f['t']['k'] != 'ENUM' or f['t']['k'] == 'BINARY' and r.random() < 0.1: x = NIL if not const else x
            elif not const and f['t']['k'] == 'ENUM' and r.random() < 0.2: x = V('ENUM', 'UNSET')
            elif not const and f['t']['k'] in INTS and r.random() < 0.2: x = self.zero(f['t'])
            a.append(x)
        return V('STRUCT', n, a)
    def gotype(self, t):
        if t['k'] == 'STRUCT': return '*%s.%s' % (self.name, public(t['n']))
        if t.get('td'): return self.name + '.' + public(t['td'])
        if t['k'] == 'ENUM': return self.name + '.' + public(t['n'])
        if t['k'] in ('LIST', 'SET', 'MAP'): return 'thrift.T' + t['k'].capitalize()
        return {'BOOL': 'bool', 'BYTE': 'byte', 'I16': 'int16', 'I32': 'int32', 'I64': 'int64', 'DOUBLE': 'float64', 'STRING': 'string', 'BINARY': '[]byte'}[t['k']]
    def struct_names_with(self, pred): return [n for n in self.structs if pred(n)]
    # the wire form, for readers; extra fields mixed in by the caller
    def wire(self, t, x, names=False):
        k = t['k']
        if k in SCALARS: return V(wname(t), x['v'])
        if k in ('LIST', 'SET'): return V(k, wname(t['a'][0]), [self.wire(t['a'][0], y, names) for y in x['a']])
        if k == 'MAP': return V(k, wname(t['a'][0]) + ':' + wname(t['a'][1]), [self.wire(t['a'][i % 2], y, names) for i, y in enumerate(x['a'])])
        return V(k, t['n'], [{'t': 'FIELD', 'v': f['n'] if names else '', 'i': -1 if names else f['i'], 'a': [self.wire(f['t'], y, names)]}
                             for f, y in zip(self.structs[t['n']], x['a']) if y['t'] != 'NIL' and y['v'] != 'UNSET'])
def eq(x, y):
    if x['t'] != y['t'] or x['v'] != y['v'] or len(x['a']) != len(y['a']): return False
    if x['t'] == 'SET': return all(any(eq(p, q) for q in y['a']) for p in x['a'])
    if x['t'] == 'MAP':
        P = list(zip(x['a'][::2], x['a'][1::2])); Q = list(zip(y['a'][::2], y['a'][1::2]))
        return all(any(eq(p[0], q[0]) and eq(p[1], q[1]) for q in Q) for p in P)
    return all(eq(p, q) for p, q in zip(x['a'], y['a']))
# ---- programs ----
FN = ['a', 'b', 'key', 'value', 'count', 'first_name', 'lastName', 'X', 'ID', 'url', 'type', 'range', 'func', 'map', 'select', 'is_open', 'data2', 'a_b_c', 'Zip', 'go', 'package', 'default', 'chan', 'weight', 'price', 'flags', 'items', 'next_id', 'tag', 'note', 'Size', 'owner', 'created', 'score', 'raw', 'payload', 'kind', 'level', 'x1', 'y_2', 'interface', 'struct', 'w']
def flat(n): return n.replace('_', '').lower()
def names(r, n):
    out = []; seen = set()
    for x in r.sample(FN, len(FN)):
        if flat(x) not in seen: seen.add(flat(x)); out.append(x)
        if len(out) == n: break
    return out
KEYS = ['BYTE', 'I16', 'I32', 'I64', 'STRING', 'BOOL', 'ENUM', 'DOUBLE']
def rtype(r, p, structs, tds, depth=2, key=False):
    k = r.choice(KEYS) if key else r.choice(['BOOL', 'BYTE', 'I16', 'I32', 'I32', 'I64', 'DOUBLE', 'STRING', 'STRING', 'BINARY', 'ENUM', 'LIST', 'LIST', 'SET', 'MAP', 'MAP', 'STRUCT'])
    if tds and not key and r.random() < 0.15: return dict(r.choice(tds))
    if k == 'STRUCT' and not structs: k = 'I64'
    if k in ('LIST', 'SET', 'MAP') and depth <= 0: k = 'STRING'
    if k == 'STRUCT': return T(k, n=r.choice(structs))
    if k == 'ENUM': return T(k, n=r.choice(list(p.enums)))
    if k == 'LIST': return T(k, rtype(r, p, structs, tds, depth - 1))
    if k == 'SET':
        e = rtype(r, p, structs, tds, depth - 1)
        return T(k, e if e['k'] not in ('MAP', 'SET') else T('I32'))
    if k == 'MAP':
        kt = rtype(r, p, structs, tds, 0, True)
        if tds and r.random() < 0.15:
            c = [t for t in tds if t['k'] in KEYS]
            if c: kt = dict(r.choice(c))
        return T(k, kt, rtype(r, p, structs, tds, depth - 1))
    return T(k)
def rprogram(r, name, nstructs=8):
    p = Program(name)
    p.enum('Color', [('RED', 1), ('GREEN', None), ('BLUE', r.choice([10, 3, 1000]))])
    p.enum('Sign', [('NEG', -1), ('ZERO', 0), ('POS', None)])
    tds = [p.typedef('MyInt', T(r.choice(['I16', 'I32', 'I64']))), p.typedef('MyStr', T('STRING')), p.typedef('my_color', T('ENUM', n='Color')), p.typedef('Ratio', T('DOUBLE')), p.typedef('MyBin', T('BINARY')), p.typedef('Names', T('LIST', T('STRING'))), p.typedef('Flag', T('BOOL'))]
    p.tds = tds; done = []
    for k in range(nstructs):
        n = ['Alpha', 'beta', 'Gamma_ray', 'Delta', 'Eps', 'Zeta', 'Eta', 'Theta', 'Iota', 'Kappa', 'Lambda', 'Mu'][k % 12] + (str(k // 12) if k >= 12 else '')
        fs = []; ns = names(r, r.randrange(1, 9)); base = 0
        for x in ns:
            base += r.choice([1, 1, 1, 2, 5, 13]); t = rtype(r, p, done, tds)
            req = r.choice(['opt', 'opt', 'def', 'def', 'req']); d = None
            if r.random() < 0.35:
                d = p.value(r, t, 2, True)
            fs.append(F(base, x, t, req, d))
        if r.random() < 0.3: r.shuffle(fs)
        if r.random() < 0.15: fs.append(F(base + 3, 'self_', T('STRUCT', n=n), 'opt'))
        p.struct(n, fs, exc=k in (3, 5) or r.random() < 0.1)
        done.append(n)
        if k == 2: tds.append(p.typedef('MyStruct', T('STRUCT', n=n)))
    # a later version of some structs: fields dropped, renamed, added, moved
    p.versions = {}
    for n in r.sample(done, min(3, len(done))):
        fs = [dict(f) for f in p.structs[n] if r.random() < 0.75]
        for f in fs:
            if r.random() < 0.2: f['n'] = f['n'] + '2'
            if r.random() < 0.3: f['r'] = r.choice(['opt', 'def', 'req'])
            if f['t']['k'] != 'BINARY' and r.random() < 0.3: f['d'] = p.value(r, f['t'], 2, True)
        top = max([f['i'] for f in p.structs[n]] + [0])
        for x in range(r.randrange(0, 3)):
            t = rtype(r, p, done, tds); fs.append(F(top + 1 + 2 * x, 'added_%c' % (97 + x), t, r.choice(['opt', 'def']), p.value(r, t, 2, True) if t['k'] != 'BINARY' and r.random() < 0.4 else None))
        r.shuffle(fs); p.struct(n + 'V2', fs); p.versions[n] = n + 'V2'
    for k in range(8):
        t = rtype(r, p, done, tds)
        if t['k'] == 'BINARY': t = T('I64')
        p.consts.append(('K%d%s' % (k, r.choice(['', '_x', 'abc'])), t, p.value(r, t, 2, True)))
    return p
MN = ['echo', 'get_user', 'doIt', 'ping', 'type', 'Find', 'setAll', 'range', 'do_it_now', 'x', 'Sum2', 'notify', 'fire_and_forget', 'select', 'close', 'string']
def rservice(r, p, n=6):
    ss = [x for x in p.structs if not x.endswith('V2')]; ex = [x for x in p.excs]; tds = p.tds; fns = []; ms = []
    for m in r.sample(MN, len(MN)):
        if flat(m) not in [flat(x) for x in ms] and len(ms) < n: ms.append(m)
    for k, m in enumerate(ms):
        one = r.random() < 0.25; ret = None if one or r.random() < 0.2 else rtype(r, p, ss, tds)
        ns = [x for x in names(r, 9) if flat(x) not in ('p', 'err', 'w')]; args = []; base = 0; a = r.randrange(0, 5)
        for x in ns[:a]:
            base += r.choice([1, 1, 1, 3]); t = rtype(r, p, ss, tds); args.append(F(base, x, t, 'def', p.value(r, t, 2, True) if r.random() < 0.15 and t['k'] != 'BINARY' else None))
        if r.random() < 0.2: r.shuffle(args)
        exc = []
        if not one:
            base = 0
            for x in ns[a:a + r.choice([0, 0, 1, 2, 2])]: base += r.choice([1, 1, 4]); exc.append(F(base, x, T('STRUCT', n=r.choice(ex))))
            if r.random() < 0.2: exc.reverse()
        fns.append((one, ret, m, args, exc))
    cut = r.choice([0, 0, 1, 2]); more = r.choice([cut, cut, cut + 1, len(fns)])
    if cut:
        p.service('base_svc', fns[:cut]); p.service('Main', fns[cut:more], 'base_svc')
        if more > cut: p.service('more_svc', fns[more:], 'Main')
    else: p.service(r.choice(['Main', 'main_svc', 'svc']), fns)
    return p
def registry(progs):
    tail = []
    o = ['package main', '', 'import (', '\t"thrift"'] + ['\t%s "%s"' % (p.name if p.structs or p.consts or p.services else '_', p.name) for p in progs] + [')', '', 'var _ thrift.TType', '', 'func init() {']
    for p in progs:
        for n in p.structs: o.append('\tgenNew["%s.%s"] = func() genStruct { return %s.New%s() }' % (p.name, n, p.name, public(n)))
        for n, t, v in p.consts: o.append('\tgenConst["%s.%s"] = func() interface{} { return %s }' % (p.name, n, constref(p, n, t)))
        for n, fns, base in p.services:
            while base != '-':
                (fs, base), = [(fs, b) for m, fs, b in p.services if m == base]; fns = fs + fns
            o.append('\tgenSvc["%s.%s"] = genService{func(h *genHandler) thrift.TProcessor { return %s.New%sProcessor(&h_%s_%s{h}) }, func(t thrift.TTransport, f thrift.TProtocolFactory) interface{} { return %s.New%sClientFactory(t, f) }, func(t thrift.TTransport, i, o thrift.TProtocol) interface{} { return %s.New%sClientProtocol(t, i, o) }}' % (p.name, n, p.name, public(n), p.name, n, p.name, public(n), p.name, public(n)))
            h = ['type h_%s_%s struct{ h *genHandler }' % (p.name, n)]
            for f in fns:
                args = ', '.join('a%d %s' % (i, p.gotype(a['t'])) for i, a in enumerate(f['args']))
                outs = ([p.gotype(f['ret'])] if f['ret'] else []) + [p.gotype(x['t']) for x in f['exc']]
                h.append('func (x *h_%s_%s) %s(%s) (%serr error) { x.h.handle("%s", []interface{}{%s}, %s&err); return }' % (p.name, n, public(f['n']), args,
                    ''.join('r%d %s, ' % (i, t) for i, t in enumerate(outs)), f['n'], ', '.join('a%d' % i for i in range(len(f['args']))), ''.join('&r%d, ' % i for i in range(len(outs)))))
            tail += h
    return '\n'.join(o) + '\n}\n' + '\n'.join(tail) + '\n'
def constref(p, n, t):
    tn = t.get('td') or IDL.get(t['k']) or t['n']
    x = '%s.%s' % (p.name, public(tn) + '_' + public(n) if tn else public(n))
    g = {'BOOL': 'bool', 'BYTE': 'byte', 'I16': 'int16', 'I32': 'int32', 'I64': 'int64', 'DOUBLE': 'float64', 'STRING': 'string', 'ENUM': 'int32'}
    return '%s(%s)' % (g[t['k']], x) if t['k'] in g else x
def public(n):
    n = n[0].upper() + n[1:]; o = n[0]; i = 1
    while i < len(n):
        if i < len(n) - 1 and n[i] == '_' and n[i + 1].isalpha(): o += n[i + 1].upper(); i += 2
        else: o += n[i]; i += 1
    return o
