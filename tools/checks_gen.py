"""The Go generator: what the code it writes does with values (P29, P30)."""
import glob, os, random, shutil, subprocess
from vlib import *
import vlib, idl
from idl import T, F, V, NIL
from checks_codec import rng
GEN = 'compiler/cpp/src/generate/t_go_generator.cc'
def generator():
    """The repository's generator, built on the headers in gen/thrift."""
    out = os.path.join(scratch(), 'thriftgen')
    if not os.path.exists(out):
        d = os.path.join(VERIF, 'gen/thrift')
        p = subprocess.run(['g++', '-O0', '-w', '-I' + d, '-o', out, os.path.join(d, 'main.cc'), os.path.join(vlib.REPO, GEN)], capture_output=True, text=True)
        if p.returncode: raise CheckError('the generator does not build:\n' + p.stderr[-3000:])
        log('generator built')
    return out
def packages(c, progs):
    """Generate and compile; what does not compile is a violation.  Leaves the
    driver vg ready for vlib.build; returns the programs it knows."""
    exe = generator(); e = go_env(); src = os.path.join(scratch(), 'gopath', 'src'); good = []
    for p in progs:
        d = os.path.join(scratch(), 'gen', p.name); shutil.rmtree(d, True); os.makedirs(d)
        g = subprocess.run([exe, d], input=p.text(), env=e, capture_output=True, text=True)
        dst = os.path.join(src, p.name); shutil.rmtree(dst, True)
        if g.returncode: c.violation('the generator refuses a valid program: ' + g.stderr[-500:], {'program': p.text()}); continue
        shutil.move(os.path.join(d, 'gen-go', p.name), dst)
    todo = [p for p in progs if os.path.isdir(os.path.join(src, p.name))]
    b = subprocess.run(['go', 'build'] + [p.name for p in todo], env=e, cwd=scratch(), capture_output=True, text=True)
    for p in todo:
        if b.returncode:
            b1 = subprocess.run(['go', 'build', p.name], env=e, cwd=scratch(), capture_output=True, text=True)
            if b1.returncode: c.violation('the generated package does not compile: ' + b1.stderr[-700:], {'program': p.text(), 'output': b1.stderr[-4000:]}); continue
        good.append(p)
    d = os.path.join(src, 'vg'); shutil.rmtree(d, True); os.makedirs(d)
    for f in glob.glob(os.path.join(VERIF, 'harness/src/vh/*.go')) + glob.glob(os.path.join(VERIF, 'harness/src/vhgen/*.go')):
        os.symlink(f, os.path.join(d, os.path.basename(f)))
    with open(os.path.join(d, 'reg.go'), 'w') as f: f.write(idl.registry(good))
    import re
    for _ in range(6):                               # the registry names every struct and constant that is declared
        b = subprocess.run(['go', 'build', '-o', os.path.join(scratch(), 'vg'), 'vg'], env=e, cwd=scratch(), capture_output=True, text=True)
        lines = sorted({int(x) for x in re.findall(r'vg/reg\.go:(\d+):', b.stderr)})
        if not b.returncode or not lines: break
        with open(os.path.join(d, 'reg.go')) as f: reg = f.read().split('\n')
        c.violation('the generated package lacks something declared: ' + b.stderr[-700:], {'programs': [p.text() for p in good if any(' %s.' % p.name in reg[n - 1] for n in lines)], 'output': b.stderr[-4000:]})
        for n in lines: reg[n - 1] = ''
        with open(os.path.join(d, 'reg.go'), 'w') as f: f.write('\n'.join(reg))
    c.count('programs generated', len(good)); c.count('structs generated', sum(len(p.structs) for p in good))
    log('%d programs generated and compiled' % len(good))
    return good
def fixed():
    """Every kind of field in every position."""
    p = idl.Program('vgfix')
    p.enum('Color', [('RED', 1), ('GREEN', None), ('BLUE', 10)])
    myint = p.typedef('MyInt', T('I32')); mystr = p.typedef('my_str', T('STRING')); mycol = p.typedef('MyColor', T('ENUM', n='Color')); mylist = p.typedef('MyList', T('LIST', T('I32'))); mybin = p.typedef('MyBin', T('BINARY'))
    E = T('ENUM', n='Color'); inner = T('STRUCT', n='Inner')
    p.struct('Inner', [F(1, 'a', T('I32')), F(2, 'b', T('STRING'), 'opt')])
    p.struct('Boom', [F(1, 'msg', T('STRING')), F(2, 'code', T('I32'))], exc=True)
    myinner = p.typedef('MyInner', inner)
    SC = [T(k) for k in idl.IDL] + [E, myint, mystr, mycol, mybin, inner, myinner, T('STRUCT', n='Boom')]
    for r in ('def', 'opt', 'req'): p.struct('S' + r, [F(k + 1, 'f%d' % (k + 1), t, r) for k, t in enumerate(SC)])
    CO = [T('LIST', t) for t in SC] + [T('SET', t) for t in SC] + [T('MAP', k, T('I32')) for k in SC if k['k'] in idl.KEYS] + [T('MAP', T('I64'), t) for t in SC]
    CO += [T('LIST', T('LIST', T('STRING'))), T('MAP', T('STRING'), T('MAP', T('I16'), T('SET', T('I64')))), T('LIST', T('MAP', E, inner)), T('SET', T('LIST', T('I32'))), mylist, T('LIST', mylist), T('MAP', mystr, T('LIST', mybin))]
    for r in ('def', 'opt'): p.struct('C' + r, [F(2 * k + 3, 'c%d' % k, t, r) for k, t in enumerate(CO)])
    d = lambda t, v: V(t, v); I = lambda n: V('I32', str(n))
    D = [(T('BOOL'), d('BOOL', '1')), (T('BOOL'), d('BOOL', '0')), (T('BYTE'), d('BYTE', '5')), (T('I16'), d('I16', '-3')), (T('I32'), I(0)), (T('I32'), I(7)), (T('I64'), d('I64', '9000000000')), (T('DOUBLE'), dict(idl.dbl(3.0), int=True)),
         (T('DOUBLE'), idl.dbl(3.141592653589793)), (T('DOUBLE'), idl.dbl(0.1)), (T('STRING'), idl.text('a"b\\\n\té')), (E, V('ENUM', '2')), (mycol, V('ENUM', '10')), (myint, I(-9)), (mystr, idl.text('x')),
         (inner, V('STRUCT', 'Inner', [I(4), idl.text('q')])), (T('LIST', T('I32')), V('LIST', 'I32', [I(1), I(2)])), (T('LIST', T('STRING')), V('LIST', 'STRING')), (T('SET', T('STRING')), V('SET', 'STRING', [idl.text('b'), idl.text('a')])),
         (T('MAP', T('STRING'), T('DOUBLE')), V('MAP', 'STRING:DOUBLE', [idl.text('k'), dict(idl.dbl(2.0), int=True)])), (T('LIST', E), V('LIST', 'I32', [V('ENUM', '1')])), (T('MAP', T('I32'), T('LIST', T('BOOL'))), V('MAP', 'I32:LIST', [I(5), V('LIST', 'BOOL', [d('BOOL', '1')])])), (T('LIST', T('BYTE')), V('LIST', 'BYTE', [d('BYTE', '200')]))]
    for r in ('def', 'opt', 'req'): p.struct('D' + r, [F(k + 1, 'd%d' % (k + 1), t, r, v) for k, (t, v) in enumerate(D)])
    p.struct('Names', [F(k + 1, n, T('I32'), 'opt') for k, n in enumerate(idl.FN)])
    p.struct('Ids', [F(300, 'high', T('I32')), F(1, 'one', T('STRING'), 'opt', idl.text('d')), F(17, 'mid', T('LIST', T('I32'))), F(32767, 'top', T('BOOL')), F(16, 'sixteen', T('I64'))])
    p.struct('Empty', []); p.struct('IdsV2', [F(2, 'two', T('I32')), F(17, 'middle', T('LIST', T('I32'))), F(32767, 'top', T('BOOL'), 'opt')])
    p.struct('Node', [F(1, 'val', T('I32'), 'def', I(1)), F(2, 'next', T('STRUCT', n='Node'), 'opt'), F(3, 'kids', T('LIST', T('STRUCT', n='Node')))])
    p.versions = {'Ids': 'IdsV2', 'IdsV2': 'Ids', 'Sdef': 'Sopt', 'Sopt': 'Empty', 'Copt': 'Cdef', 'Dopt': 'Ddef', 'Empty': 'Sopt', 'Names': 'Empty', 'Cdef': 'Empty'}
    return p
def small():
    """The program of GenStructMC."""
    p = idl.Program('vgmc'); p.enum('Color', [('RED', 1), ('GREEN', None), ('BLUE', 10)])
    E = T('ENUM', n='Color'); B = T('STRUCT', n='B'); M = T('MAP', T('STRING'), T('I32'))
    p.struct('B', [F(2, 'y', T('STRING')), F(1, 'x', T('I32'), 'opt', V('I32', '1'))])
    p.struct('A', [F(1, 'a', T('I32')), F(3, 'b', T('STRING'), 'opt', idl.text('d')), F(2, 'c', E, 'opt'), F(4, 'n', B, 'opt'), F(6, 'l', T('LIST', T('I32')), 'opt'), F(9, 'm', M)])
    p.struct('A2', [F(9, 'm', M, 'opt'), F(1, 'a2', T('I32'), 'opt', V('I32', '3')), F(5, 'extra', T('BINARY')), F(4, 'n', B, 'def', V('STRUCT', 'B', [idl.text('a'), V('I32', '1')])), F(2, 'c', E, 'def', V('ENUM', '2')), F(8, 's', T('SET', E), 'opt')])
    p.versions = {'A': 'A2', 'A2': 'A'}
    return p
def model(c, p):
    f = os.path.join(scratch(), 'genenv.json')
    with open(f, 'w') as h: h.write(json.dumps({'env': p.env(), 'versions': list(p.versions)}) + '\n')
    r = tlc('GenStructMC', env={'EMIT': '1', 'GENENV': f}, mem='8g'); c.add_tlc(r); sc = scripts(r)
    c.count('behaviours of GenStructMC', len(sc))
    if THOROUGH: c.add_tlc(tlc('GenStructMC', cfg='GenStructMC_big', env={'EMIT': '0', 'GENENV': f}, mem='16g', timeout=3000))
    return sc
PROTS = ['binary', 'compact', 'json', 'simplejson']
def byname(p, a, b):
    """struct b knows every field of a by name, and nested structs are the same"""
    nb = {f['n']: f for f in p.structs[b]}
    na = {f['i']: f['n'] for f in p.structs[a]}
    return all(f['n'] in nb and nb[f['n']]['i'] == f['i'] for f in p.structs[a])
def junk(r, p, used):
    i = r.choice([x for x in list(range(1, 60)) + [255, 256, 5000, 32767] if x not in used])
    t = r.choice([T('BOOL'), T('I64'), T('STRING'), T('DOUBLE'), T('LIST', T('I16')), T('MAP', T('STRING'), T('LIST', T('I32'))), T('SET', T('STRING')), T('BYTE')])
    if r.random() < 0.2 and 'Inner' in p.structs: t = T('STRUCT', n='Inner')
    x = p.wire(t, p.value(r, t, 2))
    return {'t': 'FIELD', 'v': '', 'i': i, 'a': [x]}
def history(r, p, n, big=False):
    """ops on a struct n of program p"""
    ops = [{'o': 'New', 's': n}]; cur = n; fs = p.structs[cur]
    def fill(q):
        o = p.obj(r, cur, 3)
        for k, x in enumerate(o['a']):
            if r.random() < q: ops.append({'o': 'Set', 'f': k + 1, 'v': x})
    fill(r.choice([0.3, 0.8, 1.0])); need = [n]
    for _ in range(r.randrange(1, 4)):
        k = r.choice(['Write', 'Read', 'Trip', 'Trip', 'Cmp', 'Set'])
        if k == 'Write': ops.append({'o': 'Write'})
        elif k == 'Set': fill(0.3); ops.append({'o': 'Write'})
        elif k == 'Read':
            names = r.random() < 0.3; w = p.wire(T('STRUCT', n=cur), p.obj(r, cur, 3), names); fl = w['a']
            if not names:
                used = {f['i'] for f in p.structs[cur]}
                for _ in range(r.choice([0, 0, 1, 2])): fl.insert(r.randrange(len(fl) + 1), junk(r, p, used))
            if r.random() < 0.5: r.shuffle(fl)
            if fl and r.random() < 0.1: fl.append(r.choice(fl))
            if fl and r.random() < 0.3: fl.pop(r.randrange(len(fl)))
            ops.append({'o': 'Read', 'w': w, 'mode': 'names' if names else 'ids'})
        elif k == 'Trip':
            pr = r.choice(PROTS); nx = cur
            if r.random() < 0.4:
                c = [b for a, b in list(p.versions.items()) + [(b, a) for a, b in p.versions.items()] if a == cur and compatible(p, a, b) and (pr != 'simplejson' or byname(p, a, b))]
                if c: nx = r.choice(c); need.append(nx)
            ops.append({'o': 'Trip', 's': nx, 'p': pr}); cur = nx
        else:
            ops.append({'o': 'Cmp', 'v': p.obj(r, cur, 2)})
    return {'id': '', 'kind': 'gen', 'prog': p.name, 'env': p.env(need), 'ops': ops}
def compatible(p, a, b):
    """fields with the same id have the same type"""
    ty = lambda t: (t['k'], t['n'], tuple(ty(x) for x in t['a']))
    A = {f['i']: ty(f['t']) for f in p.structs[a]}
    return all(f['i'] not in A or A[f['i']] == ty(f['t']) for f in p.structs[b])
def compare(r, p, n):
    """an object against a copy with one field changed"""
    o = p.obj(r, n, 3); ops = [{'o': 'New', 's': n}] + [{'o': 'Set', 'f': k + 1, 'v': x} for k, x in enumerate(o['a'])] + [{'o': 'Cmp', 'v': o}]
    for k, f in enumerate(p.structs[n]):
        if r.random() < 0.5: continue
        y = p.value(r, f['t'], 2)
        ops.append({'o': 'Cmp', 'v': dict(o, a=[y if j == k else x for j, x in enumerate(o['a'])])})
    return {'id': '', 'kind': 'gen', 'prog': p.name, 'env': p.env([n]), 'ops': ops}
def check_P29(c):
    r = rng(c.prop); progs = [fixed()] + [idl.rprogram(r, 'vgr%d' % k, 10) for k in range(16 if THOROUGH else 4)]
    mc = small(); sc = model(c, mc); good = packages(c, [mc] + progs + tiny()); cases = []
    for i, b in enumerate(r.sample(sc, min(len(sc), 20000 if THOROUGH else 1200)) if mc in good else []):
        n = b['first']['v']; ops = [{'o': 'New', 's': n}] + [{'o': 'Set', 'f': k + 1, 'v': x} for k, x in enumerate(b['first']['a'])] + [{'o': 'Write'}]
        for o in b['ops']: ops.append({'o': 'Trip', 's': o['s'], 'p': r.choice(PROTS[:3])} if o['o'] == 'Trip' else {'o': 'Read', 'w': o['w'], 'mode': 'ids'})
        cases.append({'kind': 'gen', 'prog': mc.name, 'env': mc.env(), 'ops': ops})
    for p in good:
        for n, t, v in p.consts: cases.append({'kind': 'gen', 'prog': p.name, 'env': p.env(), 'ops': [{'o': 'Const', 's': n, 't': t, 'v': v}]})
        for n in p.structs:
            for k in range((3 if p.name == 'vgfix' else 1) * (5 if THOROUGH else 1)):
                # everything about one object of every struct, in every protocol
                o = p.obj(r, n, 3); sets = [{'o': 'Set', 'f': j + 1, 'v': x} for j, x in enumerate(o['a'])]
                cases.append({'kind': 'gen', 'prog': p.name, 'env': p.env([n]), 'ops': [{'o': 'New', 's': n}, {'o': 'Write'}] + sets + [{'o': 'Write', 'all': True}] + [{'o': 'Trip', 's': n, 'p': q} for q in r.sample(PROTS, 4)]})
                cases.append(compare(r, p, n))
        for a, b in p.versions.items():
            for x, y in ((a, b), (b, a)):
                if not compatible(p, x, y): continue
                for q in PROTS:
                    if q == 'simplejson' and not byname(p, x, y): continue
                    o = p.obj(r, x, 3)
                    cases.append({'kind': 'gen', 'prog': p.name, 'env': p.env([x, y]), 'ops': [{'o': 'New', 's': x}] + [{'o': 'Set', 'f': j + 1, 'v': v} for j, v in enumerate(o['a'])] + [{'o': 'Trip', 's': y, 'p': q}, {'o': 'Write'}]})
    ns = [(p, n) for p in good for n in p.structs]
    for i in range((20000 if THOROUGH else 1500) if ns else 0):
        p, n = r.choice(ns); cases.append(history(r, p, n))
    for i, x in enumerate(cases): x['id'] = '%s-%d' % (c.prop, i)
    c.cases('GenTrace', cases, pkg='vg', prepare=lambda x, m: dict(m, env=x['env']), label='histories of generated structs', batch=1000)
def tiny():
    """Programs with next to nothing in them."""
    ps = [idl.Program('vgt%d' % k) for k in range(6)]; E = [('RED', 1), ('BLUE', None)]
    ps[1].enum('Color', E); ps[2].typedef('MyInt', T('I32')); ps[3].struct('Oops', [], exc=True); ps[4].consts.append(('N', T('I32'), V('I32', '5')))
    ps[5].enum('Color', E); ps[5].consts.append(('C', T('ENUM', n='Color'), V('ENUM', '2')))
    return ps
def svctiny():
    """Services without structs, and without methods."""
    ps = [idl.Program('vst%d' % k) for k in range(3)]
    ps[0].service('Only', [(True, None, 'fire', [], []), (False, T('I32'), 'get', [F(1, 'x', T('I32'))], [])])
    ps[1].service('Base', [(False, T('I32'), 'get', [F(1, 'x', T('I32'))], [])]); ps[1].service('Same', [], 'Base')
    ps[2].service('Nothing', [])
    return ps
def svcfixed():
    """Methods of every shape."""
    p = idl.Program('vsfix'); p.enum('Color', [('RED', 1), ('GREEN', None), ('BLUE', 10)])
    E = T('ENUM', n='Color'); myint = p.typedef('MyInt', T('I32')); myE = p.typedef('MyColor', E)
    p.struct('Inner', [F(1, 'a', T('I32')), F(2, 'b', T('STRING'), 'opt', idl.text('d'))]); inner = T('STRUCT', n='Inner'); mys = p.typedef('MyInner', inner)
    p.struct('Boom', [F(1, 'msg', T('STRING')), F(2, 'code', T('I32'))], exc=True); p.struct('bang', [], exc=True)
    B = T('STRUCT', n='Boom'); C = T('STRUCT', n='bang'); L = T('LIST', T('STRING')); M = T('MAP', T('I32'), inner)
    types = [T(k) for k in idl.IDL] + [E, myint, myE, inner, mys, L, T('SET', E), M]
    fns = [(False, None, 'ping', [], []), (True, None, 'fire', [], []), (True, None, 'fire_at', [F(3, 'type', T('I32')), F(1, 'to', inner)], []), (False, None, 'check', [F(1, 'x', T('I32'))], [F(1, 'a', B), F(2, 'type', C)]),
           (False, T('I32'), 'sum', [F(1, 'a', T('I32')), F(2, 'b', T('I32')), F(5, 'range', L)], [F(2, 'second', B), F(1, 'first', C)])]
    fns += [(False, t, 'r%d' % k, [F(2, 'v', t), F(1, 'w_x', types[(k + 3) % len(types)], 'def')], [F(3, 'ouch', B)] if k % 2 else []) for k, t in enumerate(types)]
    p.service('Small', fns); return p
def svcsmall():
    """The service of GenRpcMC."""
    p = idl.Program('vsmc'); p.enum('Color', [('RED', 1), ('BLUE', 10)])
    p.struct('Boom', [F(1, 'code', T('I32'))], exc=True); p.struct('Bang', [], exc=True); p.struct('P', [F(1, 'n', T('I32'), 'opt', V('I32', '1'))])
    p.service('Svc', [(True, None, 'fire', [F(1, 'n', T('I32'))], []), (False, None, 'ping', [], []), (False, T('ENUM', n='Color'), 'paint', [F(1, 'what', T('STRUCT', n='P'))], [F(1, 'boom', T('STRUCT', n='Boom')), F(2, 'bang', T('STRUCT', n='Bang'))]),
        (False, T('STRUCT', n='P'), 'make', [F(2, 'n', T('I32')), F(1, 'c', T('ENUM', n='Color'))], [F(1, 'boom', T('STRUCT', n='Boom'))])])
    return p
def fns(p, svc):
    fs = []; n = svc
    while n != '-':
        d = [(f, b) for m, f, b in p.services if m == n][0]; fs = d[0] + fs; n = d[1]
    return fs
def conversation(r, p, lazy=False, one=None):
    """calls on one connection"""
    svc = p.services[-1][0]; fs = fns(p, svc); ops = []; pr = r.choice(PROTS)
    for _ in range(1 if one else r.choice([1, 2, 3, 5, 8])):
        f = one or r.choice(fs)
        a = p.obj(r, f['n'] + '_args', 2); x = p.obj(r, f['n'] + '_result', 2)
        for k, e in enumerate(p.structs[f['n'] + '_result']):
            if e['i'] != 0 and r.random() < 0.6: x['a'][k] = NIL
        ops.append({'o': 'Call', 'm': f['n'], 'a': a, 'x': x, 'err': r.random() < 0.15, 'drop': not lazy and not f['oneway'] and r.random() < 0.1, 'skew': False, 'by': 0, 'garble': False, 'cut': 0, 'fail': False})
    f = fs[[y['n'] for y in fs].index(ops[-1]['m'])]; last = ops[-1]
    if not f['oneway']:
        if pr in ('binary', 'compact') and r.random() < 0.25: last['cut'] = r.choice([1, 1, 2, 3, 7, 10, 20, 1000])
        elif not last['drop'] and not last['err'] and r.random() < 0.2: last['skew'] = True; last['by'] = r.choice([1, -1, 1, 1000, -1000])
        elif not lazy and r.random() < 0.15: last['fail'] = True; last['drop'] = False
    if pr == 'binary' and not lazy and not any(last[k] for k in ('cut', 'skew', 'fail', 'drop')) and r.random() < 0.1: last['garble'] = True
    return talk(p, svc, pr, ops, lazy)
def talk(p, svc, pr, ops, lazy, given=False):
    fs = fns(p, svc)
    if pr == 'simplejson' and any(o['drop'] for o in ops): ops = ops[:[o['drop'] for o in ops].index(True) + 1] # no types on the wire: what is not known cannot be skipped
    if lazy: ops = ops + [{'o': 'Drain', 'm': fs[0]['n'], 'a': NIL, 'x': NIL, 'err': False, 'drop': False, 'skew': False, 'by': 0, 'garble': False, 'cut': 0, 'fail': False}]
    need = [n for o in ops for n in (o['m'] + '_args', o['m'] + '_result')]
    return {'id': '', 'kind': 'genrpc', 'prog': p.name, 'svc': svc, 'prot': pr, 'lazy': lazy, 'given': given, 'wire': pr in ('binary', 'compact'), 'skips': pr != 'simplejson', 'env': p.env(need),
            'fns': {f['n']: {'oneway': f['oneway'], 'void': f['ret'] is None, 'go': idl.public(f['n'])} for f in fs}, 'ops': ops}
def rpcmodel(c, p):
    """The behaviours of GenRpcMC, as conversations."""
    fs = fns(p, 'Svc'); f = os.path.join(scratch(), 'rpcenv.json'); r = rng(c.prop + 'model')
    with open(f, 'w') as h: h.write(json.dumps({'env': p.env([n for y in fs for n in (y['n'] + '_args', y['n'] + '_result')]), 'fns': {y['n']: {'oneway': y['oneway']} for y in fs}}) + '\n')
    x = tlc('GenRpcMC', env={'EMIT': '1', 'GENENV': f}, mem='8g'); c.add_tlc(x); sc = scripts(x)
    c.add_tlc(tlc('GenRpcMC', cfg='GenRpcMC_live', env={'EMIT': '0', 'GENENV': f}, mem='8g')); c.count('behaviours of GenRpcMC', len(sc))
    if THOROUGH: c.add_tlc(tlc('GenRpcMC', cfg='GenRpcMC_big', env={'EMIT': '0', 'GENENV': f}, mem='16g', timeout=3000))
    r.shuffle(sc); out = []
    def fill(v): return dict({'i': 0}, **dict(v, a=[fill(y) for y in v['a']]))
    for calls in (sc if THOROUGH else sc[:900]):
        ops = [{'o': 'Call', 'm': y['m'], 'a': fill(y['a']), 'x': fill(y['x']), 'err': y['err'], 'drop': False, 'skew': False, 'by': 0, 'garble': False, 'cut': 0, 'fail': False} for y in calls]
        out.append(talk(p, 'Svc', r.choice(PROTS), ops, r.random() < 0.5))
    return out
def check_P30(c):
    r = rng(c.prop); progs = [svcfixed(), svcsmall()]; model = rpcmodel(c, progs[1])
    for k in range(12 if THOROUGH else 4): progs.append(idl.rservice(r, idl.rprogram(r, 'vs%d' % k, 7), r.choice([3, 5, 8])))
    good = [p for p in packages(c, progs + svctiny()) if fns(p, p.services[-1][0])]; cases = model if progs[1] in good else []
    for p in good:
        for f in fns(p, p.services[-1][0]):
            for k in range(20 if THOROUGH else 4): cases.append(conversation(r, p, k % 4 == 3, f))
    for i in range((20000 if THOROUGH else 1200) if good else 0): cases.append(conversation(r, r.choice(good), r.random() < 0.3))
    if progs[0] in good: # what the templates are known to get wrong
        p = progs[0]; f = [y for y in fns(p, p.services[-1][0]) if y['oneway']][0]
        def one(m): return {'o': 'Call', 'm': m, 'a': p.new(m + '_args'), 'x': p.new(m + '_result'), 'err': False, 'drop': False, 'skew': False, 'by': 0, 'garble': False, 'cut': 0, 'fail': False}
        for pr in PROTS:
            cases.append(talk(p, p.services[-1][0], pr, [one('sum'), one('r1')], False, True)); cases.append(talk(p, p.services[-1][0], pr, [one('sum'), dict(one(f['n']), fail=True)], False))
    def known(x, m, what):
        if x['given'] and 'event 1 of' in what and m['ops'][0].get('e'): return 'given-protocols'
    for i, x in enumerate(cases): x['id'] = '%s-%d' % (c.prop, i)
    c.cases('GenRpcTrace', cases, pkg='vg', keyf=known, prepare=lambda x, m: dict(m, **{k: x[k] for k in ('env', 'fns', 'lazy', 'wire', 'skips')}), label='conversations of generated clients and processors', batch=1000)
