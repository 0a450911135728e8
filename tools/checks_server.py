"""Server socket and server checks (P15-P17)."""
import random
from vlib import *
def rng(tag): return random.Random('%s/%d' % (tag, SEED))

# ------------------------------------------------------- server sockets
def C(f, th=1, cl=0, blk=0): return {'th': th, 'f': f, 'cl': cl, 'blk': blk}
def ssock(cid, ops, sock, **k):
    return dict({'id': cid, 'kind': 'ssock', 'sock': sock, 'how': 0, 'pre': 0, 'busy': 0, 'tmo': 0, 'free': 0, 'n': 0, 'ops': ops}, **k)
def number(ops):
    n = 0
    for o in ops:
        if o['f'] == 'Dial': n += 1; o['cl'] = n
    return ops
def ss_design(c, sock, n):
    r = tlc('ServerSocketMC', cfg='ServerSocketMC_' + sock, env={'EMIT': '1'}, mem='8g')
    c.add_tlc(r); s = scripts(r)
    c.count('behaviours of ServerSocketMC_' + sock, len(s))
    for cfg in ['_live'] + (['_big'] if THOROUGH else []):
        r2 = tlc('ServerSocketMC', cfg='ServerSocketMC_' + sock + cfg, env={'EMIT': '0'}, mem='12g'); c.add_tlc(r2)
    return rng(c.prop + sock).sample(s, min(len(s), n))
SEQ = ['Listen', 'Open', 'Close', 'Interrupt', 'IsOpen', 'Peek', 'Dial', 'Accept', 'R', 'RA', 'W', 'F', 'Port']
def check_P15(c):
    r = rng(c.prop); cases = []
    for sock in ('sv', 'nb'):
        for i, b in enumerate(ss_design(c, sock, 4000 if THOROUGH else 900)):
            ops = number([C(o['f'], o['th'], 0, o['blk']) for o in b['ops']])
            cases.append(ssock('%s-%s-g%d' % (c.prop, sock, i), ops, sock, how=[0, 1, 2][i % 3]))
        # one thread, longer histories, every call
        for i in range(1500 if THOROUGH else 300):
            ops = []; op = False; q = 0; how = r.randrange(4 if sock == 'nb' else 3)
            op = how == 3; intr = False
            for _ in range(r.randrange(2, 25)):
                f = r.choice(SEQ)
                if f == 'Accept':     # must not wait
                    if op and q == 0: f = 'Dial'
                    if not op and sock == 'sv' and not intr: f = 'Listen'
                ops.append(C(f))
                if f in ('Listen', 'Open'): op = True; intr = False
                elif f in ('Close', 'Interrupt'):
                    op = False; q = 0; intr = intr or f == 'Interrupt'
                elif f == 'Dial' and op: q += 1
                elif f == 'Accept' and op: q -= 1
            cases.append(ssock('%s-%s-s%d' % (c.prop, sock, i), number(ops), sock, how=how, pre=int(how == 3), tmo=r.choice([0, 0, 0, 25])))
        for i, fs in enumerate([['Listen', 'IsOpen', 'Accept', 'Open', 'Close', 'Port'], ['Open', 'Listen', 'Interrupt', 'Accept']]):
            if sock == 'nb' or 'Accept' in fs: cases.append(ssock('%s-%s-b%d' % (c.prop, sock, i), [C(f) for f in fs], sock, busy=1))
        # several threads at will
        for i in range(3000 if THOROUGH else 500):
            ops = []
            for _ in range(r.randrange(3, 13)):
                ops.append(C(r.choice(['Listen', 'Open', 'Accept', 'Accept', 'Close', 'Interrupt', 'IsOpen', 'Dial', 'Dial', 'Dial']), r.randrange(1, 4)))
            if r.random() < 0.6: ops.insert(0, C(r.choice(['Listen', 'Open'])))
            cases.append(ssock('%s-%s-c%d' % (c.prop, sock, i), number(ops), sock, how=r.randrange(3), free=1))
    c.cases('ServerTrace', cases, label='server socket histories', driver_kw={'limit_ms': 12000}, batch=2500)
    races = []
    n = 150000 if THOROUGH else 12000
    for sock, how in (('sv', 0), ('nb', 0), ('nb', 4)):
        for a, b in (('Accept', 'Close'), ('Accept', 'Interrupt'), ('Close', 'Interrupt'), ('Close', 'Close'), ('IsOpen', 'Close'), ('Listen', 'Interrupt'), ('Open', 'Open'), ('Listen', 'Close'), ('Accept', 'Listen')):
            if how == 4 and a in ('Listen', 'Open'): continue
            pre = 0 if (a, b) in (('Open', 'Open'),) else 1
            k = n * 4 if how == 4 else n // 3
            if a == 'Accept' and b == 'Listen': k //= 40
            races.append({'id': '%s-%s%d-x%s%s' % (c.prop, sock, how, a, b), 'kind': 'srace', 'sock': sock, 'how': how, 'pre': pre, 'busy': 0, 'tmo': 0, 'free': 0, 'n': k, 'ops': [], 'calls': None})
            races[-1]['ops'] = [C(a, 1), C(b, 2)]; del races[-1]['calls']
    c.cases('ServerTrace', races, label='two calls at once', driver_kw={'limit_ms': 60000}, batch=2500)

# --------------------------------------------------------------- servers
def S(s, **k): return dict({'s': s, 't': '', 'k': 0, 'c': 0, 'n': 0, 'mode': ''}, **k)
def srvcase(cid, kind, sock, steps, **k):
    nc = max([o['c'] for o in steps if o['s'] in ('dial', 'busy')] + [1])
    return dict({'id': cid, 'kind': 'server', 'skind': kind, 'sock': sock, 'ctor': 0, 'busy': 0, 'nc': nc, 'steps': steps}, **k)
def sv_design(c, cfgs, bad=()):
    out = []
    for kind in ('simple', 'nb'):
        for x in cfgs + (['big'] if THOROUGH else []):
            live = 'live' in x
            r = tlc('ServerMC', cfg='ServerMC_%s_%s' % (kind, x), env={'EMIT': '0' if live or x == 'big' else '1'}, mem='12g'); c.add_tlc(r)
            if not live and x != 'big':
                s = scripts(r); c.count('transitions of ServerMC_%s_%s' % (kind, x), len(s))
                out += [(kind, 'nb' if (kind, x) in (('simple', 'two'), ('nb', 'stop')) else 'sv', b['steps']) for b in s]
    return out
def maximal(bs):
    """drop schedules that another one continues"""
    keys = {}
    for k, so, st in bs: keys.setdefault((k, so), {})[tuple((o['s'], o['t'], o['c'], o['mode']) for o in st)] = st
    out = []
    for (k, so), d in keys.items():
        pre = set(t[:-1] for t in d)
        out += [(k, so, st) for t, st in d.items() if t not in pre]
    return out
def stop_class(b):
    """where the stops' steps and the dials fall between the steps of the loop"""
    k, so, st = b; n = 0; out = []; proc = False
    for o in st:
        if o['t'] == 'srv': n += 1
        elif o['s'] in ('serve', 'stop', 'dial') or o['t'][:1] == 's': out.append((o['s'], o['t'], min(n, 6)))
        elif o['t'][:1] == 'c': proc = True
    return (k, so, tuple(out), proc)
def by_class(r, bs):
    """some schedules of every class, fewer of those that stop before they serve"""
    g = {}
    for b in bs: g.setdefault(stop_class(b), []).append(b)
    out = []
    for key, l in g.items():
        first = [o[0] for o in key[2] if o[0] in ('serve', 'stop')][0]
        n = 12 if THOROUGH else 1
        if first == 'stop' and not THOROUGH and r.random() < 0.85: continue
        out += r.sample(l, min(len(l), n))
    return g, out
def gated(st):
    return [S('gate')] + [S(o['s'], t=o['t'], c=o['c'], mode=o['mode']) for o in st]
def check_P16(c):
    r = rng(c.prop)
    bs = sv_design(c, ['stop', 'two', 'live_sv', 'live_nb', 'live2'])
    bs = [b for b in maximal(bs) if any(o['s'] == 'stop' for o in b[2])]
    c.count('complete schedules with a stop', len(bs))
    cases = []
    g, bs = by_class(r, bs)
    c.count('classes of schedules', len(g)); c.count('schedules replayed', len(bs))
    for i, (kind, sock, st) in enumerate(bs):
        steps = gated(st)
        if any(o['s'] == 'serve' for o in steps):
            tail = []
            if r.random() < 0.3: tail += [S('open')]
            if r.random() < 0.3: tail += [S('open'), S('stops'), S('ret'), S('port'), S('isst')]
            if r.random() < 0.15:   # another round
                n = max([o['c'] for o in steps] + [0])
                tail += [S('open')] + [S('close', c=a) for a in range(1, n + 1)] + [S('stops'), S('ret'), S('serve'), S('sleep', n=100), S('dial', c=n + 1), S('send', c=n + 1, mode='ok'), S('await', c=n + 1, n=1), S('isst'), S('stop'), S('send', c=n + 1, mode='ok'), S('ret'), S('isst')]
            steps += tail
        cases.append(srvcase('%s-g%d' % (c.prop, i), kind, sock, steps, ctor=r.randrange(6)))
    i = 0
    for kind in ('simple', 'nb'):
        for sock in ('sv', 'nb'):
            for rep in range(400 if THOROUGH else 50):   # stops at any moment, clients of all sorts
                i += 1; n = r.randrange(0, 6); steps = [S('serve')]
                for a in range(1, n + 1): steps.append(S('busy', c=a, n=r.randrange(0, 7), mode=r.choice(['', '', 'dec', 'err', 'terr'])))
                steps.append(S('sleep', n=r.choice([0, 1, 3, 10, 30, 100, 300])))
                for _ in range(r.choice([1, 1, 2, 3])): steps.append(S('stop'))
                steps += [S('join'), S('stops'), S('ret'), S('port'), S('isst')]
                if r.random() < 0.4:
                    steps += [S('serve'), S('sleep', n=r.randrange(40)), S('dial', c=n + 1), S('send', c=n + 1, mode='ok'), S('await', c=n + 1, n=1), S('stop'), S('send', c=n + 1, mode='ok'), S('ret'), S('dial', c=n + 2), S('port')]
                cases.append(srvcase('%s-f%d' % (c.prop, i), kind, sock, steps, ctor=r.randrange(6)))
            for idle in (0, 1, 2):      # clients that wait, in the middle of a request too
                for how in ('idle', 'part', 'held'):
                    i += 1; steps = [S('serve')]
                    for a in range(1, idle + 1):
                        steps += [S('dial', c=a), S('send', c=a, mode='ok'), S('await', c=a, n=1)] if kind == 'nb' or a == 1 else [S('dial', c=a)]
                        if how == 'part': steps += [S('part', c=a)]
                    if how == 'held' and idle: steps += [S('open', c=1), S('send', c=1, mode='ok'), S('sleep', n=50)]
                    steps += [S('isst'), S('stop'), S('stops'), S('isst')]
                    if how == 'held': steps += [S('sleep', n=50), S('open')]
                    if how == 'idle' and idle and kind == 'simple': steps += [S('send', c=1, mode='ok'), S('send', c=1, mode='ok'), S('send', c=1, mode='ok')]
                    if how == 'part': steps += [S('close', c=a) for a in range(1, idle + 1)]
                    steps += [S('dial', c=idle + 1), S('send', c=idle + 1, mode='ok'), S('ret'), S('port'), S('dial', c=idle + 2)]
                    cases.append(srvcase('%s-w%d' % (c.prop, i), kind, sock, steps, ctor=r.choice([0, 1, 2])))
            i += 1; cases.append(srvcase('%s-b%d' % (c.prop, i), kind, sock, [S('serve'), S('ret'), S('stop'), S('stops')], busy=1))
            i += 1; cases.append(srvcase('%s-b%d' % (c.prop, i), kind, sock, [S('stop'), S('stops'), S('serve'), S('sleep', n=100), S('dial', c=1), S('send', c=1, mode='ok'), S('await', c=1, n=1), S('stop'), S('close', c=1), S('ret'), S('port')]))
    c.cases('ServerTrace', cases, label='stops', driver_kw={'limit_ms': 60000, 'total': 700, 'par': 5}, batch=2500)
MODES = ['ok', 'ok', 'ok', 'ok', 'dec', 'err', 'terr']
def check_P17(c):
    r = rng(c.prop)
    bs = sv_design(c, ['serve', 'two', 'live2'])
    bs = [b for b in maximal(bs) if any(o['s'] == 'send' for o in b[2])]
    c.count('complete schedules with a request', len(bs))
    cases = []
    for i, (kind, sock, st) in enumerate(r.sample(bs, min(len(bs), 30000 if THOROUGH else 2500))):
        steps = gated(st)
        if r.random() < 0.6:
            n = max([o['c'] for o in steps] + [0])
            steps += [S('open'), S('dial', c=n + 1), S('send', c=n + 1, mode='ok'), S('send', c=n + 1, mode=r.choice(MODES))]
            for a in range(1, n + 1):
                if r.random() < 0.5 or kind == 'simple': steps.append(S('close', c=a))
            steps += [S('await', c=n + 1, n=1), S('await', c=n + 1, n=2)]
        cases.append(srvcase('%s-g%d' % (c.prop, i), kind, sock, steps, ctor=r.randrange(6)))
    i = 0
    for kind in ('simple', 'nb'):
        for sock in ('sv', 'nb'):
            for rep in range(300 if THOROUGH else 40):      # crowds
                i += 1; n = r.randrange(1, 13); steps = [S('serve'), S('sleep', n=50)]
                for a in range(1, n + 1):
                    steps.append(S('busy', c=a, n=r.choice([0, 1, 2, 3, 8, 20]), mode=r.choice(['', '', '', 'dec', 'err', 'terr'])))
                    if r.random() < 0.2: steps.append(S('sleep', n=r.randrange(40)))
                steps += [S('join'), S('dial', c=n + 1), S('send', c=n + 1, mode='ok'), S('await', c=n + 1, n=1), S('close', c=n + 1)]
                cases.append(srvcase('%s-c%d' % (c.prop, i), kind, sock, steps, ctor=r.randrange(6)))
            for rep in range(400 if THOROUGH else 60):      # one thread plays all clients
                i += 1; steps = [S('serve'), S('sleep', n=50)]; n = 0; live = []; sent = {}; waited = {}; over = set(); held = 0
                for _ in range(r.randrange(4, 30)):
                    x = r.random()
                    if x < 0.2 and n < 8 or not live:
                        if n >= 8: break
                        n += 1; live.append(n); sent[n] = []; waited[n] = 0; steps.append(S('dial', c=n))
                    elif x < 0.6:
                        a = r.choice(live); m = r.choice(MODES); sent[a].append(m); steps.append(S('send', c=a, mode=m))
                    elif x < 0.8:
                        ok = [a for a in live if a != held and waited[a] < len(sent[a]) and (kind == 'nb' or a == live[0]) and all(m == 'ok' for m in sent[a][:-1]) and sent[a][-1] != 'err']
                        if held and kind == 'simple': ok = []
                        if ok:
                            a = r.choice(ok); k = len(sent[a])
                            steps.append(S('await', c=a, n=k)); waited[a] = k
                            if sent[a][-1] != 'ok': steps += [S('aweof', c=a), S('close', c=a)]; live.remove(a)
                    elif x < 0.87:
                        a = r.choice(live); steps.append(S('close', c=a)); live.remove(a)
                        if a == held: steps.append(S('open')); held = 0
                    elif x < 0.93:
                        a = r.choice(live); held = 0 if held else a; steps.append(S('open', c=held))
                    elif kind == 'nb':
                        a = r.choice(live)
                        if a != held: steps.append(S('part', c=a)); live.remove(a)     # stuck from now on
                if held: steps.append(S('open'))
                for a in list(range(1, n + 1)) if kind == 'simple' else []: steps.append(S('close', c=a))
                steps += [S('dial', c=n + 1), S('send', c=n + 1, mode='ok'), S('await', c=n + 1, n=1)]
                cases.append(srvcase('%s-s%d' % (c.prop, i), kind, sock, steps, ctor=r.randrange(6)))
            if kind == 'nb':    # many connections at once, idle or stuck
                for n in (70, 200) if not THOROUGH else (70, 200, 600):
                    i += 1; steps = [S('serve'), S('sleep', n=50)]
                    for a in range(1, n + 1): steps += [S('dial', c=a), [S('send', c=a, mode='ok'), S('part', c=a)][a % 2]] + ([S('await', c=a, n=1)] if a % 2 == 0 else [])
                    steps += [S('send', c=2, mode='ok'), S('await', c=2, n=2)]
                    cases.append(srvcase('%s-m%d' % (c.prop, i), kind, sock, steps))
            for ctor in range(6):
                i += 1
                cases.append(srvcase('%s-k%d' % (c.prop, i), kind, sock, [S('serve'), S('sleep', n=50)]
                             + sum([[S('dial', c=a), S('send', c=a, mode='ok'), S('await', c=a, n=1), S('send', c=a, mode='ok'), S('send', c=a, mode=['dec', 'err', 'terr'][a - 1]), S('aweof', c=a), S('close', c=a)] for a in (1, 2, 3)], []), ctor=ctor))
    c.cases('ServerTrace', cases, label='connections', driver_kw={'limit_ms': 60000, 'total': 700, 'par': 5}, batch=2500)
