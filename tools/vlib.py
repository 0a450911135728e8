"""Shared machinery of the checks: builds the driver against /repo's working
tree, runs it on cases, runs TLC, and turns disagreements into verdicts."""
import json, os, re, shutil, subprocess, sys, tempfile, time, atexit, hashlib, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
SPEC = os.path.join(VERIF, 'spec')
GOROOT = '/opt/veriftools/go1.27.3'
JAR = '/opt/veriftools/tla'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'

class CheckError(Exception):
    pass

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vh-', dir=os.environ.get('VERIF_TMP', '/tmp'))
        atexit.register(_cleanup)
    return _scratch
def _cleanup():
    if _scratch and os.path.isdir(_scratch) and os.path.basename(_scratch).startswith('vh-'):
        subprocess.run(['chmod', '-R', 'u+w', _scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(_scratch, ignore_errors=True)
def _term(sig, frame):
    sys.exit(2)
signal.signal(signal.SIGTERM, _term)

def go_env():
    s = scratch()
    cache = os.environ.get('VERIF_GOCACHE')
    if not cache:
        cache = os.path.join(s, 'gocache')
        if not os.path.isdir(cache):
            seedc = '/opt/vp/gocache'
            if os.path.isdir(seedc):
                subprocess.run(['cp', '-r', '--reflink=auto', seedc, cache], check=False)
            os.makedirs(cache, exist_ok=True)
    gp = os.path.join(s, 'gopath')
    simple = os.path.join(gp, 'src', 'simple')
    if not os.path.isdir(simple):
        os.makedirs(simple)
        g = os.path.join(REPO, 'tests/generation/golden/gen-go/simple')
        if os.path.isdir(g):
            for f in os.listdir(g):
                if f.endswith('.go'):
                    os.symlink(os.path.join(g, f), os.path.join(simple, f))
    e = dict(os.environ)
    e.update(GOENV='off', GOROOT=GOROOT, GOTOOLCHAIN='local', GO111MODULE='off', GOPROXY='off',
             GOFLAGS='', GOWORK='off', GOCACHE=cache, GOTMPDIR=s,
             GOPATH=':'.join([os.path.join(REPO, 'lib/go'), os.path.join(VERIF, 'harness'), gp]),
             PATH=GOROOT + '/bin:' + e.get('PATH', '/usr/bin:/bin'))
    e.setdefault('HOME', '/root')
    return e

_bins = {}
def build(pkg='vh', race=False):
    key = (pkg, race)
    if key in _bins:
        return _bins[key]
    out = os.path.join(scratch(), pkg.replace('/', '_') + ('_race' if race else ''))
    e = go_env()
    cmd = ['go', 'build', '-o', out]
    if race:
        cmd.append('-race')
    t = time.time()
    p = subprocess.run(cmd + [pkg], env=e, cwd=scratch(), capture_output=True, text=True)
    if p.returncode != 0:
        raise CheckError('build of %s failed:\n%s' % (pkg, p.stderr[-4000:]))
    log('built %s in %.1fs' % (pkg, time.time() - t))
    _bins[key] = out
    return out

T0 = time.time()
def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)

def run_driver(cases, pkg='vh', limit_ms=20000, env=None, total=600, race=False, args=(), par=1, tag=''):
    """Run cases through the driver; returns {id: recorded}.  A case that kills
    the process is answered with {'crash': ...}."""
    exe = build(pkg, race)
    if par > 1 and len(cases) > 4 * par:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(par) as ex:
            fs = [ex.submit(run_driver, cases[k::par], pkg, limit_ms, env, total, race, args, 1, str(k)) for k in range(par)]
            res = {}
            for f in fs: res.update(f.result())
        return res
    res = {}
    todo = list(cases)
    e = dict(os.environ); e['VH_LIMIT_MS'] = str(limit_ms)
    e.setdefault('GOMEMLIMIT', '6GiB')
    if env: e.update(env)
    end = time.time() + total
    restarts = hangs = 0
    while todo:
        fin = os.path.join(scratch(), 'in%s.ndjson' % tag); fout = os.path.join(scratch(), 'out%s.ndjson' % tag)
        with open(fin, 'w') as f:
            for c in todo: f.write(json.dumps(c, separators=(',', ':')) + '\n')
        with open(fin) as i, open(fout, 'w') as o:
            try:
                p = subprocess.run([exe] + list(args), stdin=i, stdout=o, stderr=subprocess.PIPE, env=e,
                                   cwd=scratch(), timeout=max(5, end - time.time()))
                rc, err = p.returncode, p.stderr.decode('utf8', 'replace')
            except subprocess.TimeoutExpired as x:
                raise CheckError('driver exceeded %ds' % total)
        done = 0
        with open(fout) as f:
            for line in f:
                try: m = json.loads(line)
                except ValueError: break
                res[m['id']] = m; done += 1
        if rc == 0:
            if done != len(todo):
                raise CheckError('driver answered %d of %d cases' % (done, len(todo)))
            break
        if rc in (3, 4):
            raise CheckError('driver: ' + err[-3000:])
        restarts += 1
        if rc == 7: hangs += 1
        if rc != 7:
            c = todo[done]
            res[c['id']] = {'id': c['id'], 'crash': err[-1500:], 'rc': rc}
            done += 1
        todo = todo[done:]
        if restarts > 8 or hangs * limit_ms >= 40000:
            log('too many crashes/hangs; %d cases not run' % len(todo))
            break
    return res

class TLCResult:
    pass

def tlc(module, cfg=None, env=None, workers=8, mem='4g', timeout=800, extra=(), expect_ok=True, simulate=None, deque=False, coverage=False):
    """Run TLC on spec/<module>.tla."""
    meta = tempfile.mkdtemp(prefix='tlc-', dir=scratch())
    e = dict(os.environ)
    if env: e.update({k: str(v) for k, v in env.items()})
    cmd = ['java', '-Xmx' + mem, '-XX:+UseParallelGC', '-Xss16m', '-Djava.io.tmpdir=' + meta]
    if deque: cmd.append('-Dtlc2.tool.queue.IStateQueue=StateDeque')
    cmd += ['-cp', ':'.join([JAR + '/tla2tools.jar', JAR + '/CommunityModules-deps.jar', JAR + '/CommunityModules.jar']),
            'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE', '-workers', str(workers),
            '-config', (cfg or module) + '.cfg']
    if simulate: cmd += ['-simulate', simulate]
    if coverage: cmd += ['-coverage', '1']
    cmd += list(extra) + [module + '.tla']
    t = time.time()
    fo = os.path.join(meta, 'stdout')
    with open(fo, 'w') as f:
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC on %s exceeded %ds' % (module, timeout))
    with open(fo, errors='replace') as f:
        out = ''.join(l for l in f if not l.startswith(('Parsing file', 'Semantic processing')))
    r = TLCResult(); r.out = out; r.rc = p.returncode; r.wall = time.time() - t
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    if not m:
        m = re.findall(r'The number of states generated: (\d+)', out)
        if m: r.generated = r.distinct = int(m[-1])
    shutil.rmtree(meta, ignore_errors=True)
    if expect_ok and r.rc != 0:
        raise CheckError('TLC on %s failed (rc %d):\n%s' % (module, r.rc, out[-4000:]))
    log('TLC %s/%s: %d states, %.1fs' % (module, cfg or module, r.distinct, r.wall))
    return r

def validate(module, recs, env=None, cfg=None, batch=4000, **kw):
    """Validate recorded cases with a CaseTrace-based trace specification.
    Returns (list of (index, event number, wanted)), states, generated."""
    bad = []; st = gen = 0
    for b in range(0, len(recs), batch):
        part = recs[b:b + batch]
        fn = os.path.join(scratch(), 'cases.ndjson')
        with open(fn, 'w') as f:
            for c in part: f.write(json.dumps(c, separators=(',', ':')) + '\n')
        e = dict(env or {}); e['CASES'] = fn
        r = tlc(module, cfg=cfg, env=e, **kw)
        verdict = {}; want = {}
        for m in re.finditer(r'<<"CASE", (\d+), "(\w+)", (\d+)>>', r.out):
            verdict[int(m[1])] = (m[2], int(m[3]))
        for m in re.finditer(r'<<"WANT", (\d+), (\d+), (.*?)>>\s*(?=\n|$)', r.out, re.S):
            want.setdefault(int(m[1]), m[3][:500])
        if len(verdict) != len(part):
            raise CheckError('TLC decided %d of %d cases\n%s' % (len(verdict), len(part), r.out[-2000:]))
        for i in range(1, len(part) + 1):
            if verdict[i][0] != 'ok': bad.append((b + i - 1, verdict[i][1], want.get(i, '?')))
        st += r.distinct; gen += r.generated
    return bad, st, gen

def scripts(r):
    """the behaviours a specification printed (PrintT("SCRIPT " \\o ToJson(..)))"""
    out = []
    for l in r.out.split('\n'):
        l = l.strip()
        if l.startswith('"SCRIPT '):
            out.append(json.loads(json.loads(l)[7:]))
        elif l.startswith('SCRIPT '):
            out.append(json.loads(l[7:]))
    return out

class Known:
    """known_findings.txt: lines
         finding: property=<id> key=<key> <what fails>
         fixed: property=<id> <commit> <what failed>
       key identifies one failing input, call site or history."""
    def __init__(self):
        self.keys = {}
        fn = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(fn):
            for line in open(fn):
                m = re.match(r'finding: property=(\w+) key=(\S+) (.*)', line.strip())
                if m: self.keys.setdefault(m[1], {})[m[2]] = m[3]

class Check:
    def __init__(self, prop):
        self.prop = prop; self.t0 = time.time()
        self.states = 0; self.transitions = 0; self.traces = 0
        self.samples = []; self.notes = {}; self.assumptions = []
        self.violations = []; self.known_hit = {}
        self.known = Known().keys.get(prop, {})
        self.kinds = {}
    def add_tlc(self, r):
        self.states += r.distinct; self.transitions += r.generated
    def count(self, what, n=1):
        self.kinds[what] = self.kinds.get(what, 0) + n
    def sample(self, s):
        if len(self.samples) < 4: self.samples.append(s)
    def violation(self, what, replay, key=None):
        """Report a confirmed disagreement of the real code."""
        if key is not None and key in self.known:
            if key not in self.known_hit:
                self.known_hit[key] = what
                print('KNOWN-FINDING: property=%s %s' % (self.prop, self.known[key]), flush=True)
            return
        d = os.path.join(EVID, 'replay'); os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(json.dumps(replay, sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(d, '%s-%s.json' % (self.prop, h))
        if path in [v[1] for v in self.violations]: return
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'what': what, 'replay': replay}, f, indent=1, default=str)
        self.violations.append((what, path))
        if len(self.violations) <= 5:
            print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)
            print('  ' + what[:1500], flush=True)
    def cases(self, module, cases, driver_kw=None, cfg=None, keyf=None, describe=None, prepare=None, confirm=2, label='', pkg='vh', **kw):
        """Run cases on the real code, validate the records against the trace
        specification, re-run the disagreeing ones, report those that persist."""
        if not cases: return {}
        if self.violations and time.time() - self.t0 > 240:
            log('violations found and time spent; %d further cases not run' % len(cases)); return {}
        driver_kw = driver_kw or {}
        byid = {c['id']: c for c in cases}
        if len(byid) != len(cases): raise CheckError('duplicate case ids')
        def once(cs):
            res = run_driver(cs, pkg=pkg, **driver_kw)
            recs = []; bad = {}
            for c in cs:
                m = res.get(c['id'])
                if m is None: continue
                if 'crash' in m:
                    bad[c['id']] = ('the process died: ' + m['crash'][-600:], m); continue
                if m.get('skipped'): continue
                x = prepare(c, m) if prepare else m
                if x is not None: recs.append(x)
            b, st, gen = validate(module, recs, cfg=cfg, **kw) if recs else ([], 0, 0)
            for i, ev, want in b:
                m = recs[i]
                ops = m.get('ops', [])
                got = ops[ev - 1] if ev - 1 < len(ops) else 'end of the history'
                bad[m['id']] = ('event %d of %s: the code did %s; the specification requires %s'
                                % (ev, m['id'], json.dumps(got)[:500], want), m)
            return recs, bad, st, gen
        recs, bad, st, gen = once(cases)
        self.states += st; self.transitions += gen; self.traces += len(recs)
        for m in recs:
            for o in m.get('ops', []):
                if 'o' in o: self.count(o['o'] + ('/err' if o.get('e') else ''))
        if recs:
            m = recs[len(recs) // 2]
            self.sample({'case': m['id'], 'label': label, 'ops': len(m.get('ops', [])), 'events': json.dumps(m.get('ops', [])[:6])[:700]})
        # confirmation: the same case must disagree again, on its own
        if bad:
            log('%d disagreements; confirming' % len(bad))
            if os.environ.get('VERIF_DEBUG'):
                with open('/tmp/bad.json', 'w') as f: json.dump({i: [w, m] for i, (w, m) in bad.items()}, f, default=str)
            ids = list(bad)
            if len(ids) > 40: ids = sorted(ids, key=lambda i: "hang" in bad[i][0] or chr(34)+"e"+chr(34)+": 3" in bad[i][0])[:40]
            if time.time() - self.t0 > 150: ids = ids[:8]
            keep = dict((i, bad[i]) for i in ids)
            for _ in range(confirm):
                _, b2, _, _ = once([byid[i] for i in keep])
                keep = {i: v for i, v in keep.items() if i in b2}
                if not keep: break
            for i, (what, m) in keep.items():
                if describe: what = describe(byid[i], m, what)
                self.violation(what, {'case': byid[i], 'recorded': m, 'module': module}, keyf(byid[i], m, what) if keyf else None)
            if not keep: log('none persisted')
            self.notes['unconfirmed'] = self.notes.get('unconfirmed', 0) + len(ids) - len(keep)
        return {m['id']: m for m in recs}
    def finish(self, level='model_checking', note=''):
        ev = {'property': self.prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': level,
              'coverage': {'states': self.states, 'transitions': self.transitions,
                           'traces_validated_against_impl': self.traces,
                           'events_by_kind': self.kinds, 'samples': self.samples, **self.notes},
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 1),
              'violations': len(self.violations)}
        d = EVID; os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        stale = [k for k in self.known if k not in self.known_hit]
        if stale: log('known findings not seen this run:', stale)
        log('%s: %d states, %d traces, %d violations' % (self.prop, self.states, self.traces, len(self.violations)))
        sys.exit(1 if self.violations else 0)
