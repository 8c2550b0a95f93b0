"""Shared machinery of the checks: builds, TLC runs, trace judging, evidence."""
import concurrent.futures as cf
import fcntl, json, os, re, shutil, subprocess, sys, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = os.cpu_count() or 4


class ToolError(Exception):
    """The check itself could not be carried out (exit 2)."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


class Ctx:
    """One run of one check."""
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        self.work = os.path.join(VERIF, 'work', prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events_validated=0,
                        behaviours_generated=0, models=[], runs=[], event_kinds={}, samples=[])
        self.assumptions = []
        self.n = 0

    def log(self, *a):
        print('[%s %6.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    def elapsed(self):
        return time.time() - self.t0

    def dir(self, name):
        d = os.path.join(self.work, name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        return d

    # ------------------------------------------------------------------ builds
    def build(self, binname, hooks=False, plain=False):
        """plain: as users build it, without debug assertions and overflow checks"""
        tgt = os.path.join(BUILD, 'target-hooks' if hooks else 'target-plain' if plain else 'target')
        os.makedirs(tgt, exist_ok=True)
        env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable')
        env.pop('RUSTFLAGS', None)
        env['RUSTFLAGS'] = '-Awarnings' + (' --cfg gaoya_verif' if hooks else '')
        if plain:
            env.update(CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS='false', CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS='false')
        cmd = ['cargo', 'build', '--release', '--offline', '--bin', binname]
        with open(os.path.join(BUILD, 'lock-' + os.path.basename(tgt)), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            r = subprocess.run(cmd, cwd=os.path.join(VERIF, 'harness'), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 and hooks:
            self.log('the instrumented build fails, threads run freely instead:\n' + r.stdout[-1500:])
            self.assumptions.append('the instrumented atomics could not be compiled in: free running threads instead of chosen interleavings')
            return self.build(binname)
        if r.returncode != 0:
            raise ToolError('harness does not build:\n' + r.stdout[-4000:])
        self.log('built', binname, 'with hooks' if hooks else 'plain' if plain else '')
        return os.path.join(tgt, 'release', binname)

    def build_py(self):
        """The Python package as a user would install it: the extension built from /repo, with the .py files beside it."""
        tgt = os.path.join(BUILD, 'target-py')
        os.makedirs(tgt, exist_ok=True)
        env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable', PYO3_PYTHON='/usr/bin/python3', RUSTFLAGS='-Awarnings')
        with open(os.path.join(BUILD, 'lock-target-py'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            r = subprocess.run(['cargo', 'build', '--release', '--offline', '-p', 'pygaoya'], cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError('the Python extension does not build:\n' + r.stdout[-4000:])
        pkg = self.dir('pkg')
        shutil.copytree(os.path.join(REPO, 'py-gaoya', 'gaoya'), os.path.join(pkg, 'gaoya'), ignore=shutil.ignore_patterns('*.so', '__pycache__'))
        shutil.copy(os.path.join(tgt, 'release', 'libgaoya.so'), os.path.join(pkg, 'gaoya', 'gaoya.abi3.so'))
        self.log('built the Python package')
        return pkg

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, extra=(), env=None, timeout=800, workers=1, xmx='3g'):
        self.n += 1
        meta = os.path.join(self.work, 'tlc%d_%s' % (self.n, re.sub(r'\W', '_', os.path.basename(cfg))))
        shutil.rmtree(meta, ignore_errors=True)
        os.makedirs(meta)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-Djava.io.tmpdir=' + meta, '-Xss32m', '-Xmx' + xmx, '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-cp', JARS, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-config', cfg] + list(extra) + [module + '.tla']
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError('TLC timed out on %s %s' % (module, cfg))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout

    @staticmethod
    def counts(out):
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        return (int(m[-1][1]), int(m[-1][0])) if m else (0, 0)

    def model(self, module, cfg, expect=None, workers=None, timeout=800, note='', xmx='8g'):
        """Exhaustive model check.  expect: None = must hold; otherwise the name of the invariant or
        property that has to fail (vacuity control of the specification)."""
        rc, out = self.tlc(module, cfg, workers=workers or CORES, timeout=timeout, xmx=xmx)
        d, g = self.counts(out)
        if expect is None:
            if rc != 0 or 'No error has been found' not in out:
                raise ToolError('the specification %s/%s is not satisfied:\n%s' % (module, cfg, out[-3000:]))
            self.cov['states'] += d
            self.cov['transitions'] += g
            self.cov['models'].append(dict(module=module, cfg=cfg, distinct_states=d, states_generated=g, result='holds', note=note))
        else:
            m = re.findall(r'(?:Invariant|Action property|Temporal property|property) (\w+)(?: of module \w+)? (?:is|was) violated|(Temporal properties were violated)|(Deadlock reached)', out)
            got = [x for t in m for x in t if x]
            if not any(expect in x for x in got):
                raise ToolError('control %s/%s should violate %s but: %s\n%s' % (module, cfg, expect, got, out[-1500:]))
            self.cov['models'].append(dict(module=module, cfg=cfg, distinct_states=d, states_generated=g, result='violated as intended: ' + expect, note=note))
        self.log('model', module, cfg, '%d distinct states' % d, 'ok' if expect is None else 'control ok')

    def models(self, *specs):
        """Several small models at the same time, each with few workers."""
        with cf.ThreadPoolExecutor(max_workers=min(4, len(specs))) as ex:
            for f in [ex.submit(self.model, *s[0:2], **dict(dict(workers=2), **(s[2] if len(s) > 2 else {}))) for s in specs]:
                f.result()

    def behaviours(self, module, cfg, simulate=None, depth=None, tag='BEHAVIOUR', limit=None, dst=None, workers=1):
        """Behaviours printed by TLC, as JSON objects; written to a file for the driver."""
        extra = []
        if simulate:
            extra = ['-simulate', 'num=%d' % simulate, '-depth', str(depth), '-seed', str(self.seed)]
        rc, out = self.tlc(module, cfg, extra=extra, workers=workers, xmx='6g')
        res = []
        for m in re.finditer(r'<<\s*"%s",\s*("(?:[^"\\]|\\.)*")\s*>>' % tag, out):
            res.append(json.loads(json.loads(m.group(1))))
        if rc != 0 or not res:
            raise ToolError('no behaviours from %s %s (rc %s)\n%s' % (module, cfg, rc, out[-2000:]))
        total = len(res)
        if limit and len(res) > limit:      # a deterministic, evenly spread selection that depends on the seed
            key = lambda b: hashlib.md5((str(self.seed) + json.dumps(b, sort_keys=True)).encode()).digest()
            res = sorted(res, key=key)[:limit]
        d, g = self.counts(out)
        self.cov['behaviours_generated'] += total
        self.cov['models'].append(dict(module=module, cfg=cfg, distinct_states=d, states_generated=g, result='%d behaviours generated, %d replayed into the code' % (total, len(res)),
                                       mode='simulate' if simulate else 'exhaustive'))
        self.cov['states'] += d
        self.cov['transitions'] += g
        self.log('behaviours', module, cfg, total, '->', len(res))
        if dst is None:
            dst = os.path.join(self.work, 'script_%s_%d.ndjson' % (module, self.n))
        with open(dst, 'a') as f:
            for b in res:
                f.write(json.dumps(b) + '\n')
        return dst

    # ------------------------------------------------------------------ driving the code
    def drive(self, cmd, out, timeout=600, env=None, need=()):
        """Runs a driver that writes trace*.ndjson and summary.json into `out`."""
        e = dict(os.environ)
        e.update(env or {})
        self.log('drive', ' '.join(os.path.basename(str(c)) if i == 0 else str(c) for i, c in enumerate(cmd)))
        log = os.path.join(out, 'driver.log')
        with open(log, 'w') as lf:
            try:
                r = subprocess.run([str(c) for c in cmd], env=e, stdout=lf, stderr=subprocess.STDOUT, timeout=timeout)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
        tail = open(log, errors='replace').read()[-3000:]
        if rc == 'timeout':
            raise ToolError('driver timed out: %s\n%s' % (cmd, tail))
        if rc in (-6, -4, -8, -11, -7):
            rp = self.replay_file(dict(property=self.prop, what='the process running the code crashed with signal %d' % -rc, cmd=[str(c) for c in cmd], output=tail))
            raise Violation('the process running the code crashed with signal %d' % -rc, rp)
        if rc != 0:
            raise ToolError('driver failed (%s): %s\n%s' % (rc, cmd, tail))
        s = json.load(open(os.path.join(out, 'summary.json')))
        for k in need:
            if not s['kinds'].get(k) and not s['kinds'].get('panic'):
                raise ToolError('driver produced no %s event: %s' % (k, s))
        for k, v in s['kinds'].items():
            self.cov['event_kinds'][k] = self.cov['event_kinds'].get(k, 0) + v
        self.cov['runs'].append(dict(cmd=' '.join(os.path.basename(str(c)) if i == 0 else str(c).replace(VERIF + '/', '') for i, c in enumerate(cmd)), **{k: v for k, v in s.items() if k != 'kinds'}))
        return s

    def miri(self, kind, numbers, seeds, out):
        """Sessions recorded inside Miri (crate miri/): every seed is another schedule in Rust's memory model. Data races and
        accesses to released memory become events of their own. Where Miri cannot run the code, nothing is recorded."""
        tgt = os.path.join(BUILD, 'target-miri')
        os.makedirs(tgt, exist_ok=True)
        sessions, skipped = {}, ''
        begin, most = time.time(), 240 if self.tier == 'quick' else 3600
        with open(os.path.join(BUILD, 'lock-target-miri'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            for k in numbers:
                first = self.seed * 1000 % 100000
                env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='nightly', RUSTFLAGS='-Awarnings',
                           MIRIFLAGS='-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-preemption-rate=0.1 '
                                     '-Zmiri-many-seeds=%d..%d -Zmiri-many-seeds-keep-going' % (first, first + seeds))
                log = os.path.join(out, 'miri%d.log' % k)
                with open(log, 'w') as lf:
                    try:
                        r = subprocess.run(['cargo', 'miri', 'run', '--offline', '-q', '--', kind, str(k)], cwd=os.path.join(VERIF, 'miri'), env=env,
                                           stdout=subprocess.PIPE, stderr=lf, text=True, timeout=max(1, begin + most - time.time()))
                    except (subprocess.TimeoutExpired, OSError) as x:
                        skipped = 'Miri did not finish: ' + str(x)[:200]
                        break
                err = open(log, errors='replace').read()
                for line in r.stdout.splitlines():
                    try:
                        sessions[line] = json.loads(line)
                    except ValueError:
                        pass
                ub = [m for m in re.findall(r'error: Undefined Behavior: (.*)', err) if re.search(r'[Dd]ata race|has been freed|dangling', m)]
                for m in ub[:3]:
                    sessions[m] = [dict(op='race', what=m[:300])]
                if r.returncode != 0 and not ub and not r.stdout.strip():
                    skipped = 'Miri could not run the code: ' + err[-300:]
                    break
        if skipped:
            self.log(skipped)
            self.assumptions.append('part of the schedules in the weak memory model was not explored: ' + skipped)
        if not sessions:
            return False
        ls = list(sessions.values())
        heads = [s for s in ls if s[0]['op'] != 'race']
        for s in ls:        # a race belongs to the kind of session in which it was found
            if s[0]['op'] == 'race':
                s.insert(0, heads[0][0] if heads else dict(op='new', tab=False, b=1, r=1, need=1, thr='0', w=64, nb=3, k=1, pool=[[0]], match=[], share=[], band=[], dist=[]))
        with open(os.path.join(out, 'trace0.ndjson'), 'w') as f:
            for s in ls:
                for e in s:
                    f.write(json.dumps(e) + '\n')
        n = sum(len(s) for s in ls)
        json.dump(dict(sessions=len(ls), events=n), open(os.path.join(out, 'summary.json'), 'w'))
        self.cov['runs'].append(dict(cmd='miri %s %s, %d schedules each' % (kind, list(numbers), seeds), sessions=len(ls), events=n))
        self.log('miri', kind, len(list(numbers)), 'x', seeds, 'schedules,', len(ls), 'different sessions')
        return True

    def replay_file(self, obj):
        d = os.path.join(VERIF, 'work', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s.json' % self.prop)
        with open(p, 'w') as f:
            json.dump(obj, f, indent=1)
        return p

    def judge(self, module, out, cmd=(), cfg='Trace.cfg', start='new', xmx='3g', timeout=800, twin=None):
        """TLC decides whether every recorded session is a behaviour of the specification."""
        files = sorted(os.path.join(out, f) for f in os.listdir(out) if f.startswith('trace') and f.endswith('.ndjson'))
        if not files:
            raise ToolError('no traces in ' + out)

        def one(f):
            return f, self.tlc(module, cfg, env=dict(TRACE_FILE=f, PROP=self.prop, TWIN_FILE=os.path.join(twin, os.path.basename(f)) if twin else f), xmx=xmx, timeout=timeout)
        bad = []
        states = trans = 0
        with cf.ThreadPoolExecutor(max_workers=CORES) as ex:
            for f, (rc, o) in ex.map(one, files):
                d, g = self.counts(o)
                n = sum(1 for _ in open(f))
                rej = re.findall(r'<<\s*"REJECT",\s*(\d+),\s*(.*?)\s*>>', o, re.S)
                if rc == 0 and 'No error has been found' in o and not rej and d == n + 1:
                    states += d
                    trans += g
                    continue
                if rej:
                    bad.append((f, int(rej[-1][0]), rej[-1][1]))
                    continue
                if (rc in (12, 75, 10, 11) or 'Overflow when computing' in o) and 1 <= d <= n and 'Semantic errors' not in o and not re.search(r'OutOfMemory|StackOverflow|Parsing or semantic', o):
                    # an observation outside the domain of the specification (e.g. a result of the wrong shape)
                    m = re.search(r'Error: (.*?)\n(?:Error|The error occurred|\d+ states)', o, re.S)
                    bad.append((f, d, 'not an observation the specification can make: ' + (m.group(1)[:300] if m else o[-300:])))
                    continue
                raise ToolError('trace judge %s failed on %s (rc %s):\n%s' % (module, f, rc, o[-3000:]))
        if bad:
            f, line, what = bad[0]
            lines = open(f).read().splitlines()
            i = line - 1
            while i > 0 and json.loads(lines[i]).get('op') != start:
                i -= 1
            sess = [json.loads(x) for x in lines[i:line]]
            rp = self.replay_file(dict(property=self.prop, what=what, specification='spec/%s.tla' % module, rejected_line=line, trace=f,
                                       seed=self.seed, reproduce=[str(c) for c in cmd], history=sess,
                                       other_rejections=[(os.path.basename(b[0]), b[1], b[2]) for b in bad[1:]]))
            raise Violation('%s: line %d of %s: %s  -- observed %s' % (module, line, f, what, json.dumps(sess[-1])[:600]), rp)
        s = json.load(open(os.path.join(out, 'summary.json')))
        self.cov['states'] += states
        self.cov['transitions'] += trans
        self.cov['traces_validated_against_impl'] += s['sessions']
        self.cov['events_validated'] += s['events']
        if len(self.cov['samples']) < 2:
            lines = open(files[0]).read().splitlines()
            first = []
            for x in lines:
                if first and json.loads(x).get('op') == start:
                    break
                first.append(x)
            self.cov['samples'].append(dict(judged_by='spec/%s.tla' % module, session=[json.loads(x) if len(x) <= 1500 else x[:400] + ' ... (%d characters)' % len(x) for x in first[:12]]))
        self.log('judged', module, s['sessions'], 'sessions', s['events'], 'events')

    # ------------------------------------------------------------------ result
    def evidence(self, violations):
        c = dict(self.cov)
        c.setdefault('rule', '')
        if not c['samples']:
            c['samples'] = [m for m in c['models'][:2]] or ['none']
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking', coverage=c,
                  assumptions=self.assumptions, wall_s=round(self.elapsed(), 2), violations=violations)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)


def known_findings(prop):
    res = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                res.append(line[len('finding: '):])
    return res


def main(checks):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    a = ap.parse_args()
    if a.prop not in checks:
        print('unknown property', a.prop)
        return 2
    ctx = Ctx(a.prop, a.tier, a.seed)
    try:
        checks[a.prop](ctx)
    except Violation as v:
        ctx.log('VIOLATED:', v.what)
        ctx.evidence(1)
        print('VIOLATION property=%s replay=%s' % (a.prop, v.replay), flush=True)
        return 1
    except ToolError as e:
        ctx.log('TOOL ERROR:', e)
        return 2
    for k in known_findings(a.prop):
        print('KNOWN-FINDING:', k)
    ctx.evidence(0)
    ctx.log('held: %d traces, %d events, %d model states' % (ctx.cov['traces_validated_against_impl'], ctx.cov['events_validated'], ctx.cov['states']))
    for d in os.listdir(ctx.work):      # traces can be large; the replay of a violation is kept elsewhere
        shutil.rmtree(os.path.join(ctx.work, d), ignore_errors=True)
    return 0
