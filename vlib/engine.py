"""Bounded exhaustive exploration engine.

A check module (checks/cXX.py) defines

    PID      property id
    FAMILIES list of Family objects; each yields *cases* (JSON-serialisable, simplest first) for a tier and
             runs one case against the real code of /repo, comparing with a reference model.

The engine runs every case of every family (never a sample), on all cores, counts the distinct states and the
transitions reported by the runners, and turns the first counterexamples into replay files.
"""
import base64, hashlib, importlib, itertools, json, multiprocessing as mp, os, pickle, shutil, signal, sys, tempfile, time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


class Violation(Exception):
    """The property does not hold for this case."""
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class CaseTimeout(BaseException):
    pass


class Ctx:
    """Per-worker recorder: states, transitions, outcomes; and a scratch directory."""
    def __init__(self, scratch):
        self.scratch = scratch
        self.reset()

    def reset(self):
        self.states = set()
        self.transitions = 0
        self.outcomes = set()
        self.known = {}
        self.executions = 0

    def state(self, *key):
        """Record a visited (canonical) state; returns True if new in this batch."""
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        new = h not in self.states
        self.states.add(h)
        return new

    def step(self, n=1):
        self.transitions += n

    def outcome(self, *key):
        self.outcomes.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def execution(self, n=1):
        """A complete execution of the implementation compared with the model beyond the case itself."""
        self.executions += n

    def finding(self, key, msg):
        """A recorded genuine defect (listed in KNOWN_FINDINGS.txt): reported, not raised."""
        raise Violation(msg, key=key)


class Family:
    def __init__(self, name, gen, run, desc='', chunk=None, timeout=120, parallel=True, tiers=('quick', 'thorough')):
        self.name, self.gen, self.run, self.desc = name, gen, run, desc
        self.chunk, self.timeout, self.parallel, self.tiers = chunk, timeout, parallel, tiers


def require(cond, msg, *args, key=None):
    if not cond:
        raise Violation(msg.format(*args) if args else msg, key=key)


def expect_raises(fn, what, exc=Exception):
    """fn must raise an ordinary exception."""
    try:
        r = fn()
    except exc:
        return True
    except Exception as e:
        raise Violation('%s: expected %s, got %r' % (what, exc, e))
    raise Violation('%s: expected an error, but it was accepted (returned %r)' % (what, r))


# ---------------------------------------------------------------------------------------------- known findings
def load_known(pid):
    known = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('known:'):
                # known: property=C02 key=<key> <text>
                parts = line.split(None, 3)
                if parts[1] == 'property=' + pid and parts[2].startswith('key='):
                    known[parts[2][4:]] = parts[3] if len(parts) > 3 else ''
    return known


# ---------------------------------------------------------------------------------------------- running
_W = {}


def _alarm(signum, frame):
    raise CaseTimeout()


def run_one(fam, case, ctx):
    """Run one case; returns None or (message, key, traceback)."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, fam.timeout)
    try:
        fam.run(case, ctx)
        return None
    except Violation as v:
        return (str(v), v.key, traceback.format_exc())
    except CaseTimeout:
        return ('did not terminate within %d s' % fam.timeout, None, traceback.format_exc())
    except BaseException as e:       # incl. SystemExit, RecursionError raised by the code under test
        if isinstance(e, KeyboardInterrupt):
            raise
        return ('unexpected %s: %s' % (type(e).__name__, e), None, traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _work(args):
    fam_idx, cases = args
    fam = _W['mod'].FAMILIES[fam_idx]
    if 'ctx' not in _W or _W.get('pid') != os.getpid():
        d = tempfile.mkdtemp(dir=_W['scratch'])
        os.chdir(d)
        _W['ctx'] = Ctx(d)
        _W['pid'] = os.getpid()
    ctx = _W['ctx']
    ctx.reset()
    bad = []
    t0 = time.time()
    n = 0
    out = io_sink()
    with out:
        for c in cases:
            if time.time() > _W['deadline']:
                break
            r = run_one(fam, c, ctx)
            n += 1
            if r is not None:
                bad.append((c,) + r)
                if len([b for b in bad if b[2] is None]) >= 3:
                    break
    return fam_idx, n, len(cases), ctx.states, ctx.transitions, ctx.outcomes, ctx.executions, bad, time.time() - t0


class io_sink:
    """Silences prints/warnings of the code under test (set VERIF_VERBOSE=1 to see them)."""
    def __enter__(self):
        self.v = os.environ.get('VERIF_VERBOSE')
        if not self.v:
            import warnings
            self.so, self.se = sys.stdout, sys.stderr
            self.f = open(os.devnull, 'w')
            sys.stdout = sys.stderr = self.f
            self.w = warnings.catch_warnings()
            self.w.__enter__()
            warnings.simplefilter('ignore')
        return self

    def __exit__(self, *a):
        if not self.v:
            self.w.__exit__(*a)
            sys.stdout, sys.stderr = self.so, self.se
            self.f.close()


def chunks(it, n):
    it = iter(it)
    while True:
        c = list(itertools.islice(it, n))
        if not c:
            return
        yield c


def main(pid, argv=None):
    argv = sys.argv[1:] if argv is None else argv
    try:
        mod = importlib.import_module('checks.' + pid.lower())
    except Exception as e:
        # the code under test cannot even be imported
        mod = type('mod', (), dict(PID=pid, FAMILIES=[]))
        err, tb = 'importing the code under test failed: %s: %s' % (type(e).__name__, e), traceback.format_exc()

        def setup(scratch):
            raise Violation(err + '\n' + tb)
        mod.setup = staticmethod(setup)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    if '--quick' in argv:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    os.environ['VERIF_SCRATCH'] = scratch
    os.chdir(scratch)
    main_pid = os.getpid()
    try:
        if '--replay' in argv:
            return replay(mod, argv[argv.index('--replay') + 1], scratch)
        only = argv[argv.index('--family') + 1] if '--family' in argv else None
        return explore(mod, pid, tier, seed, scratch, only)
    finally:
        if os.getpid() == main_pid:
            os.chdir('/')
            shutil.rmtree(scratch, ignore_errors=True)


def replay(mod, path, scratch):
    d = json.load(open(path))
    for fam in mod.FAMILIES:
        if fam.name == d['family']:
            break
    else:
        print('unknown family', d['family'])
        return 2
    if hasattr(mod, 'setup'):
        mod.setup(scratch)
    with io_sink():
        r = run_one(fam, d['case'], Ctx(scratch))
    if r is None:
        print('replay: property %s holds for this case' % mod.PID)
        return 0
    print('replay: %s' % r[0])
    if r[1] is None:
        print(r[2])
    print('VIOLATION property=%s replay=%s' % (mod.PID, path))
    return 1


def explore(mod, pid, tier, seed, scratch, only=None):
    t0 = time.time()
    budget = float(os.environ.get('VERIF_BUDGET', '780' if tier == 'quick' else '10800'))
    nproc = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)
    known = load_known(pid)
    setup_err = None
    if hasattr(mod, 'setup'):
        try:
            with io_sink():
                mod.setup(scratch)
        except Violation as v:
            setup_err = (str(v), traceback.format_exc())
        except Exception as e:
            setup_err = ('preparing the code under test failed: %s: %s' % (type(e).__name__, e), traceback.format_exc())
    _W.update(mod=mod, scratch=scratch, deadline=t0 + budget)
    fams = [(i, f) for i, f in enumerate(mod.FAMILIES) if tier in f.tiers and (only is None or f.name == only)]
    states, outcomes = {}, {}
    per = {f.name: dict(cases=0, transitions=0, executions=0, seconds=0.0, complete=True) for _, f in fams}
    for _, f in fams:
        states[f.name], outcomes[f.name] = set(), set()
    violations, known_hit, samples = [], {}, []
    hist = hashlib.sha256()

    def source():
        for i, f in fams:
            n = f.chunk or 64
            buf, k = [], 0
            for c in f.gen(tier):
                if k in (0, 1, 17, 333):
                    samples.append(dict(family=f.name, case=c))
                k += 1
                buf.append(c)
                if len(buf) >= n:
                    yield (i, buf)
                    buf = []
            if buf:
                yield (i, buf)

    def absorb(res):
        i, n, asked, st, tr, oc, ex, bad, secs = res
        f = mod.FAMILIES[i]
        p = per[f.name]
        p['cases'] += n
        p['transitions'] += tr
        p['executions'] += ex
        p['seconds'] += secs
        if n < asked:
            p['complete'] = False
        states[f.name] |= st
        outcomes[f.name] |= oc
        for case, msg, key, tb in bad:
            if key is not None and key in known:
                known_hit.setdefault(key, (f.name, case, msg))
            else:
                violations.append((f.name, case, msg, tb))

    if setup_err is None:
        if nproc == 1:
            for job in source():
                absorb(_work(job))
                if len(violations) >= 5:
                    break
        else:
            pool = mp.get_context('fork').Pool(nproc)
            try:
                sem = mp.get_context('fork').Semaphore(1)
                pending = []
                src = source()
                done = False
                while True:
                    while not done and len(pending) < nproc * 3:
                        try:
                            job = next(src)
                        except StopIteration:
                            done = True
                            break
                        pending.append((job, pool.apply_async(_work, (job,)), time.time()))
                    if not pending:
                        break
                    progressed = False
                    rest = []
                    for job, r, ts in pending:
                        if r.ready():
                            absorb(r.get())
                            progressed = True
                        else:
                            rest.append((job, r, ts))
                    pending = rest
                    if len(violations) >= 5:
                        break
                    if time.time() > t0 + budget + 90:
                        # a worker died or hangs in native code: no answer from it, count as incomplete
                        for job, r, ts in pending:
                            violations.append((mod.FAMILIES[job[0]].name, job[1][0],
                                               'no answer from the code under test (crashed or hung)', ''))
                        break
                    if not progressed:
                        time.sleep(0.01)
            finally:
                pool.terminate()
                pool.join()
    else:
        violations.append(('setup', {}, setup_err[0], setup_err[1]))

    complete = setup_err is None and all(p['complete'] for p in per.values()) and len(violations) < 5
    nstates = sum(len(s) for s in states.values())
    ntrans = sum(p['transitions'] for p in per.values())
    ncases = sum(p['cases'] for p in per.values())
    nexec = sum(p['executions'] for p in per.values())
    for name in per:
        per[name].update(distinct_states=len(states[name]), distinct_outcomes=len(outcomes[name]),
                         seconds=round(per[name]['seconds'], 2),
                         bound=next(f.desc for _, f in fams if f.name == name))
    cov = dict(states=nstates, transitions=ntrans, traces_validated_against_impl=ncases + nexec,
               samples=samples[:12], exhaustive=bool(complete),
               distinct_outcomes=sum(len(o) for o in outcomes.values()),
               families=per, known_findings=sorted(known_hit))
    if not complete and not violations:
        cov['cap'] = 'time budget of %d s reached; families with complete=false were cut' % budget
    vio = []
    os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
    seen = set()
    for k, (fname, case, msg, tb) in enumerate(sorted(violations, key=lambda v: len(json.dumps(v[1], default=str)))):
        path = os.path.join(VERIF, 'evidence', 'replays', '%s-%d.json' % (pid, k))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, family=fname, case=case, message=msg, traceback=tb), f, indent=1, default=str)
        vio.append((fname, msg, path))
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(time.time() - t0, 2),
              violations=len(vio))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', pid + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, 'evidence', pid + '.json'))

    print('%s %s: %d executions of the real code against the model, %d distinct states, %d transitions, '
          '%d distinct outcomes, %.1f s, %s' % (pid, tier, ncases + nexec, nstates, ntrans, cov['distinct_outcomes'],
                                               time.time() - t0, 'complete' if complete else 'NOT complete'))
    for name, p in per.items():
        print('  %-28s cases=%d states=%d transitions=%d outcomes=%d %.1fs%s' % (
            name, p['cases'], p['distinct_states'], p['transitions'], p['distinct_outcomes'], p['seconds'],
            '' if p['complete'] else ' (cut)'))
    for key in sorted(known_hit):
        print('KNOWN-FINDING: property=%s key=%s %s' % (pid, key, known[key]))
    for fname, msg, path in vio[:5]:
        print('%s/%s: %s' % (pid, fname, msg[:1200]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1 if vio else 0
