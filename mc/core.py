"""Core of the bounded-exhaustive checker.

A property module (mc/props/<ID>.py) provides

    LEVEL, RULE, ASSUMPTIONS
    SCENARIOS   : {name: fn(ctx, **params)}    runs ONE case on the real code and raises Violation
    cases(tier) : iterator of (name, params)   the complete, finite case space of that tier

The runner enumerates every case (never samples), runs the cases in forked worker processes, and aggregates what
was covered.  A case that raises Violation, raises any unexpected exception out of the code under test, or does not
end within HANG_S seconds is a violation.  Every violation is written as a replayable artefact.
"""
import contextlib, fnmatch, hashlib, json, os, pickle, random, select, signal, struct, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
HANG_S = 45
TOTAL_S = int(os.environ.get('VERIF_TOTAL_S', '820'))
MAX_VIOL_PER_WORKER = 4


class Violation(Exception):
    """The property does not hold on this case. `sig` identifies the kind of failure; `extra` is stored for replay."""
    def __init__(self, msg, sig=None, extra=None):
        super().__init__(msg)
        self.sig = sig
        self.extra = extra or {}


class HarnessError(BaseException):
    """The harness lost control (divergence while replaying, ...): an error of the check, never a verdict."""


class _Hang(BaseException):
    pass


def canon(x):
    return hashlib.md5(repr(x).encode()).digest()[:8]


class Ctx:
    """Coverage counters of one worker."""
    def __init__(self):
        self.cases = 0
        self.nontrivial = set()
        self.states = set()
        self.transitions = 0
        self.executions = 0
        self.outcomes = set()
        self.samples = []
        self.notes = {}
        self._cur = None
        self._marked = False
        self._at = None

    def at(self, *what):
        """Remember what is being explored, for the report of an unexpected exception or hang."""
        self._at = what

    def state(self, *key):
        """One abstract state of model/implementation (deduplicated over the whole run)."""
        self.states.add(canon(key))

    def step(self, n=1):
        self.transitions += n

    def execution(self, n=1):
        """One complete trace/schedule executed on the implementation."""
        self.executions += n

    def outcome(self, *key):
        self.outcomes.add(canon(key))

    def mark(self, *key):
        """Declare the current case (or sub-case `key`) non-trivial."""
        self._marked = True
        self.nontrivial.add(canon((self._cur, key)))

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def note_max(self, key, n):
        self.notes['max ' + key] = max(self.notes.get('max ' + key, 0), n)

    def sample(self, text):
        if len(self.samples) < 4:
            self.samples.append(str(text)[:600])

    def dump(self):
        return dict(cases=self.cases, nontrivial=self.nontrivial, states=self.states, transitions=self.transitions,
                    executions=self.executions, outcomes=self.outcomes, samples=self.samples, notes=self.notes)


def seed_all():
    import numpy
    random.seed(12345)
    numpy.random.seed(12345)


def check(cond, msg, sig=None, **extra):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, sig, extra)


def _alarm(signum, frame):
    raise _Hang()


def run_case(module, ctx, name, params, hang_s=None):
    """Returns None or a violation dict."""
    fn = module.SCENARIOS[name]
    ctx._cur = (name, repr(sorted(params.items())))
    ctx.cases += 1
    ctx._at = None
    seed_all()
    old = signal.signal(signal.SIGALRM, _alarm)
    limit = hang_s or getattr(module, 'HANG_S', HANG_S)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        fn(ctx, **params)
        return None
    except Violation as v:
        msg, sig, extra = str(v), v.sig, v.extra
    except _Hang:
        msg, sig, extra = 'case did not terminate within %ds' % limit, 'hang', {}
    except (KeyboardInterrupt, HarnessError):
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f for f in reversed(tb) if f.filename.startswith(REPO + os.sep)), tb[-1] if tb else None)
        msg = 'unexpected %s: %s (at %s:%s in %s)' % (type(e).__name__, str(e)[:300],
                                                     os.path.relpath(where.filename, REPO) if where else '?',
                                                     where.lineno if where else '?', where.name if where else '?')
        sig, extra = 'exception-' + type(e).__name__, {'traceback': traceback.format_exc()[-3000:]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    if ctx._at is not None and sig in ('hang',) or (sig or '').startswith('exception-'):
        msg += ' [while exploring %r]' % (ctx._at,)
    return dict(scenario=name, params=params, message=msg[:4000], sig='%s:%s' % (name, sig or 'fail'), extra=extra)


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack('<Q', len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _worker(module, todo, fd, deadline):
    ctx = Ctx()
    viols = []
    err = None
    try:
        if hasattr(module, 'worker_setup'):
            module.worker_setup()
        for name, params in todo:
            if time.time() > deadline:
                ctx.note('capped')
                break
            v = run_case(module, ctx, name, params)
            if v is not None:
                viols.append(v)
                if len([x for x in viols if not x.get('known')]) >= MAX_VIOL_PER_WORKER * 10:
                    break
                if len({x['sig'] for x in viols}) >= MAX_VIOL_PER_WORKER and not _KNOWN:
                    break
                if v['sig'].endswith(':hang'):
                    break
        if hasattr(module, 'worker_teardown'):
            module.worker_teardown()
    except BaseException:
        err = traceback.format_exc()
    _send(fd, dict(stats=ctx.dump(), viols=viols, err=err))


_KNOWN = []


def load_known(pid):
    """KNOWN_FINDINGS.jsonl: {"property":..., "status":"known","match":"<sig glob>","params":{...},"what":...}
    and {"status":"fixed", ...} which suppresses nothing."""
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.jsonl')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or not line.startswith('{'):
                continue
            d = json.loads(line)
            if d.get('property') == pid and d.get('status') == 'known':
                out.append(d)
    return out


def match_known(viol, known):
    for k in known:
        if not fnmatch.fnmatchcase(viol['sig'], k['match']):
            continue
        if all(viol['params'].get(a) == b for a, b in k.get('params', {}).items()):
            return k
    return None


def write_replay(pid, v):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.md5(json.dumps([v['scenario'], v['params'], v['sig']], sort_keys=True, default=str).encode()).hexdigest()[:10]
    path = os.path.join(d, '%s-%s.json' % (pid, h))
    with open(path, 'w') as f:
        json.dump(dict(property=pid, how_to_replay='/opt/venv/bin/python %s/run.py %s --replay %s' % (VERIF, pid, path), **v),
                  f, indent=1, default=str)
    return path


def run_property(pid, module, tier, seed, jobs=None, only=None, verbose=False):
    t0 = time.time()
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '8'))
    cases = list(module.cases(tier))
    if only:
        cases = [c for c in cases if c[0] in only]
    total = len(cases)
    # the seed only permutes the order in which the complete case space is visited
    order = list(range(total))
    random.Random(seed).shuffle(order)
    known = load_known(pid)
    _KNOWN[:] = known
    jobs = max(1, min(jobs, total))
    procs = []
    for i in range(jobs):
        r, w = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        pid_ = os.fork()
        if pid_ == 0:
            code = 0
            try:
                os.close(r)
                if not os.environ.get('VERIF_DEBUG'):       # the code under test may print
                    nul = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(nul, 1)
                    os.dup2(nul, 2)
                try:
                    os.setpgid(0, 0)
                except OSError:
                    pass
                _worker(module, [cases[j] for j in order[i::jobs]], w,
                        t0 + (TOTAL_S - 60) * (10 if tier == 'thorough' else 1))
            except BaseException:
                traceback.print_exc()
                code = 1
            os._exit(code)
        os.close(w)
        procs.append((pid_, r))
    bufs = {r: b'' for _, r in procs}
    open_ = set(bufs)
    timed_out = False
    while open_:
        left = TOTAL_S * (10 if tier == 'thorough' else 1) - (time.time() - t0)
        if left <= 0:
            timed_out = True
            break
        for r in select.select(list(open_), [], [], min(left, 5))[0]:
            chunk = os.read(r, 1 << 20)
            if chunk:
                bufs[r] += chunk
            else:
                open_.discard(r)
    if timed_out:
        for p_, _ in procs:
            try:
                os.killpg(p_, signal.SIGKILL)
            except OSError:
                pass
    agg = Ctx().dump()
    viols, errs = [], []
    for p_, r in procs:
        os.waitpid(p_, 0)
        os.close(r)
        b = bufs[r]
        if len(b) < 8:
            errs.append('worker %d gave no answer' % p_)
            continue
        d = pickle.loads(b[8:])
        s = d['stats']
        for k in ('nontrivial', 'states', 'outcomes'):
            agg[k] |= s[k]
        for k in ('cases', 'transitions', 'executions'):
            agg[k] += s[k]
        agg['samples'] += s['samples']
        for k, n in s['notes'].items():
            agg['notes'][k] = max(agg['notes'].get(k, 0), n) if k.startswith('max ') else agg['notes'].get(k, 0) + n
        viols += d['viols']
        if d['err']:
            errs.append(d['err'])
    new, seen_known = [], {}
    for v in viols:
        k = match_known(v, known)
        if k is not None:
            seen_known.setdefault(json.dumps(k, sort_keys=True), k)
        else:
            new.append(v)
    for k in seen_known.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    new.sort(key=lambda v: (v['sig'], len(repr(v['params'])), repr(v['params'])))
    shown = []
    per_sig = {}
    for v in new:
        per_sig[v['sig']] = per_sig.get(v['sig'], 0) + 1
        if per_sig[v['sig']] <= 1 and len(shown) < 8:
            shown.append(v)
    for v in shown:
        path = write_replay(pid, v)
        print('# %s: %s\n#   params=%s' % (v['sig'], v['message'].replace('\n', '\n#   '), json.dumps(v['params'], default=str)[:500]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    wall = time.time() - t0
    samples = sorted(set(agg['samples']))[:8]
    if not samples:
        samples = ['%s %s' % (n, json.dumps(p, default=str)[:300]) for n, p in (cases[:2] + cases[-2:])]
    cov = dict(samples=samples, scenarios={}, distinct_outcomes=len(agg['outcomes']), notes=agg['notes'])
    for n, _ in cases:
        cov['scenarios'][n] = cov['scenarios'].get(n, 0) + 1
    complete = not timed_out and not errs and not new and agg['cases'] == total and not agg['notes'].get('capped')
    cov['exhaustive'] = bool(complete)
    if module.LEVEL == 'model_checking':
        cov.update(states=len(agg['states']), transitions=agg['transitions'], traces_validated_against_impl=agg['executions'],
                   cases=agg['cases'])
    else:
        cov.update(evaluations=max(agg['cases'], agg['executions']), distinct_nontrivial=len(agg['nontrivial']), rule=module.RULE)
        if agg['states']:
            cov.update(states=len(agg['states']), transitions=agg['transitions'])
    ev = dict(property=pid, tier=tier, seed=seed, level=module.LEVEL, coverage=cov, assumptions=list(getattr(module, 'ASSUMPTIONS', [])),
              wall_s=round(wall, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: cases=%d/%d states=%d transitions=%d executions=%d outcomes=%d nontrivial=%d violations=%d wall=%.1fs %s' % (
        pid, tier, agg['cases'], total, len(agg['states']), agg['transitions'], agg['executions'], len(agg['outcomes']),
        len(agg['nontrivial']), len(new), wall, agg['notes'] or ''))
    if verbose:
        for s in samples:
            print('  sample:', s)
    if new:
        return 1
    if errs or timed_out:
        print('ERROR of the check: %s' % ('total time limit reached' if timed_out else errs[0]), file=sys.stderr)
        return 2
    return 0


def replay(pid, module, path):
    d = json.load(open(path))
    ctx = Ctx()
    if hasattr(module, 'worker_setup'):
        module.worker_setup()
    params = dict(d['params'])
    params.update(d.get('extra', {}).get('replay_params', {}))
    res = []
    for _ in range(2):          # a real counterexample fails the same way every time
        v = run_case(module, ctx, d['scenario'], params)
        res.append(v)
    if hasattr(module, 'worker_teardown'):
        module.worker_teardown()
    if res[0] is None and res[1] is None:
        print('replay: holds now')
        return 0
    print('replay: %s' % (res[0] or res[1])['message'])
    if (res[0] is None) != (res[1] is None):
        print('replay: NOT deterministic')
        return 2
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1
