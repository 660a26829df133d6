"""S03: all operation sequences on every scheduler against a reference model."""
import itertools, json, os, subprocess, sys, time
import mdp
import mdp.parallel
from mdp.parallel import scheduling, thread_schedule, process_schedule
from ..core import check, Violation, REPO, VERIF
from .. import sched, fakeproc
from .S01 import Fn, Tc, LOG, RUN

LEVEL = 'model_checking'
RULE = 'sequence with at least two tasks, or with a refused or failing step'
ASSUMPTIONS = ['thread and process schedulers run under the controlled scheduler in its default schedule (interleavings are S01/S02); a fixed list of histories also runs with real processes',
               'a failing task may be reported when it is added or when results are collected; the results of the other tasks of a failed round are then not specified']
Tc.setup_environment = lambda self: LOG.append(('setup', self.name)) if sched.RT is not None else None


class NoFork(mdp.parallel.TaskCallable):
    def fork(self):
        raise RuntimeError('task fork fails')

    def __call__(self, data):
        return ('N', data)


class NoPickle(mdp.parallel.TaskCallable):
    name = 'P'

    def __getstate__(self):
        raise RuntimeError('task cannot be pickled')

    def __call__(self, data):
        return ('P', data)


def func(data):
    LOG.append(('start', 'U', data))
    if data < 0:
        raise RuntimeError('task %d failed' % data)
    return ('U', data)


class BadContainer(mdp.parallel.ListResultContainer):
    """refuses the result of task data == 13"""
    def add_result(self, result, task_index):
        if result[1] == 13:
            raise RuntimeError('task result refused')
        super(BadContainer, self).add_result(result, task_index)


CONT = {'default': lambda: None, 'list': mdp.parallel.ListResultContainer, 'ordered': mdp.parallel.OrderedResultContainer, 'bad': BadContainer}


def mk(c):
    return {'F': lambda: Fn('F'), 'T': lambda: Tc('T'), 'U': lambda: func, 'N': NoFork, 'P': NoPickle}[c]()


def build(kind, cont):
    rc = CONT[cont]()
    kw = {} if rc is None else {'result_container': rc}
    if kind == 'serial':
        return mdp.parallel.Scheduler(**kw)
    if kind.startswith('thread'):
        return mdp.parallel.ThreadScheduler(n_threads=int(kind[-1]), copy_callable=kind[6] == 'c', **kw)
    return mdp.parallel.ProcessScheduler(n_processes=int(kind[-1]), cache_callable=kind[7] == 'c', source_paths=['/x'], **kw)


def sequence(kind, ops, cont, s=None):
    """run one operation sequence and compare it with the model; returns a summary"""
    if s is None:
        s = build(kind, cont)
    ordered = cont in ('default', 'ordered')
    objs = {}
    cur = None
    ok = []          # expected results of this round
    started = []
    failed = False   # a task of this round failed and is to be reported by get_results
    n = 0
    summary = []
    name = {}        # callables changed by the caller
    stale = set()    # changed and not given to the scheduler since
    pending = 0
    in_caller = {'serial': 'FXN', 'threadc': 'NP', 'threadn': 'N', 'process': ''}[kind[:7] if kind.startswith('t') else 'process' if kind.startswith('p') else kind]

    def obj(c):
        if c not in objs:
            objs[c] = mk(c)
        return objs[c]
    for i, op in enumerate(ops):
        where = lambda: '%s scheduler, %s container, %s, step %d (%s): ' % (kind, cont, ' '.join(ops), i, op)
        if op[0] == 'm':
            # the caller changes a callable; only when no task is pending, tasks get the callable as it is when they are submitted
            c = op[1]
            if not pending and c in objs:
                name[c] = objs[c].name = name.get(c, c) + "'"
                stale.add(c)
            continue
        if op[0] == 's':
            s.set_task_callable(obj(op[1]))
            cur = op[1]
            stale.discard(cur)
            continue
        if op == 'g':
            try:
                res, err = s.get_results(), None
            except Exception as e:
                res, err = None, e
            check(s.n_open_tasks == 0, lambda: where() + '%d open tasks after collecting' % s.n_open_tasks, 'open')
            if failed:
                check(err is not None, lambda: where() + 'returned %r although a task failed' % (res,), 'swallowed')
                check('task' in str(err), lambda: where() + 'raised %r instead of the cause' % err, 'cause')
            else:
                check(err is None, lambda: where() + 'raised %r' % (err,), 'get-error')
                res = list(res)
                exp = list(ok)
                if not ordered:
                    res.sort(); exp.sort()
                check(res == exp, lambda: where() + 'collected %r, expected %r' % (res, exp), 'results')
            summary.append('g%d' % len(ok))
            ok, failed, pending = [], False, 0
            continue
        # add: 'a' (last callable) / 'aC' + data kind '' good, '-' failing, '#' refused by the container
        c = op[1] if len(op) > 1 and op[1] in 'FTUNP' else None
        n += 1
        data = -n if op.endswith('-') else 13 if op.endswith('#') else n + 20
        use = c or cur
        if c is None and cur in stale:
            c = cur             # whether the last callable is seen as it is now is not specified
        stale.discard(c)
        pending += 1
        try:
            if c is None:
                s.add_task(data)
            else:
                s.add_task(data, obj(c))
            err = None
        except Exception as e:
            err = e
        if use is None:
            check(err is not None, lambda: where() + 'accepted without any callable', 'no-callable')
            summary.append('refused')
            continue
        cur = use
        bad = 'X' if data < 0 and use in 'FTU' else use if use in 'NP' and not (use == 'P' and kind in ('serial', 'threadn1', 'threadn2')) else None
        local = bad is not None and (bad in in_caller)
        if local:
            check(err is not None and 'task' in str(err), lambda: where() + 'failing task gave %r' % (err,), 'local-fail')
            summary.append('fail')
        elif bad is not None:
            check(err is None, lambda: where() + 'raised %r' % (err,), 'add-error')
            failed = True
            summary.append('later')
        else:
            if data == 13 and cont == 'bad':
                if err is None:
                    failed = True
                else:
                    check('refused' in str(err), lambda: where() + 'raised %r' % (err,), 'add-error')
            else:
                check(err is None, lambda: where() + 'raised %r' % (err,), 'add-error')
                ok.append((name.get(use, use), data))
            summary.append('a')
        if use in 'FTU' and (bad is None or bad == 'X'):
            started.append((name.get(use, use), data))
    try:
        s.get_results()
    except Exception as e:
        check(failed, lambda: '%s %s %s: final collection raised %r' % (kind, cont, ' '.join(ops), e), 'get-error')
    s.shutdown()
    return started, summary


_ready = [False]


def lazy_setup():
    if not _ready[0]:
        sched.install([scheduling, thread_schedule, process_schedule])
        fakeproc.install(process_schedule)
        _ready[0] = True


def group(ctx, kind, cont, first, depth, ops):
    """all sequences of length 1..depth that start with `first`"""
    lazy_setup()
    first = tuple(first)
    for d in range(0, depth - len(first) + 1):
        for rest in itertools.product(ops, repeat=d):
            seq = first + rest
            if seq[-1] in ('g',) and len(seq) > 1 and seq[-2] == 'g' and len(seq) > 2 and seq[-3] == 'g':
                continue
            ctx.at(kind, cont, seq)
            del LOG[:]
            RUN['now'] = RUN['max'] = 0
            del fakeproc.PROCS[:]
            fakeproc.PROXY._std.clear()
            rt, res = sched.one(lambda rt: sequence(kind, seq, cont), [], 0)
            if rt.reason:
                raise Violation('%s %s %s: %s' % (kind, cont, ' '.join(seq), rt.reason), 'deadlock')
            err = rt.threads[0].error
            if err is not None:
                if isinstance(err, Violation):
                    raise err
                raise Violation('%s %s %s: caller got %r' % (kind, cont, ' '.join(seq), err), 'caller-error-' + type(err).__name__)
            started, summary = res
            got = [(a, b) for k, a, b in [x for x in LOG if x[0] == 'start']]
            check(sorted(got) == sorted(started), lambda: '%s %s %s: executed %r, submitted %r' % (kind, cont, ' '.join(seq), got, started), 'executed')
            setups = [i for i, x in enumerate(LOG) if x[0] == 'setup']
            uses = [i for i, x in enumerate(LOG) if x[0] == 'start' and x[1].startswith('T')]
            if kind.startswith('p'):
                check(not uses or setups and setups[0] < uses[0], lambda: '%s %s: environment not set up in the worker' % (kind, ' '.join(seq)), 'setup')
            else:
                check(not setups, lambda: '%s %s: environment set up in the same process' % (kind, ' '.join(seq)), 'setup')
            if kind.startswith('p'):
                check(all(p.ended for p in fakeproc.PROCS), lambda: '%s: workers left after shutdown' % (seq,), 'shutdown')
            ctx.execution()
            ctx.step(len(seq))
            ctx.state(kind, cont, tuple(summary))
            ctx.outcome(tuple(summary))
            if len(started) > 1 or set(summary) & {'refused', 'fail', 'later'}:
                ctx.mark(seq)


def containers(ctx, order, rounds):
    """result containers, fed in any order"""
    for cls in (mdp.parallel.ListResultContainer, mdp.parallel.OrderedResultContainer):
        c = cls()
        for r in range(rounds):
            for i in order:
                c.add_result(('r', r, i), i + 10 * r)
            res = list(c.get_results())
            exp = [('r', r, i) for i in (sorted(order) if cls is mdp.parallel.OrderedResultContainer else order)]
            check(res == exp, lambda: '%s fed in order %r gave %r' % (cls.__name__, order, res), 'container')
            check(list(c.get_results()) == [], lambda: '%s not empty after collecting' % cls.__name__, 'container')
            ctx.step()
    ctx.execution()
    ctx.mark()


def real(ctx, ops, n, cache):
    """one history with real worker processes"""
    env = dict(os.environ, PYTHONPATH=VERIF + os.pathsep + REPO, PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-m', 'mc.realproc', json.dumps(dict(ops=ops, n=n, cache=cache))], cwd=VERIF, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=40)
    out = p.stdout.decode()
    check('RESULT ' in out, lambda: 'real processes, %s: no result\n%s' % (ops, p.stderr.decode()[-1500:]), 'real-crash')
    d = json.loads(out.split('RESULT ')[1].splitlines()[0])
    check(d['violation'] is None, lambda: 'real processes: ' + d['violation'], 'real')
    ctx.execution()
    ctx.mark()


SCENARIOS = {'group': group, 'containers': containers, 'real': real}


def cases(tier):
    deep = tier == 'thorough'
    serial = ['sT', 'sU', 'a', 'aF', 'aT', 'aU', 'aF-', 'aN', 'aP', 'a#', 'g']
    small = ['sU', 'a', 'aF', 'aT', 'aT-', 'aN', 'aP', 'g']
    for cont in sorted(CONT):
        for a in serial:
            for b in serial:
                yield 'group', dict(kind='serial', cont=cont, first=[a, b], depth=5 if deep or cont == 'default' else 4, ops=serial)
    for kind, ops in (('threadc1', small), ('threadn1', small), ('threadc2', small), ('threadn2', small), ('processc1', small), ('processn1', small), ('processc2', small), ('processn2', small)):
        for cont in ('default', 'bad') if not deep else sorted(CONT):
            o = ops + ['a#'] if cont == 'bad' else ops
            for a in o:
                for b in o:
                    yield 'group', dict(kind=kind, cont=cont, first=[a, b], depth=(5 if kind.endswith('2') else 4) if deep else 4, ops=o)
    # the caller changes its callables between rounds
    change = ['a', 'aF', 'aT', 'sT', 'mF', 'mT', 'g']
    for kind in ('serial', 'threadc1', 'threadn2', 'processc1', 'processc2', 'processn1'):
        for a in ('aF', 'aT', 'sT'):
            for b in change:
                yield 'group', dict(kind=kind, cont='default', first=[a, b], depth=7 if deep else 5, ops=change)
    for n in range(1, 5):
        for order in itertools.permutations(range(n)):
            yield 'containers', dict(order=list(order), rounds=2)
    for n in (1, 2):
        for cache in (True, False):
            for ops in (['aF', 'a', 'aT', 'a', 'g', 'a', 'g'], ['sU', 'a', 'sT', 'a', 'a', 'g'], ['a', 'aF-', 'g', 'aF', 'a', 'g'], ['g', 'aT', 'aN', 'g', 'aU', 'g', 'aP', 'g', 'aF', 'g']):
                yield 'real', dict(ops=ops, n=n, cache=cache)
