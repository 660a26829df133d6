"""S01: all interleavings (preemption bounded) of the real ThreadScheduler under a controlled scheduler."""
import mdp
import mdp.parallel
from mdp.parallel import scheduling, thread_schedule
from ..core import check, Violation
from .. import sched

LEVEL = 'model_checking'
RULE = 'schedule with at least one preemption'
ASSUMPTIONS = ['preemptions between the statements of mdp/parallel that touch attributes, items or call something, between read and write of augmented assignments, at every lock, sleep, thread start and inside tasks',
               'at most the stated number of preemptions; time is abstracted (a sleeper wakes when nothing else can run, or earlier at the price of a preemption)',
               'one calling thread']
HANG_S = 600
LOG = []
RUN = {'now': 0, 'max': 0}


def worker_setup():
    sched.install([scheduling, thread_schedule])
    sched.instrument(scheduling)
    sched.instrument(thread_schedule)


class Boom(Exception):
    pass


class Fn(object):
    """plain callable"""
    def __init__(self, name):
        self.name = name

    def __call__(self, data):
        RUN['now'] += 1
        RUN['max'] = max(RUN['max'], RUN['now'])
        LOG.append(('start', self.name, data))
        try:
            if sched.RT is not None:
                sched.RT.point(('task', data))
            if data < 0:
                raise Boom('task %d failed' % data)
        finally:
            RUN['now'] -= 1
        return (self.name, data)


class Tc(mdp.parallel.TaskCallable):
    """task callable with state: it must be forked exactly once, and from an object that was never called"""
    def __init__(self, name):
        self.name = name
        self.depth = 0
        self.used = 0

    def fork(self):
        t = Tc(self.name)
        t.used = self.used
        t.depth = self.depth + 1
        return t

    def __call__(self, data):
        if self.depth != 1:
            raise AssertionError('callable used after %d forks' % self.depth)
        self.used += 1
        if self.used > 1:
            raise AssertionError('state of an earlier task')
        return Fn(self.name)(data)


def script(name):
    """list of operations; a = add with the last callable, aX = add with callable X, s = set callable, g = get results, d = shutdown.
    negative data fail."""
    return {
        'one': ['aF1', 'g'], 'two': ['aF1', 'a2', 'g'], 'three': ['aF1', 'a2', 'a3', 'g'],
        'callables': ['aF1', 'aT2', 'a3', 'g'],
        'set': ['sT', 'a1', 'sF', 'a2', 'g'],
        'rounds': ['aT1', 'g', 'a2', 'g'], 'rounds2': ['aF1', 'a2', 'g', 'aT3', 'g'],
        'fail': ['aF-1', 'g!', 'a2', 'g'], 'failmid': ['aF1', 'a-2', 'g!', 'a3', 'g'], 'failtwo': ['aF-1', 'aT-2', 'g!', 'a3', 'g'],
        'shutdown': ['aF1', 'a2', 'g', 'd'], 'empty': ['g', 'aF1', 'g', 'g'], 'again': ['aT1', 'a2', 'g'],
    }[name]


def parse(op):
    k = op[0]
    if k == 'a':
        c = op[1] if op[1] in 'FTGU' else None
        return 'add', c, int(op[2:] if c else op[1:])
    if k == 's':
        return 'set', op[1], None
    if k == 'g':
        return 'get', op.endswith('!'), None
    return 'down', None, None


def expected(ops):
    """(per round results, log of (callable, data))"""
    cur, rounds, pend, log = None, [], [], []
    for op in ops:
        k, c, d = parse(op)
        if k == 'add':
            if c:
                cur = c
            pend.append((cur, d))
            log.append((cur, d))
        elif k == 'set':
            cur = c
        elif k == 'get':
            rounds.append((c, [r for r in pend]))
            pend = []
    return rounds, log


def make(c):
    return {'F': Fn('F'), 'T': Tc('T'), 'G': Tc('G'), 'U': Fn('U')}[c]


def play(s, ops):
    """the calling thread; returns what it saw"""
    cs = {}
    out = []
    for op in ops:
        k, c, d = parse(op)
        if k == 'add':
            if c is None:
                s.add_task(d)
            else:
                cs.setdefault(c, make(c))
                s.add_task(d, cs[c])
        elif k == 'set':
            cs.setdefault(c, make(c))
            s.set_task_callable(cs[c])
        elif k == 'get':
            try:
                r = s.get_results()
                out.append(('ok', list(r), s.n_open_tasks))
            except Exception as e:
                out.append(('error', e, s.n_open_tasks))
        else:
            s.shutdown()
    return out


def judge(ops, out, log, run_max, limit, ordered=True):
    rounds, want = expected(ops)
    starts = [(n, d) for k, n, d in log if k == 'start']
    check(sorted(starts) == sorted(want), lambda: 'tasks executed %r, submitted %r' % (starts, want), 'tasks')
    check(run_max <= limit, lambda: '%d tasks ran at the same time, limit %d' % (run_max, limit), 'limit')
    check(len(out) == len(rounds), 'rounds missing', 'rounds')
    for i, ((failing, tasks), (kind, res, n_open)) in enumerate(zip(rounds, out)):
        check(n_open == 0, lambda: 'round %d: %d open tasks after collecting' % (i, n_open), 'open')
        if failing:
            check(kind == 'error' and isinstance(res, Exception) and 'fail' in str(res), lambda: 'round %d with a failing task gave %r' % (i, res), 'failed-task')
        else:
            check(kind == 'ok', lambda: 'round %d raised %r' % (i, res), 'round-error')
            if not ordered:
                res = sorted(res)
                tasks = sorted(tasks)
            check(res == tasks, lambda: 'round %d collected %r, expected %r' % (i, res, tasks), 'results')


def threads(ctx, script_, n_threads, copy, bound, shard, fail=(), free=True, schedule=None):
    ops = script(script_)

    def body(rt):
        s = mdp.parallel.ThreadScheduler(n_threads=n_threads, copy_callable=copy)
        out = play(s, ops)
        return s, out

    def reset():
        del LOG[:]
        RUN['now'] = RUN['max'] = 0

    def run(rt):
        reset()
        sched.FAIL_STARTS[:] = list(fail)
        return body(rt)

    def verdict(rt, res):
        s, out = res
        ctx.outcome(script_, tuple(LOG))
        judge(ops, out, LOG, RUN['max'], n_threads)
        check(not s._lock.locked() if hasattr(s, '_lock') and hasattr(s._lock, 'locked') else True, 'scheduler lock still held', 'lock')
        if rt.used:
            ctx.mark(script_, n_threads, tuple(c for _, c in rt.decisions))
    if schedule is not None:
        rt, res = sched.one(run, schedule, bound, free)
        if rt.reason:
            raise Violation(rt.reason, 'deadlock')
        if rt.threads[0].error:
            raise Violation('caller got %r' % rt.threads[0].error, 'caller-error')
        verdict(rt, res)
        return
    sched.explore(ctx, run, verdict, bound, free, shard, what=(script_, n_threads, copy))


SCENARIOS = {'threads': threads}


def cases(tier):
    deep = tier == 'thorough'
    names = ('one', 'two', 'three', 'callables', 'set', 'rounds', 'rounds2', 'fail', 'failmid', 'failtwo', 'shutdown', 'empty', 'again')
    for name in names:
        for n in (1, 2):
            for copy in (False, True):
                for i in range(8):
                    yield 'threads', dict(script_=name, n_threads=n, copy=copy, bound=2, shard=[i, 8])
    for name in ('one', 'two', 'fail', 'empty') if not deep else names:
        for n in (1, 2):
            for i in range(32):
                yield 'threads', dict(script_=name, n_threads=n, copy=False, bound=3, shard=[i, 32])
    for name in ('two', 'rounds'):
        for n in (1, 2):
            for fail in ((0,), (1,), (0, 1)):
                for i in range(8):
                    yield 'threads', dict(script_=name, n_threads=n, copy=False, bound=2 if not deep else 3, shard=[i, 8], fail=fail)
    if deep:
        for i in range(64):
            yield 'threads', dict(script_='one', n_threads=1, copy=False, bound=4, shard=[i, 64])
            yield 'threads', dict(script_='two', n_threads=2, copy=False, bound=4, shard=[i, 64], free=False)
            yield 'threads', dict(script_='three', n_threads=3, copy=False, bound=3, shard=[i, 64])
