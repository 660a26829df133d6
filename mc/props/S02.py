"""S02: all interleavings (preemption bounded) of the real ProcessScheduler and its real worker loop."""
import os
import mdp.parallel
from mdp.parallel import scheduling, process_schedule
from ..core import check, Violation
from .. import sched, fakeproc
from . import S01
from .S01 import Fn, Tc, LOG, RUN, script, judge, play

LEVEL = 'model_checking'
RULE = 'schedule with at least one preemption'
ASSUMPTIONS = ['worker processes run the real worker loop, but as threads behind in-memory pipes (a process cannot share memory with its parent; the callables and data cross the pipes pickled)',
               'preemptions as in S01; workers are switched at pipe operations and inside tasks', 'one calling thread']
HANG_S = 600
Fn.__module__ = Tc.__module__ = 'mc.props.S01'


def worker_setup():
    sched.install([scheduling, process_schedule])
    sched.instrument(scheduling)
    sched.instrument(process_schedule)
    fakeproc.install(process_schedule)


def processes(ctx, script_, n, cache, bound, shard, fail=(), free=False, schedule=None):
    ops = script(script_)
    run_by = []

    def run(rt):
        del LOG[:]
        RUN['now'] = RUN['max'] = 0
        sched.FAIL_STARTS[:] = list(fail)
        del fakeproc.PROCS[:]
        fakeproc.PROXY._std.clear()
        s = mdp.parallel.ProcessScheduler(n_processes=n, cache_callable=cache, source_paths=['/x'], verbose=False)
        out = play(s, ops)
        if 'd' not in ops:
            s.shutdown()
        return s, out

    def verdict(rt, res):
        s, out = res
        ctx.outcome(script_, n, tuple(LOG))
        judge(ops, out, LOG, RUN['max'], n)
        live = [p for p in fakeproc.PROCS if not p.ended]
        check(not live, lambda: '%d worker processes still alive after shutdown' % len(live), 'shutdown')
        check(not s._lock.locked() if hasattr(s, '_lock') and hasattr(s._lock, 'locked') else True, 'scheduler lock still held', 'lock')
        if rt.used:
            ctx.mark(script_, n, tuple(c for _, c in rt.decisions))
    if schedule is not None:
        rt, res = sched.one(run, schedule, bound, free)
        if rt.reason:
            raise Violation(rt.reason, 'deadlock')
        if rt.threads[0].error:
            raise Violation('caller got %r' % rt.threads[0].error, 'caller-error')
        verdict(rt, res)
        return
    sched.explore(ctx, run, verdict, bound, free, shard, what=(script_, n, cache))


SCENARIOS = {'processes': processes}


def cases(tier):
    deep = tier == 'thorough'
    names = ('one', 'two', 'three', 'callables', 'set', 'rounds', 'rounds2', 'fail', 'failmid', 'failtwo', 'shutdown', 'empty', 'again')
    for name in names:
        for n in (1, 2):
            for cache in (False, True):
                for i in range(8):
                    yield 'processes', dict(script_=name, n=n, cache=cache, bound=2, shard=[i, 8])
    for name in ('one', 'fail') if not deep else names:
        for n in (1, 2):
            for i in range(32):
                yield 'processes', dict(script_=name, n=n, cache=True, bound=3, shard=[i, 32])
    for name in ('two', 'rounds'):
        for n in (1, 2):
            for fail in ((0,), (1,), (0, 1)):
                for i in range(8):
                    yield 'processes', dict(script_=name, n=n, cache=True, bound=2, shard=[i, 8], fail=fail)
    if deep:
        for name in ('one', 'two'):
            for n in (1, 2):
                for i in range(64):
                    yield 'processes', dict(script_=name, n=n, cache=True, bound=2, shard=[i, 64], free=True)
