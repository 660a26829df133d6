"""P01: parallel flows against serial flows, for every completion order of the tasks."""
import itertools, pickle
import numpy as np
import mdp
import mdp.parallel as par
import bimdp
import bimdp.parallel
from ..core import check, Violation
from .. import parinst as I
from ..inst import Injected

LEVEL = 'model_checking'
RULE = 'at least two tasks completed in a different order than submitted, or a fault fired, or a refused operation'
ASSUMPTIONS = ['forkable nodes are commutative (their result does not depend on the order of joining)',
               'all nodes use the same dtype; nodenr is not negative; results are handed in when all tasks were fetched',
               'after a failing task the contents of the failing node are not specified']


def chunks(m, d=2, shift=0):
    out, p = [], 0
    for i in range(m):
        n = (2, 1, 3, 1)[i % 4]
        out.append(np.array([[(7 * (p + r) + 3 * c + shift) % 11 - 4 + i for c in range(d)] for r in range(n)], dtype='d') / 4.)
        p += n
    return out


class Det(par.Scheduler):
    """holds the tasks and runs them, when the results are requested, in the given order.  Mode 'share': the last callable is
    shared and forked for every task; 'pickle': callable, data and result travel through pickle, a worker caches the callable"""
    def __init__(self, order=None, mode='share', late=0, **kw):
        super(Det, self).__init__(**kw)
        self.order, self.mode, self.late = order, mode, late
        self.held = []
        self.log = []
        self.down = 0
        self.permuted = False
        self.ran = 0
        self.cache = (None, None)

    def _process_task(self, data, task_callable, task_index):
        self.held.append((data, task_callable, task_index, self._last_callable_index))
        self._lock.release()

    def run_held(self):
        held, self.held = self.held, []
        m = len(held)
        order = list(self.order) if self.order is not None else list(range(m))
        order = [i for i in order if i < m] + [i for i in range(m) if i not in order]
        if order != sorted(order):
            self.permuted = True
        for i in order:
            data, c, idx, cidx = held[i]
            try:
                if self.mode == 'share':
                    r = c.fork()(data)
                else:
                    if self.cache[0] != cidx:
                        cc = pickle.loads(pickle.dumps(c.fork()))
                        cc.setup_environment()
                        self.cache = (cidx, cc)
                    r = self.cache[1].fork()(pickle.loads(pickle.dumps(data)))
                    r = pickle.loads(pickle.dumps(r))
            except Exception as e:
                self._store_error(e, idx)
            else:
                self._store_result(r, idx)
            self.ran += 1

    def get_results(self):
        self.run_held()
        return super(Det, self).get_results()

    def _shutdown(self):
        self.down += 1


def nodes(kinds, d=2):
    return [I.make(k, 'n%d' % i, d) for i, k in enumerate(kinds)]


def trained(n):
    return n.is_trainable() and not n.is_training()


def close(flow):
    """the serial flow leaves the last phase of its last node open"""
    for n in flow:
        if n.is_trainable() and n.is_training():
            n.stop_training()


def datafor(kinds, m, form='lists'):
    out = []
    for i, k in enumerate(kinds):
        cs = chunks(m, shift=i)
        if k == 'S':
            cs = [(c, np.arange(len(c)) + j) if (j % 2 == 0) == (form != 'tuples') else [c, np.arange(len(c)) + j] for j, c in enumerate(cs)]
        if k in 'UCPQ':
            out.append(None if form != 'all' else cs)
            continue
        out.append({'lists': cs, 'tuples': cs, 'all': cs, 'iterable': Again(cs), 'gen': (c for c in cs)}[form])
    return out


class Again(object):
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(list(self.items))


def idle(flow, sched, where):
    check(not flow.is_parallel_training and not flow.is_parallel_executing and not flow.task_available, lambda: where() + 'the flow is not idle afterwards (training %r, executing %r, task available %r)' % (flow.is_parallel_training, flow.is_parallel_executing, flow.task_available), 'idle')
    if sched is not None:
        check(sched.n_open_tasks == 0, lambda: where() + '%d open tasks left in the scheduler' % sched.n_open_tasks, 'open-tasks')
    check('parallel' not in mdp.get_active_extensions(), lambda: where() + 'the parallel extension stays active', 'extension')
    try:
        pickle.dumps(flow)
    except Exception as e:
        raise Violation(where() + 'the flow cannot be pickled afterwards: %r' % e, 'pickle')


def same_nodes(ref, flow, where, counts=True):
    for i, (a, b) in enumerate(zip(ref, flow)):
        x, y = I.learned(a), I.learned(b)
        if not counts and isinstance(a, (I.Cnt, I.CntT)):
            continue
        check(x == y, lambda: where() + 'node %d learned %r, in the serial flow %r' % (i, y, x), 'learned')
        for at in ('input_dim', 'output_dim', 'dtype'):
            check(getattr(a, at) == getattr(b, at) or None in (getattr(a, at), getattr(b, at)), lambda: where() + 'node %d: %s %r, serial %r' % (i, at, getattr(b, at), getattr(a, at)), 'dims')


def same_exec(ctx, ref, flow, mk, m, where, kinds):
    for nodenr in [None] + list(range(len(kinds))):
        xs = chunks(m, shift=5)
        for form in ('list', 'array', 'gen', 'iterable'):
            give = lambda: {'list': xs, 'array': xs[0], 'gen': (x for x in xs), 'iterable': Again(xs)}[form]
            s = mk()
            a = ref.execute(give(), nodenr)
            b = flow.execute(give(), nodenr, s)
            check(isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and (a == b).all(), lambda: where() + 'execute(%s, nodenr=%r) returns %r, serial %r' % (form, nodenr, b, a), 'execute')
            check(s.ran == (m if form != 'array' else 1), lambda: where() + 'execute(%s) ran %d tasks for %d chunks' % (form, s.ran, m), 'tasks')
            idle(flow, s, where)
            ctx.step()
        same_nodes(ref, flow, where)


def train(ctx, kinds, m, form, mode, thorough):
    ref = mdp.Flow(nodes(kinds))
    ref.train(datafor(kinds, m, form))
    close(ref)
    check(all(not n.is_training() for n in ref), 'harness: reference not trained')
    phases = [I.make(k).get_remaining_train_phase() if k not in 'UC' else 0 for k in kinds]
    local = [k in 'LM' for k in kinds]
    done = set()
    for order in itertools.permutations(range(m)):
        ctx.at(kinds, m, form, mode, order)
        where = lambda: 'flow %s, %d chunks as %s, completion order %r, %s: ' % (kinds, m, form, order, mode)
        flow = par.ParallelFlow(nodes(kinds))
        s = Det(order, mode)
        keep = list(flow)
        flow.train(datafor(kinds, m, form), scheduler=s)
        check(all(a is b for a, b in zip(keep, flow)), lambda: where() + 'training replaced nodes of the flow', 'identity')
        want = 0
        for k, p in zip(kinds, phases):
            if k == 'A' or k == 'B':
                want += m
            elif k not in 'LMUC':
                want += m * p
        check(s.ran == want, lambda: where() + '%d tasks were run instead of %d' % (s.ran, want), 'tasks')
        idle(flow, s, where)
        same_nodes(ref, flow, where, counts=form != 'all')
        if s.permuted:
            ctx.mark(order)
        ctx.execution()
        ctx.state(kinds, m, form, mode, order)
        if form != 'all' and (order == tuple(reversed(range(m))) or thorough):
            r = ref.copy()
            same_exec(ctx, r, flow, lambda: Det(order, mode), m, where, kinds)
            # training a trained flow changes nothing, the scheduler can be used again
            flow.train([None] * len(kinds), scheduler=s)
            same_nodes(r, flow, where)
            idle(flow, s, where)
            b = flow.execute(chunks(m, shift=5), scheduler=s)
            check((b == r.execute(chunks(m, shift=5))).all(), lambda: where() + 'execution on the scheduler used for training differs', 'execute')
            done.add(order)
    ctx.outcome(kinds, m)


def containers(ctx, kinds, m, order):
    """foreign result containers, custom callables, no scheduler"""
    where = lambda: 'flow %s, order %r: ' % (kinds, order)
    ref = mdp.Flow(nodes(kinds))
    ref.train(datafor(kinds, m))
    close(ref)
    for cont in (par.ListResultContainer, par.OrderedResultContainer):
        flow = par.ParallelFlow(nodes(kinds))
        s = Det(order, 'share', result_container=cont())
        flow.train(datafor(kinds, m), scheduler=s, overwrite_result_container=False)
        check(type(s.result_container) is cont, where() + 'result container was replaced', 'container')
        same_nodes(ref, flow, where)
        if cont is par.OrderedResultContainer:
            a, b = ref.copy().execute(chunks(m)), flow.execute(chunks(m), scheduler=s, overwrite_result_container=False)
            check((a == b).all(), where() + 'execute with the given container differs', 'execute')
        idle(flow, s, where)
    for sched in (True, False):
        flow = par.ParallelFlow(nodes(kinds))
        try:
            flow.train(datafor(kinds, m), train_callable_class=TrainTwice, scheduler=Det(order) if sched else None)
        except par.ParallelFlowException:
            check(not sched, where() + 'a custom callable class was refused', 'refused')
            check(all(n.is_training() for n in flow if n.is_trainable() and n.tag[-1] not in 'PQ'), where() + 'a refused training changed the flow', 'refused-change')
            idle(flow, None, where)
            continue
        check(sched, where() + 'a callable class without a scheduler was silently ignored', 'silent')
        r2 = mdp.Flow(nodes(kinds))
        r2.train([None if cs is None else [c * 2. if not isinstance(c, (tuple, list)) else (c[0] * 2.,) + tuple(c[1:]) for c in cs] for cs in datafor(kinds, m)])
        close(r2)
        same_nodes(r2, flow, where)
        a = r2.execute([c * 4. for c in chunks(m)])
        b = flow.execute(chunks(m), scheduler=Det(order), execute_callable_class=ExecFour)
        check((a == b).all(), where() + 'custom execute callable gives %r instead of %r' % (b, a), 'execute')
        try:
            flow.execute(chunks(m), execute_callable_class=ExecFour)
            raise Violation(where() + 'a callable class without a scheduler was silently ignored', 'silent')
        except par.ParallelFlowException:
            pass
    flow = par.ParallelFlow(nodes(kinds))
    flow.train(datafor(kinds, m))
    close(flow)
    same_nodes(ref, flow, where)
    check((ref.copy().execute(chunks(m)) == flow.execute(chunks(m))).all(), where() + 'without scheduler differs', 'execute')
    ctx.execution(5)
    ctx.step(5)
    ctx.mark()
    ctx.state('containers', kinds, m, order)


class TrainTwice(par.FlowTrainCallable):
    def __call__(self, data):
        if isinstance(data, (tuple, list)):
            data = (data[0] * 2.,) + tuple(data[1:])
        else:
            data = data * 2.
        return super(TrainTwice, self).__call__(data)


class ExecFour(par.FlowExecuteCallable):
    def __call__(self, x):
        return super(ExecFour, self).__call__(x * 4.)


def many(ctx, kinds, m, order, none, gen):
    """an iterable with one scheduler per node"""
    where = lambda: 'flow %s with one scheduler per node%s: ' % (kinds, ' (None for nodes without training)' if none else '')
    ref = mdp.Flow(nodes(kinds))
    ref.train(datafor(kinds, m))
    close(ref)
    flow = par.ParallelFlow(nodes(kinds))
    ss = [None if none and k in 'UCPQ' else Det(order) for k in kinds]
    pulled = []

    def give():
        for i, s in enumerate(ss):
            pulled.append(i)
            yield s
    flow.train(datafor(kinds, m), scheduler=give() if gen else ss)
    same_nodes(ref, flow, where)
    for i, (k, s) in enumerate(zip(kinds, ss)):
        if s is None:
            continue
        want = 0 if k in 'UCPQLM' else m if k in 'ABH' else m * {'1': 1, '2': 2, '3': 3, 'S': 1, 'J': 2, 'K': 1}[k]
        check(s.ran == want, lambda: where() + 'scheduler %d ran %d tasks instead of %d' % (i, s.ran, want), 'tasks')
        if gen:
            check(s.down == (1 if i in pulled else 0), lambda: where() + 'scheduler %d was shut down %d times' % (i, s.down), 'shutdown')
        check(s.down <= 1 and (s.down == 1 or s.ran == 0), lambda: where() + 'scheduler %d was shut down %d times' % (i, s.down), 'shutdown')
    idle(flow, None, where)
    ctx.execution()
    ctx.step(len(kinds))
    ctx.mark()
    ctx.state('many', kinds, m, none, gen)


# ---------------------------------------------------------------- faults
def faults(kinds, m):
    for i, k in enumerate(kinds):
        if k in 'UCPQ':
            continue
        ph = {'1': 1, '2': 2, '3': 3, 'S': 1, 'L': 1, 'M': 2, 'A': 2, 'B': 2}[k]
        for p in range(ph):
            for c in range(m):
                yield ('train', i, p, c)
            yield ('stop', i, p)
        for j in range(i):
            for c in range(m):
                if not isinstance(I.make(kinds[j]), (I.Unt, I.Cnt)):
                    yield ('execute', i, j, c)
        for c in range(m + 1):
            yield ('data', i, c)
        yield ('none', i)
        yield ('empty', i)
    for j in range(len(kinds)):
        if kinds[j] not in 'UC':
            for c in range(m):
                yield ('run', j, c)
    for c in range(m + 1):
        yield ('rundata', c)


class raising(object):
    def __init__(self, items, c):
        self.items, self.c = items, c

    def __iter__(self):
        for i, x in enumerate(self.items):
            if i == self.c:
                raise Injected('injected data')
            yield x
        if self.c == len(self.items):
            raise Injected('injected data')


def fault(ctx, kinds, m, order, mode, f, sched):
    where = lambda: 'flow %s, %d chunks, order %r, %s, fault %r: ' % (kinds, m, order, mode, f)
    ref = mdp.Flow(nodes(kinds))
    ref.train(datafor(kinds, m))
    close(ref)
    flow = par.ParallelFlow(nodes(kinds))
    data = datafor(kinds, m)
    s = Det(order, mode) if sched == 'det' else par.Scheduler()

    def first(i, j, c):
        """value seen by node j when chunk c of node i passes"""
        x = data[i][c]
        x = x[0] if isinstance(x, (tuple, list)) else x
        return float((mdp.Flow([n.copy() for n in ref.flow[:j]]).execute(x) if j else x)[0, 0])
    if f[0] in ('train', 'stop', 'execute', 'data', 'none', 'empty'):
        i = f[1]
        bad = None
        if f[0] == 'train':
            flow[i].fault = ('train', f[2], (first(i, i, f[3]),))
        elif f[0] == 'stop':
            flow[i].fault = ('stop', f[2])
        elif f[0] == 'execute':
            bad = f[2]
            flow[bad].fault = ('execute', (first(i, bad, f[3]),))
        elif f[0] == 'data':
            data[i] = raising(data[i], f[2])
        elif f[0] == 'none':
            data[i] = None
        else:
            data[i] = []
        failed = None
        try:
            flow.train(data, scheduler=s)
        except Exception as e:
            failed = e
        if f[0] in ('none', 'empty'):
            check(isinstance(failed, mdp.FlowException), lambda: where() + 'raised %r instead of a FlowException' % (failed,), 'error')
        else:
            # an execute fault may also hit a chunk of an earlier node with the same value
            check(isinstance(failed, (Injected, mdp.FlowException)), lambda: where() + 'raised %r instead of the injected error' % (failed,), 'error')
            check('injected' in str(failed), lambda: where() + 'error text lost', 'error')
        ctx.mark(f)
        idle_after(flow, s, where)
        # nodes in front of the failing one are trained, the ones behind are untouched
        stop = i
        if f[0] == 'execute':
            stop = min(k for k in range(bad + 1, len(kinds)) if not trained(flow[k]) and flow[k].is_trainable())
        same_nodes(ref[:stop], flow[:stop], where, counts=False)
        fresh = mdp.Flow(nodes(kinds))
        same_nodes(fresh[stop + 1:], flow[stop + 1:], where, counts=False)
        # repaired, the flow can be trained with the same scheduler
        for n in flow:
            if hasattr(n, 'fault'):
                n.fault = None
        flow[stop] = I.make(kinds[stop], 'n%d' % stop, 2)
        flow.train(datafor(kinds, m), scheduler=s)
        same_nodes(ref, flow, where, counts=False)
        idle(flow, s, where)
    else:
        flow.train(data, scheduler=s)
        xs = chunks(m, shift=5)
        if f[0] == 'run':
            v = float((mdp.Flow([n.copy() for n in ref.flow[:f[1]]]).execute(xs[f[2]]) if f[1] else xs[f[2]])[0, 0])
            flow[f[1]].fault = ('execute', (v,))
            give = xs
        else:
            give = raising(xs, f[1])
        try:
            flow.execute(give, scheduler=s)
            raise Violation(where() + 'the error was lost', 'error')
        except (Injected, mdp.FlowException) as e:
            check('injected' in str(e), lambda: where() + 'raised %r instead of the injected error' % e, 'error')
        ctx.mark(f)
        idle_after(flow, s, where)
        for n in flow:
            if hasattr(n, 'fault'):
                n.fault = None
        same_nodes(ref, flow, where, counts=False)
    a, b = ref.execute(chunks(m, shift=5)), flow.execute(chunks(m, shift=5), scheduler=s)
    check(a.shape == b.shape and (a == b).all(), lambda: where() + 'execution afterwards returns %r instead of %r' % (b, a), 'after')
    idle(flow, s, where)
    ctx.execution()
    ctx.step(3)
    ctx.state('fault', kinds, m, f, order, mode)
    ctx.outcome(f[0])


def idle_after(flow, s, where):
    idle(flow, s, where)
    if isinstance(s, Det):
        check(not s.held, lambda: where() + 'tasks are left in the scheduler', 'open-tasks')


# ---------------------------------------------------------------- the manual protocol
def manual(ctx, kinds, m, depth, first):
    """every sequence of protocol operations"""
    ops = ['ST', 'SE', 'G', 'R', 'T', 'E', 'XE']
    ref = mdp.Flow(nodes(kinds))
    ref.train(datafor(kinds, m))
    close(ref)
    y = ref.copy().execute(chunks(m, shift=5))
    plan = []                               # tasks per parallel phase
    for k in kinds:
        plan += {'1': [m], '2': [m, m], 'S': [m], 'U': [], 'P': [], 'L': [], 'A': [m], 'B': [m]}[k]

    def step(st, op):
        """model: st = (phase, mode, fetched, left); returns (new state, expected outcome)"""
        phase, mode, fetched, left = st
        idle_ = mode is None
        if op == 'ST':
            if mode == 't':
                return st, 'refused'
            if mode == 'e':
                return None, None
            if phase == len(plan):
                return st, 'ok'
            return (phase, 't', 0, plan[phase]), 'ok'
        if op in ('SE', 'XE'):
            if mode == 't':
                return st, 'refused'
            if op == 'XE':
                return st if idle_ else (phase, None, 0, 0), 'empty'
            if phase < len(plan):
                return None, None
            return (phase, 'e', 0, m), 'ok'
        if op == 'G':
            if left == 0:
                return st, 'notask'
            return (phase, mode, fetched + 1, left - 1), 'task'
        if op == 'R':
            if idle_:
                return st, 'refused'
            if left:
                return None, None
            if mode == 'e':
                return (phase, None, 0, 0), 'result'
            phase += 1
            if phase == len(plan):
                return (phase, None, 0, 0), 'ok'
            return (phase, 't', 0, plan[phase]), 'ok'
        if op == 'T':
            if mode == 't':
                return st, 'refused'
            if mode == 'e':
                return None, None
            return (len(plan), None, 0, 0), 'ok'
        if op == 'E':
            if mode == 't':
                return st, 'refused'
            if mode == 'e' or phase < len(plan):
                return None, None
            return st, 'y'

    def replay(seq):
        flow = par.ParallelFlow(nodes(kinds))
        st = (0, None, 0, 0)
        held = []
        hist = []
        with mdp.extension('parallel'):
            for op in seq:
                hist.append(op)
                where = lambda: 'flow %s, protocol %s: ' % (kinds, ' '.join(hist))
                st2, want = step(st, op)
                if st2 is None:
                    return None
                err = res = None
                try:
                    if op == 'ST':
                        if want == 'ok':
                            held = []
                        flow.setup_parallel_training(datafor(kinds, m))
                    elif op == 'SE':
                        if want == 'ok':
                            held = []
                        flow.setup_parallel_execution(chunks(m, shift=5))
                    elif op == 'XE':
                        if want == 'empty':
                            held = []
                        flow.setup_parallel_execution([])
                    elif op == 'G':
                        task = flow.get_task()
                        held.append(task)
                    elif op == 'R':
                        c = None
                        results = []
                        for d, tc in held:
                            c = tc or c
                            results.append(c.fork()(d))
                        held = []
                        res = flow.use_results(results)
                    elif op == 'T':
                        flow.train(datafor(kinds, m), scheduler=Det((1, 0)))
                    elif op == 'E':
                        res = flow.execute(chunks(m, shift=5), scheduler=Det((1, 0)))
                except mdp.MDPException as e:
                    err = e
                if want == 'refused':
                    check(isinstance(err, par.ParallelFlowException), lambda: where() + 'not refused (%r)' % (err,), 'not-refused')
                elif want == 'notask':
                    check(isinstance(err, par.NoTaskException), lambda: where() + 'no NoTaskException (%r)' % (err,), 'notask')
                elif want == 'empty':
                    check(isinstance(err, mdp.FlowException), lambda: where() + 'empty data not refused (%r)' % (err,), 'not-refused')
                else:
                    check(err is None, lambda: where() + 'raised %r' % (err,), 'raised')
                if want == 'task':
                    check((held[-1][1] is not None) == (st2[2] == 1), lambda: where() + 'only the first task carries a callable', 'callable')
                if want in ('result', 'y'):
                    check(res.shape == y.shape and (res == y).all(), lambda: where() + 'returned %r instead of %r' % (res, y), 'execute')
                st = st2
                check(flow.is_parallel_training == (st[1] == 't'), lambda: where() + 'is_parallel_training %r' % flow.is_parallel_training, 'flags')
                check(flow.is_parallel_executing == (st[1] == 'e'), lambda: where() + 'is_parallel_executing %r' % flow.is_parallel_executing, 'flags')
                check(flow.task_available == (st[3] > 0), lambda: where() + 'task_available %r' % flow.task_available, 'flags')
                if want == 'refused':
                    ctx.mark(tuple(hist))
                ctx.step()
                ctx.state(kinds, m, st, op)
        if st[0] == len(plan) and plan:
            same_nodes(ref, flow, where, counts=False)
        ctx.execution()
        ctx.outcome(st[:2])
        return st

    def rec(seq):
        if len(seq) == depth:
            replay(seq)
            return
        # prune sequences that leave the specified protocol
        st = (0, None, 0, 0)
        loops = 0
        for op in seq:
            old, st = st, step(st, op)[0]
            if st is None:
                return
            loops += st == old
        if loops > 2:
            return
        for op in ops:
            if step(st, op)[0] is not None:
                rec(seq + [op])
    rec(list(first))


# ---------------------------------------------------------------- checkpoints
def checkpoints(ctx, kinds, m, order, sched, bi):
    log = []

    def cp(i, ret):
        def fn(node):
            log.append((i, I.learned(node)))
            return ret
        return fn
    where = lambda: 'checkpoint flow %s%s: ' % (kinds, '' if sched else ' without scheduler')
    ref = mdp.Flow(nodes(kinds))
    ref.train(datafor(kinds, m))
    close(ref)
    cps = [cp(i, [None, {'extra%d' % i: i}, {}][i % 3]) for i in range(len(kinds))]
    cls = bimdp.parallel.ParallelCheckpointBiFlow if bi else par.ParallelCheckpointFlow
    flow = cls(nodes(kinds))
    flow.train(datafor(kinds, m), cps, scheduler=Det(order) if sched else None)
    if not sched:
        close(flow)
    same_nodes(ref, flow, where)
    called = [i for i, l in log if kinds[i] not in 'UCPQ']
    check(called == [i for i, k in enumerate(kinds) if k not in 'UCPQ'], lambda: where() + 'checkpoints called for nodes %r' % called, 'called')
    for i, l in log:
        if sched or bi:
            check(kinds[i] in 'C' or l == I.learned(ref[i]), lambda: where() + 'node %d was not trained when its checkpoint was called: %r' % (i, l), 'when')
        if i % 3 == 1 and i in called:
            check(getattr(flow, 'extra%d' % i, None) == i, where() + 'the result of the checkpoint function is lost', 'result')
    flow._checkpoints = None        # local functions
    idle(flow, None, where)
    ctx.execution()
    ctx.step(len(log))
    ctx.mark()
    ctx.state('cp', kinds, m, order, sched, bi)


# ---------------------------------------------------------------- bidirectional flows
class Add(bimdp.BiNode):
    """executes with an argument of the message and adds to the outgoing message"""
    def __init__(self, **kw):
        super(Add, self).__init__(**kw)

    @staticmethod
    def is_trainable():
        return False

    def _execute(self, x, a=0.):
        return x + a, {'rows': len(x), 'ar': x[:, :1].copy(), 'l': [float(x[0, 0])]}


class Mute(bimdp.BiNode):
    @staticmethod
    def is_trainable():
        return False

    def _execute(self, x, b=0):
        return None, {'m': [b]}


class BiTr(I.BiCom2):
    """training uses an argument of the message"""
    def _tr(self, i, x, w=0):
        super(BiTr, self)._tr(i, x + w)

    def _get_train_seq(self):
        def tr(i):
            def _train(x, w=0):
                return self._tr(i, x, w)
            return _train
        return [(tr(i), (lambda i=i: self._st(i))) for i in range(self.PH)]


class StopRes(I.BiCom1):
    """returns data from stop_training, which then runs through the rest of the flow"""
    def _st(self, i):
        super(StopRes, self)._st(i)
        return np.array([[self.bias, 1.]]), {'from': self.tag}


RECORD = []


class Rec(bimdp.BiNode):
    @staticmethod
    def is_trainable():
        return False

    def _execute(self, x, msg=None):
        if msg and 'from' in msg:
            RECORD.append((x.tolist(), dict(msg)))
        return x, msg or {}


class ParallelBiTr(par.ParallelExtensionNode, BiTr):
    def _fork(self):
        return I.ParallelCom._fork(self)

    def _join(self, f):
        I.ParallelCom._join(self, f)


def binodes(kinds):
    out = []
    for i, k in enumerate(kinds):
        kw = dict(node_id='b%d' % i, input_dim=2)
        if k == 'a':
            n = Add(**kw)
        elif k == 'b':
            n = I.BiCom1('n%d' % i, **kw)
        elif k == 'c':
            n = BiTr('n%d' % i, **kw)
        elif k == 's':
            n = StopRes('n%d' % i, **kw)
        elif k == 'x':
            n = I.BiCom1('n%d' % i, stop_result=({'from': 'x%d' % i}, 'exit'), **kw)
        elif k == 'r':
            n = Rec(**kw)
        elif k == 'n':
            n = bimdp.hinet.BiFlowNode(bimdp.BiFlow([I.BiCom1('in%d' % i, node_id='in%d' % i, input_dim=2, output_dim=2), Add(node_id='ad%d' % i, input_dim=2)]), node_id='b%d' % i)
        else:
            n = I.make(k, 'n%d' % i, 2)
        out.append(n)
    return out


def bilearned(n):
    if isinstance(n, mdp.hinet.FlowNode):
        return tuple(bilearned(k) for k in n.flow)
    return I.learned(n)


TR = 'bcsxn123LMAB'


def bi(ctx, kinds, m, mode, msgs, thorough):
    def data():
        return [chunks(m, shift=i) if k in TR else None for i, k in enumerate(kinds)]

    def train_msgs():
        if not msgs:
            return None
        return [[{'w': j + 1., 'a': .5 * j} if j != 1 else {} for j in range(m)] if k in TR else None for i, k in enumerate(kinds)]
    stop = [({'q': 1} if k == 's' else {'q': 1, 'target': 'exit'}) if msgs and k in 'bcs' else None for k in kinds]
    xm = [{'a': 1. * j} for j in range(m)] if msgs else None

    def learn(flow, **kw):
        del RECORD[:]
        ms = train_msgs()
        d = data()
        # untrainable nodes need data or messages of the right form
        flow.train(d, msg_iterables=ms, stop_messages=stop, **kw)
        return [repr(r) for r in RECORD]

    def run(flow, kind, **kw):
        xs = chunks(m, shift=5)
        give = {'list': xs, 'array': xs[0], 'gen': (x for x in xs)}[kind]
        mm = None if xm is None else dict(xm[0]) if kind == 'array' else [dict(k) for k in xm]
        return flow.execute(give, mm, **kw)

    def cmp(a, b):
        if isinstance(a, dict):
            return isinstance(b, dict) and set(a) == set(b) and all(cmp(a[k], b[k]) for k in a)
        if isinstance(a, np.ndarray):
            return isinstance(b, np.ndarray) and a.shape == b.shape and (a == b).all()
        return type(a) is type(b) and a == b
    ref = bimdp.BiFlow(binodes(kinds))
    rec = learn(ref)
    check(all(not (n.is_trainable() and n.is_training()) for n in ref), 'harness: reference not trained')
    for order in itertools.permutations(range(m)):
        ctx.at(kinds, m, mode, msgs, order)
        where = lambda: 'bidirectional flow %s, %d chunks%s, completion order %r, %s: ' % (kinds, m, ' with messages' if msgs else '', order, mode)
        flow = bimdp.parallel.ParallelBiFlow(binodes(kinds))
        s = Det(order, mode)
        rec2 = learn(flow, scheduler=s)
        idle(flow, s, where)
        check(rec == rec2, lambda: where() + 'stop_training results reached the recording node as %r, serial %r' % (rec2, rec), 'stop-result')
        for i, (a, b) in enumerate(zip(ref, flow)):
            check(bilearned(a) == bilearned(b), lambda: where() + 'node %d learned %r, serial %r' % (i, bilearned(b), bilearned(a)), 'learned')
        r = ref.copy()
        for kind in ('list', 'array', 'gen'):
            a, b = run(r, kind), run(flow, kind, scheduler=Det(order, mode))
            check(isinstance(b, tuple) and len(b) == 2, lambda: where() + 'execute returned %r' % (b,), 'execute')
            check((a[0] is None and b[0] is None) or cmp(a[0], b[0]), lambda: where() + 'execute returned %r, serial %r' % (b[0], a[0]), 'execute')
            check(cmp(a[1], b[1]), lambda: where() + 'execute returned the message %r, serial %r' % (b[1], a[1]), 'execute-msg')
            idle(flow, None, where)
            ctx.step()
        for i, (a, b) in enumerate(zip(r, flow)):
            check(bilearned(a) == bilearned(b), lambda: where() + 'after execution node %d learned %r, serial %r' % (i, bilearned(b), bilearned(a)), 'learned')
        ctx.execution()
        ctx.state('bi', kinds, m, mode, msgs, order)
        if s.permuted:
            ctx.mark(order)
    ctx.outcome(kinds, msgs)


def bifault(ctx, kinds, m, mode, fault):
    """a failing task or stop_training leaves the flow usable"""
    where = lambda: 'bidirectional flow %s, %s, fault %r: ' % (kinds, mode, fault)
    def data():
        return [chunks(m, shift=i) if k in TR else None for i, k in enumerate(kinds)]
    ref = bimdp.BiFlow(binodes(kinds))
    ref.train(data())
    flow = bimdp.parallel.ParallelBiFlow(binodes(kinds))
    s = Det(None, mode)
    i = fault[1]
    d = data()
    if fault[0] == 'train':
        flow[i].fault = ('train', fault[2], [float((bimdp.BiFlow([n.copy() for n in ref.flow[:i]]).execute(x)[0] if i else x)[0, 0]) for x in d[i]][:1])
    elif fault[0] == 'stop':
        flow[i].fault = ('stop', fault[2])
    elif fault[0] == 'data':
        d[i] = raising(d[i], fault[2])
    else:
        d[i] = []
    try:
        flow.train(d, scheduler=s)
        raise Violation(where() + 'the error was lost', 'error')
    except Violation:
        raise
    except (Injected, mdp.MDPException) as e:
        check(fault[0] == 'empty' or 'injected' in str(e), lambda: where() + 'raised %r' % e, 'error')
    idle_after(flow, s, where)
    flow[i] = binodes(kinds)[i]
    flow.train(data(), scheduler=s)
    for j, (a, b) in enumerate(zip(ref, flow)):
        check(isinstance(a, I.Cnt) or bilearned(a) == bilearned(b), lambda: where() + 'after the repair node %d learned %r, serial %r' % (j, bilearned(b), bilearned(a)), 'learned')
    a, b = ref.execute(chunks(m)), flow.execute(chunks(m), scheduler=s)
    check((a[0] is None) == (b[0] is None) and (a[0] is None or (a[0] == b[0]).all()), where() + 'execution afterwards differs', 'after')
    idle(flow, s, where)
    ctx.execution()
    ctx.step(3)
    ctx.mark()
    ctx.state('bifault', kinds, mode, fault)
    ctx.outcome(fault[0])


SCENARIOS = {'train': train, 'containers': containers, 'many': many, 'fault': fault, 'manual': manual,
             'checkpoints': checkpoints, 'bi': bi, 'bifault': bifault}


def cases(tier):
    t = tier == 'thorough'
    single = '123SLMUCPHJABKQ'
    flows = [''.join(p) for r in (1, 2) for p in itertools.product(single, repeat=r)]
    flows += [''.join(p) for p in itertools.product('12LCUQ' if not t else '12SLMCUPABKQ', repeat=3)]
    for kinds in flows:
        trainable = any(k not in 'UCPQ' for k in kinds)
        for mode in ('share', 'pickle'):
            if not t and len(kinds) == 3 and mode == 'share' and 'C' not in kinds:
                continue
            for m in ((1, 2, 3, 4) if t and len(kinds) < 3 else (1, 2, 3) if t or len(kinds) < 3 else (3,)):
                yield 'train', dict(kinds=kinds, m=m, form='lists', mode=mode, thorough=t)
        multi = any(k in '23MJAB' for k in kinds)
        if len(kinds) <= 2 or t:
            for form in ('iterable', 'tuples', 'all') + (() if multi else ('gen',)):
                yield 'train', dict(kinds=kinds, m=2, form=form, mode='share', thorough=False)
    for kinds in [''.join(p) for r in (1, 2) for p in itertools.product('12SLCUPB', repeat=r)]:
        if any(k in '12SLB' for k in kinds):
            for order in itertools.permutations(range(3)):
                yield 'containers', dict(kinds=kinds, m=3, order=order)
    for kinds in [''.join(p) for r in (1, 2, 3, 4) for p in itertools.product('12LUPA' if r < 4 or t else '1LUP', repeat=r)]:
        for none in (False, True):
            for gen in (True, False):
                yield 'many', dict(kinds=kinds, m=2, order=(1, 0), none=none, gen=gen)
    for kinds in [''.join(p) for r in (1, 2, 3) for p in itertools.product('12LMUCPBS' if r < 3 else '1LCU' if not t else '12LCUB', repeat=r)]:
        if 'S' in kinds[1:] and not t:
            continue
        for mode in ('share', 'pickle'):
            for sched in ('det', 'base'):
                if sched == 'base' and mode == 'pickle':
                    continue
                m = 2 if not t else 3
                for f in faults(kinds, m):
                    yield 'fault', dict(kinds=kinds, m=m, order=tuple(reversed(range(m))), mode=mode, f=f, sched=sched)
    for kinds in ('1', '2', 'U', 'P', '12', 'L1', '1L', 'A1', 'UP', '1U', 'B', 'S'):
        d = 8 if t else 6
        for first in itertools.product(['ST', 'SE', 'G', 'R', 'T', 'E', 'XE'], repeat=2):
            yield 'manual', dict(kinds=kinds, m=2, depth=d + (1 if len(kinds) == 1 else 0), first=first)
    for kinds in [''.join(p) for r in (1, 2, 3) for p in itertools.product('12LUPB', repeat=r)]:
        for sched in (True, False):
            for b in (False, True):
                yield 'checkpoints', dict(kinds=kinds, m=2, order=(1, 0), sched=sched, bi=b)
    for kinds in [''.join(p) for r in (1, 2, 3) for p in itertools.product('abcsxrn1LUCPB' if r < 3 else 'abcsr1L' if not t else 'abcsxrn1LC', repeat=r)]:
        if kinds[-1] == 's' or (not any(k in TR for k in kinds) and len(kinds) == 3):
            continue
        for mode in (('share', 'pickle') if len(kinds) < 3 or t else ('pickle',)):
            for msgs in (False, True):
                yield 'bi', dict(kinds=kinds, m=3 if len(kinds) < 3 or t else 2, mode=mode, msgs=msgs, thorough=t)
    for kinds in [''.join(p) for r in (1, 2) for p in itertools.product('abcs1LC', repeat=r) if p[-1] != 's' and not (p[0] == 's' and p[1] in TR)]:
        for i, k in enumerate(kinds):
            if k not in TR:
                continue
            ph = 2 if k == 'c' else 1
            for mode in ('share', 'pickle'):
                for f in [('train', i, p) for p in range(ph)] + [('stop', i, p) for p in range(ph)] + [('data', i, c) for c in range(3)] + [('empty', i)]:
                    yield 'bifault', dict(kinds=kinds, m=2, mode=mode, fault=f)
