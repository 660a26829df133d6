"""B03: bidirectional training - every script of training, closing and execution results against the interpreter of the documented
rules, resets included; coroutine methods against the generators they are made of; runs after runs (failed ones too) against fresh ones."""
import copy
import itertools
import numpy as np
import mdp
import bimdp
from bimdp import BiFlow, BiNode, EXIT_TARGET, BiCheckpointFlow, binode_coroutine
from bimdp.hinet import BiFlowNode, CloneBiLayer
from ..core import check, Violation
from .. import biref as R
from ..biref import NONE

LEVEL = 'model_checking'
RULE = 'training with at least one scripted result, message or stop message; call history of a coroutine with at least two calls; second run after another one'
ASSUMPTIONS = ["messages do not use the keys 'x' and 'self'", 'runs with more than 40 node calls are not compared (they are loops in the scripts)',
               'stop messages are addressed to bidirectional nodes only (documented)', 'a coroutine receives its arguments as a tuple, as documented']

X = np.array([[1., 2.], [3., 4.]])


FLOWS = {
    'A': lambda: [R.Leaf('a', 1, 1, 2)],
    'aB': lambda: [R.Leaf('a', 1, 0), R.Leaf('b', 2, 1, 2)],
    'Ab': lambda: [R.Leaf('a', 1, 1, 1), R.Leaf('b', 2, 0)],
    'aBc': lambda: [R.Leaf('a', 1, 1), R.Leaf('b', 2, 1, 1), R.Leaf('c', 3, 2)],
    'AbC': lambda: [R.Leaf('a', 1, 2, 1), R.Leaf('b', 2, 1), R.Leaf('c', 3, 1, 1)],
    'aPc': lambda: [R.Leaf('a', 1, 1), R.Plain('-', 4, 2), R.Leaf('c', 3, 1, 1)],
    'A-P': lambda: [R.Leaf('a', 1, 0, 1), R.Plain('=', 5), R.Plain('-', 4, 1)],
    'a3': lambda: [R.Leaf('a', 1, 1), R.Leaf('b', 2, 3, 1), R.Leaf('c', 3, 1)],
    'a[B]': lambda: [R.Leaf('a', 1, 1), R.Box('F', [R.Leaf('b', 2, 1, 1)])],
    'a[Bc]': lambda: [R.Leaf('a', 1, 1), R.Box('F', [R.Leaf('b', 2, 1, 2), R.Leaf('c', 3, 1)])],
    '[aB]C': lambda: [R.Box('F', [R.Leaf('a', 1, 1), R.Leaf('b', 2, 2, 1)]), R.Leaf('c', 3, 1, 1)],
    '[AP]c': lambda: [R.Box('F', [R.Leaf('a', 1, 1, 1), R.Plain('-', 4, 1)]), R.Leaf('c', 3, 1)],
    '[a[B]C]': lambda: [R.Box('F', [R.Leaf('a', 1, 1), R.Box('G', [R.Leaf('b', 2, 1, 1)]), R.Leaf('c', 3, 1, 1)])],
    'x[By]': lambda: [R.Leaf('a', 1, 1, 2, trained=True), R.Box('F', [R.Leaf('b', 2, 1, 1), R.Leaf('c', 3, 1, 1, trained=True)])],
    's': lambda: [R.Leaf('a', 1, 1), R.Leaf('b', 2, 1, 1, stop_result=({'k': 9, 'a': 4}, 'a')), R.Leaf('c', 3, 1)],
    's2': lambda: [R.Leaf('a', 1, 1), R.Leaf('b', 2, 1, 2, stop_result=[({'k': 9}, None), ({'c->a': 4}, 1)]), R.Leaf('c', 3, 1, 1, stop_result=({}, -1))],
    'sl': lambda: [R.Leaf('b', 2, 1), R.Leaf('a', 1, 1, 1, stop_result=({'a->method': 'inverse'}, None))],
}


def actions(small):
    out = [None, ('y', None, NONE), ('y', {'k': 1}, NONE)]
    for t in ([1, -1, 0, 'a', 'b', 'c', 'nope', EXIT_TARGET, 2, -2] if not small else [1, -1, 'a', 'b', 'c', EXIT_TARGET]):
        out.append(('y', {'a': 3}, t))
    if not small:
        out += [('N', {'k': 1}, NONE), ('N', {'k': 1}, 'a'), ('M', {'k': 1}, 'a'), ('M', None, -1), ('y', {'b->a': 7}, NONE), ('y', {'b->method': 'other'}, NONE),
                ('y', {'b->method': 'inverse'}, 'b'), ('y', {'b->target': 'a'}, 'b'), ('y', {'method': 'inverse'}, -1), ('y', {}, NONE), ('raise', None, NONE)]
    else:
        out += [('N', {'k': 1}, 'a'), ('M', {'b->a': 2}, -1), ('y', {'b->method': 'other'}, NONE)]
    return out


def data(spec, nchunks, msgs):
    """per node a list of (x, msg)"""
    out = []
    for i, n in enumerate(spec.nodes):
        out.append([(X + 10 * i + c, None if msgs is None else copy.deepcopy(msgs[c % len(msgs)])) for c in range(nchunks)])
    return out


MSGS = {'none': None, 'k': [{'k': 0}, {'a': 1, 'b->a': 2}], 'id': [{'b->a': 1, 'b->zz': 2, 'c->a': 3}], 'target': [{'a->target': 'b', 'b->target': 'a'}], 'method': [{'a->method': 'other'}, {}]}
STOPS = {'none': None, 'arg': {'a': 6, 'k': 5, 'b->b': 7}, 'target': {'target': 'a', 'm': 1}, 'empty': {}, 'exit': {'a->target': EXIT_TARGET, 'b->target': -1}}


def compare(ctx, make, chunks, stops, script, call, where, cls=BiFlow):
    spec = R.Flow(make())
    kind, _, ref = R.run_ref(lambda: spec.train(copy.deepcopy(chunks), stops), script)
    if kind == 'diverge':
        ctx.note('diverging scripts skipped')
        return
    spec0 = R.Flow(make())
    flow = cls([n.build() for n in spec0.nodes])
    cc = copy.deepcopy((chunks, stops))
    rk, got, real = R.run_real(lambda: call(flow, *cc), script)
    ctx.execution()
    ctx.step(len(ref.log))
    ctx.outcome(kind, ref.pos)
    rl, gl = R.squeeze(ref.log), R.squeeze(real.log)
    ctx.state(where[0], kind, repr(rl))
    check(gl == rl, lambda: '%s: nodes were called as\n %s instead of\n %s' % (where, gl, rl), 'route')
    check(rk == kind or (kind == 'missing' and rk == 'flow-error'), lambda: '%s: outcome %s (%r) instead of %s' % (where, rk, got, kind), 'outcome')
    check(repr(R.show(cc)) == repr(R.show((chunks, stops))), lambda: '%s: the input of the caller was changed to %s' % (where, R.show(cc)), 'caller')
    if kind == 'ok':
        check(not any(n.is_training() for n in flow), lambda: '%s: nodes left in training' % (where,), 'unfinished')
    if any(script) or stops or any(m for c in chunks if c for _, m in c):
        ctx.mark(where)


def lists(flow, chunks, stops):
    flow.train([[x for x, _ in c] for c in chunks], [[m for _, m in c] for c in chunks], stops)


def training(ctx, flow, first, depth, small, msgs, stop, chunks):
    acts = actions(small)
    if first >= len(acts):
        return
    for rest in itertools.product(range(len(acts)), repeat=depth - 1):
        script = [acts[first]] + [acts[i] for i in rest]
        for m in msgs:
            for s in stop:
                spec = R.Flow(FLOWS[flow]())
                d = data(spec, chunks, MSGS[m])
                st = None if s == 'none' else [STOPS[s] if not n.plain else None for n in spec.nodes]
                where = (flow, script, m, s, chunks)
                ctx.at(where)
                compare(ctx, FLOWS[flow], d, st, script, lists, where)


def forms(ctx, flow):
    """every way of giving data and messages"""
    for nc in (1, 2):
        for m in ('none', 'k', 'id'):
            base = data(R.Flow(FLOWS[flow]()), nc, MSGS[m])
            one = [base[0]] * len(base)
            multi = any(n.n > 1 for n in R.Flow(FLOWS[flow]()).nodes)
            variants = [('lists', base, lists),
                        ('tuples', base, lambda f, c, s: f.train([tuple(x for x, _ in k) for k in c], [tuple(v for _, v in k) for k in c], s)),
                        ('none-untrained', [b if n.n else None for b, n in zip(base, R.Flow(FLOWS[flow]()).nodes)],
                         lambda f, c, s: f.train([k and [x for x, _ in k] for k in c], [k and [v for _, v in k] for k in c], s))]
            if nc == 1:
                variants.append(('array', one, lambda f, c, s: f.train(c[0][0][0], c[0][0][1], s)))
                if m != 'none':
                    # message only: no data at all
                    variants.append(('nodata', [[(None, v) for _, v in b] for b in base], lambda f, c, s: f.train(None, [[v for _, v in k] for k in c], s)))
            if not multi:
                variants.append(('iterators', base, lambda f, c, s: f.train([iter([x for x, _ in k]) for k in c], [iter([v for _, v in k]) for k in c], s)))
            if m == 'none':
                variants.append(('nomsg', base, lambda f, c, s: f.train([[x for x, _ in k] for k in c], None, s)))
            for name, d, call in variants:
                for script in ([], [('y', {'k': 1}, NONE)], [None, ('N', {'k': 1}, 'a')], [('M', {'a': 2}, 1)]):
                    where = (flow, name, nc, m, script)
                    ctx.at(where)
                    compare(ctx, FLOWS[flow], d, None, script, call, where)
    # an exhausted or empty iterator is reported
    if flow == 'a3':
        return          # needs messages
    for bad in ('empty', 'exhausted'):
        spec = R.Flow(FLOWS[flow]())
        f = spec.build()
        R.RUN[0] = R.Script([])
        its = [[] if bad == 'empty' else iter([X]) for _ in spec.nodes]
        want = bad == 'empty' or any(n.n - n.phase > 1 for n in spec.nodes)
        try:
            f.train(its)
            ok = True
        except mdp.MDPException:
            ok = False
        check(ok != want, lambda: '%s: training on %s iterators %s' % (flow, bad, 'accepted' if ok else 'refused'), 'iterators')
        ctx.execution()


def checkpoint(ctx, flow, first):
    """a checkpoint flow trains in the same way and calls each function right after the node was closed"""
    acts = actions(True)
    if first >= len(acts):
        return
    for rest in range(len(acts)):
        script = [acts[first], acts[rest]]
        spec0 = R.Flow(FLOWS[flow]())
        d = data(spec0, 1, MSGS['k'])
        calls = []

        def call(f, c, s):
            def cp(node, i):
                calls.append((i, [n.get_current_train_phase() if n.is_trainable() else None for n in f]))
                return {'cp%d' % i: i}
            cps = [(lambda node, i=i: cp(node, i)) for i in range(len(f))]
            f.train([[x for x, _ in k] for k in c], cps, [[m for _, m in k] for k in c], s)
            check([k for k, _ in calls] == list(range(len(f))), lambda: 'checkpoints called %s' % (calls,), 'checkpoints')
            for i, phases in calls:
                for j, n in enumerate(spec0.nodes):
                    if n.n:
                        pre = n.phase if isinstance(n, R.Leaf) else 0
                        left = n.n - n.phase
                        check(phases[j] == pre + (left if j <= i else 0), lambda: 'checkpoint %d saw phases %s' % (i, phases), 'checkpoint-moment')
                check(getattr(f, 'cp%d' % i) == i, lambda: 'checkpoint result %d lost' % i, 'checkpoint-result')
        where = (flow, 'checkpoint', script)
        ctx.at(where)
        del calls[:]
        compare(ctx, FLOWS[flow], d, None, script, call, where, BiCheckpointFlow)


# ------------------------------------------------------------------ coroutines
def co_plain(self, x, alpha, log):
    """three steps"""
    log.append(('start', R.show(x), alpha))
    x, alpha, beta = yield x + 1, {'s': 1}, 'self'
    log.append(('two', R.show(x), alpha, beta))
    x, alpha, beta = yield x + 2, {'s': 2, 'alpha': alpha}
    log.append(('three', R.show(x), alpha, beta))
    yield x + 3


class Co(BiNode):
    def __init__(self, log, node_id=None):
        super(Co, self).__init__(node_id=node_id)
        self.lg = log

    @staticmethod
    def is_trainable():
        return False

    @binode_coroutine(['alpha', 'beta'], defaults=(7, 8))
    def _execute(self, x, alpha=5):
        """doc of execute"""
        self.lg.append(('E0', R.show(x), alpha))
        x, alpha, beta = yield x + 1, {'s': 1}, 0
        self.lg.append(('E1', R.show(x), alpha, beta))
        x, alpha, beta = yield x + 2
        self.lg.append(('E2', R.show(x), alpha, beta))
        return x + 3, {'done': alpha}

    @binode_coroutine(['gamma'], defaults=(1,))
    def _other(self, x):
        self.lg.append(('O0', R.show(x)))
        x, gamma = yield x - 1
        self.lg.append(('O1', R.show(x), gamma))
        return

    @binode_coroutine()
    def _never(self, x, alpha=None):
        self.lg.append(('N0', R.show(x), alpha))
        return x * 10
        yield

    def _bad(self, x):
        raise RuntimeError('scripted')


class RefCo(object):
    """the state machine the generators describe"""
    def __init__(self):
        self.log = []
        self.reset()

    def reset(self):
        self.e = self.o = 0

    def execute(self, x, kw):
        if self.e == 0:
            self.log.append(('E0', R.show(x), kw.get('alpha', 5)))
            self.e = 1
            return x + 1, {'s': 1}, 0
        al, be = kw.get('alpha', 7), kw.get('beta', 8)
        if self.e == 1:
            self.log.append(('E1', R.show(x), al, be))
            self.e = 2
            return x + 2
        self.log.append(('E2', R.show(x), al, be))
        self.e = 0
        return x + 3, {'done': al}

    def other(self, x, kw):
        if self.o == 0:
            self.log.append(('O0', R.show(x)))
            self.o = 1
            return x - 1
        self.log.append(('O1', R.show(x), kw.get('gamma', 1)))
        self.o = 0
        return None

    def never(self, x, kw):
        self.log.append(('N0', R.show(x), kw.get('alpha')))
        return x * 10


CALLS = [('execute', {}), ('execute', {'alpha': 1}), ('execute', {'alpha': 2, 'beta': 3}), ('other', {}), ('other', {'gamma': 4}), ('never', {}), ('never', {'alpha': 6}), ('bad', {}), ('reset', {}), ('copy', {})]


def coroutine(ctx, first, second, depth):
    """every history of calls of two suspended methods, resets and copies of an idle node included; two instances side by side"""
    for rest in itertools.product(range(len(CALLS)), repeat=depth - 2):
        seq = (first, second) + rest
        nodes = [Co([], node_id='a'), Co([], node_id='b')]
        refs = [RefCo(), RefCo()]
        for k, c in enumerate(seq):
            name, kw = CALLS[c]
            for i in (0, 1):
                if i == 1 and k % 2:
                    continue          # the other instance only takes part in every other call
                node, ref = nodes[i], refs[i]
                x = np.full((1, 2), float(k))
                ctx.at(seq, k, i)
                if name == 'reset':
                    node.bi_reset()
                    ref.reset()
                    continue
                if name == 'copy':
                    if ref.e or ref.o:
                        continue      # a running generator cannot be copied
                    nodes[i] = node.copy()
                    continue
                msg = dict(kw)
                if name != 'execute':
                    msg['method'] = name
                try:
                    got = node.execute(x, msg) if msg else node.execute(x)
                except RuntimeError:
                    check(name == 'bad', lambda: '%s: call %d failed' % (seq, k), 'co-error')
                    continue
                r = getattr(ref, name)(x, kw)
                exp = R.Leaf.combine(r, dict(msg), None) if msg else r
                check(R.show(got) == R.show(exp), lambda: '%s: call %d (%s %s) of node %d gives %r instead of %r' % ([CALLS[j] for j in seq], k, name, kw, i, got, exp), 'co-result')
                check(node.lg == ref.log, lambda: '%s: call %d (%s): resumed as %s instead of %s' % ([CALLS[j] for j in seq], k, name, node.lg[-1:], ref.log[-1:]), 'co-resume')
                ctx.step()
        ctx.execution()
        ctx.state(tuple((r.e, r.o) for r in refs), repr(refs[0].log))
        ctx.mark(seq)
    check(nodes[0].execute.__doc__ == 'doc of execute', lambda: 'doc lost', 'co-doc')


# ------------------------------------------------------------------ run after run
class Mem(BiNode):
    """remembers everything until it is reset; its results show what it remembers"""
    def __init__(self, node_id, code, phases=0, jump=None, fail=None):
        self.phases = phases
        super(Mem, self).__init__(node_id=node_id, input_dim=2)
        self.code, self.jump, self.fail = code, jump, fail
        self.seen = []

    def is_trainable(self):
        return self.phases > 0

    def _bi_reset(self):
        self.seen = []

    def _set_input_dim(self, n):
        self._input_dim = n
        self._output_dim = n

    def _visit(self, kind, x, k=None):
        self.seen.append((kind, k))
        if self.fail == len(self.seen):
            raise RuntimeError('scripted')
        y = None if x is None else x + self.code + len(self.seen)
        if self.jump and len(self.seen) == 1:
            return (y, {'k': repr(self.seen)}) + self.jump
        return y, {'k': repr(self.seen)}

    def _execute(self, x, k=None):
        return self._visit('e', x, k)

    def _train(self, x, k=None):
        r = self._visit('t', x, k)
        return r if len(r) == 3 else None

    def _stop_training(self, k=None):
        return None

    def _get_train_seq(self):
        return [(self._train, self._stop_training)] * self.phases


class Susp(Mem):
    @binode_coroutine(['k'], defaults=(None,))
    def _execute(self, x, k=None):
        x, k = yield self._visit('s', x, k)
        x, k = yield self._visit('u', x, k)
        return self._visit('v', x, k)


def structure(name, trained):
    p = 0 if trained else 1
    J = [None, ('a',), (-1,), (EXIT_TARGET,)]
    return {'flat': lambda j, f: BiFlow([Mem('a', 1, 0), Mem('b', 2, p, J[j], f), Susp('c', 3, 0)]),
            'box': lambda j, f: BiFlow([Susp('a', 1, 0), BiFlowNode(BiFlow([Mem('b', 2, p, J[j], f), Mem('d', 4)]), node_id='F'), Mem('c', 3, 0)]),
            'boxbox': lambda j, f: BiFlow([BiFlowNode(BiFlow([Susp('a', 1), BiFlowNode(BiFlow([Mem('b', 2, p, J[j], f)]))])), Mem('c', 3, 0)]),
            'clone': lambda j, f: BiFlow([Mem('a', 1), CloneBiLayer(One('b', p, J[j], f), 2, node_id='L'), Mem('c', 3)]),
            'copies': lambda j, f: BiFlow([Mem('a', 1), CloneBiLayer(One('b', p, J[j], f), 2, use_copies=True, node_id='L'), Susp('c', 3)])}[name]


class One(Mem):
    def __init__(self, node_id, phases, jump, fail):
        super(One, self).__init__(node_id, 2, phases, jump, fail)
        self._input_dim = self._output_dim = 1


def leak(ctx, name, jump, fail, trained):
    """run A then run B: B must be as on a fresh flow, also after A has failed"""
    make = structure(name, trained)
    runs = [('x', lambda f: f.execute(X)), ('xx', lambda f: f.execute([X, X + 1])), ('xm', lambda f: f.execute(X, {'k': 5})), ('xt', lambda f: f.execute(X, None, 'c')), ('xmm', lambda f: f.execute([X, X], [{'k': 1}, {'k': 2}]))]

    def go(flow, fn):
        try:
            return 'ok', R.show(fn(flow))
        except mdp.MDPException as e:
            return type(e).__name__, ''
        except RuntimeError as e:
            if str(e) != 'scripted':
                raise
            return 'failed', ''
    for an, a in runs:
        for bn, b in runs:
            A, B = make(jump, None), make(jump, None)
            if not trained:
                for f in (A, B):
                    try:
                        f.train(X)
                    except mdp.MDPException:
                        return
            nodes = inner(A)
            mems = [n for n in nodes if isinstance(n, Mem)]
            targets = [m for m in mems if m._node_id == 'b']
            for m in targets:
                m.fail = fail
            ctx.at(name, jump, fail, an, bn)
            r1 = go(A, a)
            for m in inner(A):
                if isinstance(m, Mem):
                    m.fail = None
            if r1[0] == 'ok':
                for m in inner(A):
                    check(not isinstance(m, Mem) or (m.seen == [] and not m._coroutine_instances), lambda: '%s: node %r keeps %r after the run' % ((name, jump, an), m, m.seen), 'left')
            r2, e2 = go(A, b), go(B, b)
            check(r2 == e2, lambda: '%s: second run gives %s instead of %s (first: %s)' % ((name, jump, fail, an, bn), r2, e2, r1), 'leak')
            ctx.execution(2)
            ctx.outcome(r1[0], r2[0])
            ctx.mark(an, bn)


def inner(flow):
    out = []
    for n in flow:
        if isinstance(n, BiFlowNode):
            out += inner(n._flow)
        elif isinstance(n, CloneBiLayer):
            out += list(n.nodes)
        else:
            out.append(n)
    return out


SCENARIOS = dict(training=training, forms=forms, checkpoint=checkpoint, coroutine=coroutine, leak=leak)


def cases(tier):
    q = tier == 'quick'
    full, small = len(actions(False)), len(actions(True))
    for flow in FLOWS:
        yield 'forms', dict(flow=flow)
        for first in range(small):
            yield 'checkpoint', dict(flow=flow, first=first)
        for first in range(full):
            yield 'training', dict(flow=flow, first=first, depth=1, small=False, msgs=tuple(MSGS), stop=tuple(STOPS), chunks=1)
            yield 'training', dict(flow=flow, first=first, depth=2, small=False, msgs=('none', 'id') if q else tuple(MSGS), stop=('none', 'arg') if q else tuple(STOPS), chunks=1)
        for first in range(small):
            yield 'training', dict(flow=flow, first=first, depth=3, small=True, msgs=('none',) if q else ('none', 'k', 'target'), stop=('none',) if q else ('none', 'arg', 'exit'), chunks=1)
            if not q:
                yield 'training', dict(flow=flow, first=first, depth=3, small=True, msgs=('none', 'id'), stop=('none', 'target'), chunks=2)
                yield 'training', dict(flow=flow, first=first, depth=4, small=True, msgs=('none',), stop=('none',), chunks=1)
    d = 5 if q else 6
    for i in range(len(CALLS)):
        for j in range(len(CALLS)):
            yield 'coroutine', dict(first=i, second=j, depth=d)
    for name in ('flat', 'box', 'boxbox', 'clone', 'copies'):
        for jump in range(4):
            for fail in (None, 1, 2, 3):
                for trained in (True, False):
                    yield 'leak', dict(name=name, jump=jump, fail=fail, trained=trained)
