"""H01: layers and flow nodes in every nesting against a reference tree that operates independent inner nodes by hand."""
import itertools
import numpy as np
import mdp
from mdp.hinet import Layer, CloneLayer, SameInputLayer, FlowNode
from ..core import check, Violation
from .. import catalog as C
from .. import inst as I

LEVEL = 'model_checking'
RULE = 'sequence with at least two accepted calls on a structure with at least two inner nodes'
ASSUMPTIONS = ['inner nodes are not used outside the structure once it has been built', 'structures of instrumented row-local nodes: up to three inner nodes and two levels of nesting',
               'clone layers around nodes that are not row-local: see the known findings']


# ---------------------------------------------------------------- the reference
class RNode(object):
    """life cycle of a node with n phases (as decided by N01)"""
    n = 0
    phase = 0
    started = False

    @property
    def training(self):
        return self.phase < self.n

    @property
    def remaining(self):
        return self.n - self.phase

    def train(self, x, *args):
        if not self.n:
            raise mdp.IsNotTrainableException
        if not self.training:
            raise mdp.TrainingFinishedException
        if x.shape[1] != self.w:
            raise mdp.NodeException
        self.started = True
        self.tr(x, *args)

    def stop(self):
        if not self.training:
            raise mdp.TrainingFinishedException
        if not self.started:
            raise mdp.TrainingException
        self.st()
        self.phase += 1
        self.started = False

    def close(self):
        if self.training:
            self.stop()
            if self.training:
                raise mdp.TrainingException

    def execute(self, x, *args):
        if self.n and self.phase == 0 and not self.started:
            while True:
                self.train(x)
                if self.remaining > 1:
                    self.stop()
                else:
                    break
        self.close()
        if x.shape[1] != self.w:
            raise mdp.NodeException
        return self.ex(x, *args)

    def inverse(self, y):
        if not self.invertible:
            raise mdp.IsNotInvertibleException
        self.close()
        if y.shape[1] != self.ow:
            raise mdp.NodeException
        return self.inv(y)


class RLeaf(RNode):
    def __init__(self, node):
        self.node = node
        self.w = node.input_dim
        self.ow = self.w + node.WIDEN
        self.n = node.get_remaining_train_phase() if node.is_trainable() else 0
        self.invertible = node.is_invertible()
        self.leaves = [node]
        self.train0 = node.is_training()
        if self.train0:
            self.started = node._train_phase_started

    def tr(self, x, *args):
        self.node.train(x, *args)

    def st(self):
        self.node.stop_training()

    def ex(self, x, *args):
        return self.node.execute(x, *args)

    def inv(self, y):
        return self.node.inverse(y)


class RLayer(RNode):
    def __init__(self, children, same=False, clone=0):
        self.c = children
        self.same, self.clone = same, clone
        rep = children * clone if clone else children
        self.rep = rep
        self.w = rep[0].w if same else sum(c.w for c in rep)
        self.ow = sum(c.ow for c in rep)
        self.n = max(c.remaining for c in children)
        self.invertible = not same and all(c.invertible for c in children)
        self.leaves = [l for c in children for l in c.leaves]

    def cut(self, x, back=False):
        if self.same:
            return [x] * len(self.rep)
        b = np.cumsum([0] + [c.ow if back else c.w for c in self.rep])
        return [x[:, b[i]:b[i + 1]] for i in range(len(self.rep))]

    def tr(self, x, *args):
        for c, xi in zip(self.rep, self.cut(x)):
            if c.training:
                c.train(xi, *args)

    def st(self):
        for c in self.c:
            if c.training:
                c.stop()

    def ex(self, x, *args):
        return np.hstack([c.execute(xi, *args) for c, xi in zip(self.rep, self.cut(x))])

    def inv(self, y):
        return np.hstack([c.inverse(yi) for c, yi in zip(self.rep, self.cut(y, True))])


class RFlow(RNode):
    def __init__(self, children):
        self.c = children
        self.w, self.ow = children[0].w, children[-1].ow
        self.seq = [i for i, c in enumerate(children) for _ in range(c.remaining)]
        self.n = len(self.seq)
        self.invertible = all(c.invertible for c in children)
        self.leaves = [l for c in children for l in c.leaves]

    def tr(self, x, *args):
        i = self.seq[self.phase]
        for c in self.c[:i]:
            x = c.execute(x)
        self.c[i].train(x, *args)

    def st(self):
        self.c[self.seq[self.phase]].stop()

    def ex(self, x):
        for c in self.c:
            x = c.execute(x)
        return x

    def inv(self, y):
        for c in self.c[::-1]:
            y = c.inverse(y)
        return y


class Exe(mdp.Node):
    WIDEN = 0
    acc = 0

    def __init__(self, tag, **k):
        super(Exe, self).__init__(**k)
        self.tag, self.log = tag, []

    @staticmethod
    def is_trainable():
        return False

    """execution and inversion take an extra argument"""
    def _execute(self, x, k=1):
        return x * k + 1

    def _inverse(self, y):
        return y - 1


class Std(object):
    """output dimension by the default of all nodes (equal to the input dimension at the first execution)"""
    def _check_input(self, x):
        mdp.Node._check_input(self, x)


class W(Std, I.RecW):
    """output dimension follows from the input dimension"""
    def _set_input_dim(self, n):
        self._input_dim = n
        self._output_dim = n + 1


class V(Std, I.Rec1):
    """output dimension known after training"""
    WIDEN = 1

    def _st(self, i):
        super(V, self)._st(i)
        self.output_dim = self.input_dim + 1


MK = {k: (W if k == 'W' else V if k == 'V' else type('H' + k, (Std, c), {})) for k, c in list(I.KINDS.items()) + [('V', None)]}
MK.update(P=MK['1'], Q=MK['2'], H=MK['2'], J=MK['2'])
globals().update({'H' + k: c for k, c in MK.items() if c.__name__ == 'H' + k})


def leaf(kind, w, tag, odim):
    if kind == 'E':
        n = Exe(tag, input_dim=w)
    elif kind in 'PQHJ':
        n = MK[kind](tag + kind, input_dim=w)
        x = np.arange(1., 1 + 2 * w).reshape(2, w)
        for _ in range(1 if kind in 'HJ' else n.PH):
            n.train(x)
            if kind != 'J':
                n.stop_training()
        n.log = []
    else:
        n = MK[kind](tag + kind, input_dim=w)
    if odim and n.output_dim is None:
        n.output_dim = w + n.WIDEN
    return n


class Skip(Exception):
    pass


def create(spec, w, odim, ref, tag='n', total=False):
    """spec: kind letter | ['L', s...] | ['S', s...] | ['C', s, n] | ['F', s...]; w: input width of every leaf slice, or (total) of the whole structure"""
    if isinstance(spec, str):
        n = leaf(spec, w, tag, odim)
        return RLeaf(n) if ref else n
    t = spec[0]
    if t == 'F':
        out = []
        for i, s in enumerate(spec[1:]):
            c = create(s, w, odim, ref, tag + str(i), i > 0 or total)
            r = c if ref else create(s, w, odim, True, tag + str(i), i > 0 or total)
            w = r.ow
            out.append(c)
        return RFlow(out) if ref else FlowNode(mdp.Flow(out))
    if t == 'C':
        if total:
            if w % spec[2]:
                raise Skip
            w //= spec[2]
        c = create(spec[1], w, odim, ref, tag + '0', total)
        return RLayer([c], clone=spec[2]) if ref else CloneLayer(c, spec[2])
    n = len(spec) - 1
    ws = [w if t == 'S' else w + (i % 2) * (w == 1) for i in range(n)]
    if total and t == 'L':
        if w < n:
            raise Skip
        ws = [1] * (n - 1) + [w - n + 1]
    out = [create(s, ws[i], odim, ref, tag + str(i), total or t == 'S') for i, s in enumerate(spec[1:])]
    if ref:
        return RLayer(out, same=t == 'S')
    return (SameInputLayer if t == 'S' else Layer)(out)


def leaves(node):
    if isinstance(node, CloneLayer):
        return leaves(node.node)
    if isinstance(node, Layer):
        return [l for n in node.nodes for l in leaves(n)]
    if isinstance(node, FlowNode):
        return [l for n in node.flow for l in leaves(n)]
    return [node]


def chunk(i, w):
    n = (3, 2)[i]
    return ((np.arange(n * w).reshape(n, w) * 7 + 3 * i + 2) % 11).astype('d')


def size(spec):
    return 1 if isinstance(spec, str) else sum(size(s) for s in spec[1:] if not isinstance(s, int)) * (spec[2] if spec[0] == 'C' else 1)


def attempt(f, *a):
    try:
        return 'ok', f(*a)
    except (mdp.MDPException, NotImplementedError) as e:
        return 'err', type(e)


def one(spec, w, odim, seq, ctx, sup=False):
    real = create(spec, w, odim, False)
    ref = create(spec, w, odim, True)
    where = lambda: '%r (slice width %d%s), calls %s: ' % (spec, w, ', output dimensions given' if odim else '', ''.join(seq))
    done = 0
    for k, op in enumerate(seq):
        args = ([1, 0, 2][:2],) if sup and op in 'ab' else ()
        if op in 'ab':
            x = chunk('ab'.index(op), ref.w)
            if sup:
                args = ([1, 0, 2][:len(x)],)
            r, g = attempt(ref.train, x, *args), attempt(real.train, x, *args)
        elif op == 'B':
            x = chunk(0, ref.w + 1)
            r, g = attempt(ref.train, x), attempt(real.train, x)
        elif op == 's':
            r, g = attempt(ref.stop), attempt(real.stop_training)
        elif op in 'eE':
            x = chunk(1, ref.w + (op == 'E'))
            r, g = attempt(ref.execute, x), attempt(real.execute, x)
        elif op == 'k':
            x = chunk(1, ref.w)
            r, g = attempt(ref.execute, x, 3), attempt(real.execute, x, 3)
        elif op == 'i':
            y = chunk(1, ref.ow)
            r, g = attempt(ref.inverse, y), attempt(real.inverse, y)
        else:
            old = real
            before = [(n.acc, list(n.log)) for n in leaves(real)]
            real = real.copy()
            check([(n.acc, list(n.log)) for n in leaves(old)] == before, lambda: where() + 'copy changed the original', 'copy')
            for n in leaves(old):
                n.acc = -5
            r = g = ('ok', None)
        at = lambda: where() + 'call %d: ' % (k + 1)
        if r[0] == 'err':
            check(g[0] == 'err', lambda: at() + 'was not refused (%s expected)' % r[1].__name__, 'not-refused')
            check(g[1] is r[1] or (issubclass(g[1], r[1]) and r[1] is mdp.NodeException), lambda: at() + 'raised %s, expected %s' % (g[1].__name__, r[1].__name__), 'wrong-error')
        else:
            check(g[0] == 'ok', lambda: at() + 'raised %s' % g[1].__name__, 'refused')
            done += 1
            if r[1] is None:
                check(g[1] is None, lambda: at() + 'returned %r' % (g[1],), 'returned')
            else:
                check(g[1].shape == r[1].shape and np.allclose(g[1], r[1], rtol=1e-12), lambda: at() + 'result %r, expected %r' % (g[1].tolist(), r[1].tolist()), 'result')
                check(g[1].dtype == np.dtype('d'), lambda: at() + 'result dtype', 'dtype')
                if op in 'ek':
                    check((real.input_dim, real.output_dim) == (ref.w, ref.ow), lambda: at() + 'dimensions %r, expected %r' % ((real.input_dim, real.output_dim), (ref.w, ref.ow)), 'dims')
        lr, lg = ref.leaves, leaves(real)
        for a, b in zip(lr, lg):
            check(a.log == b.log and a.acc == b.acc, lambda: at() + 'inner node %s received %r, expected %r' % (a.tag, b.log, a.log), 'inner')
            check(a.is_training() == b.is_training(), lambda: at() + 'inner node %s is_training %r' % (a.tag, b.is_training()), 'inner-training')
        check(real.is_training() == ref.training, lambda: at() + 'is_training() is %r' % real.is_training(), 'is-training')
        check(real.is_trainable() == bool(ref.n), lambda: at() + 'is_trainable() is %r' % real.is_trainable(), 'is-trainable')
        check(real.is_invertible() == ref.invertible, lambda: at() + 'is_invertible() is %r' % real.is_invertible(), 'is-invertible')
        if ref.n:
            check(real.get_remaining_train_phase() == ref.remaining, lambda: at() + '%d phases remain, expected %d' % (real.get_remaining_train_phase(), ref.remaining), 'remaining')
        ctx.step()
        ctx.state(str(spec), ref.phase, ref.started, tuple(n.acc for n in lr))
        ctx.outcome(op, r[0], r[1].__name__ if r[0] == 'err' else '')
    ctx.execution()
    if done > 1 and size(spec) > 1:
        ctx.mark(str(spec), w, odim, tuple(seq))


def structures(ctx, specs, depth, ops, sup=False, ws=(1, 2), odims=(False, True)):
    for spec in specs:
        for w in ws:
            for odim in odims:
                try:
                    create(spec, w, odim, True)
                except Skip:
                    ctx.note('structure impossible with this width')
                    continue
                for seq in itertools.product(ops, repeat=depth):
                    ctx.at('%r %r' % (spec, seq))
                    one(spec, w, odim, seq, ctx, sup)


# ---------------------------------------------------------------- real nodes
def library(ctx, name):
    e = C.E[name]
    w = e.x.shape[1]
    where = name + ': '

    def mk():
        C._seed()
        return e.make(input_dim=w)
    if e.singlerow:
        return
    try:
        mk()
    except (TypeError, mdp.NodeException):
        ctx.note('cannot be created with input_dim')
        return

    def byhand(node, chunks, probe):
        C._seed()
        if node.is_trainable():
            while node.is_training():
                for x, a in chunks:
                    node.train(x, *a)
                node.stop_training()
        y = node.execute(probe)
        inv = None
        if node.is_invertible():
            try:
                inv = node.inverse(y)
            except Exception as ex:
                inv = type(ex)
        return y, inv
    n = len(e.x)
    cuts = [(0, n)] if e.temporal or e.perrow or not e.chunk else [(0, n // 2), (n // 2, n)]
    single = [(e.x[a:b], e.extra(a, b)) for a, b in cuts]
    twice = [(np.hstack([x, x[:, ::-1]]), a) for x, a in single]
    probe = e.probe
    probe2 = np.hstack([probe, probe[::-1]])
    rev = [(x[:, ::-1], a) for x, a in single]

    def run(node, chunks, probe):
        C._seed()
        if node.is_trainable():
            while node.is_training():
                for x, a in chunks:
                    node.train(x, *a)
                node.stop_training()
        y = node.execute(probe)
        inv = None
        if node.is_invertible():
            try:
                inv = node.inverse(y)
            except Exception as ex:
                inv = type(ex)
        return y, inv

    def compare(got, want, what):
        for g, r, s in zip(got, want, ('execute', 'inverse')):
            if r is None:
                continue
            if isinstance(r, type) or isinstance(g, type):
                check(g is r, lambda: where + what + ': %s gives %r, expected %r' % (s, g, r), 'lib-' + s)
            else:
                check(g.shape == r.shape and np.allclose(g, r, rtol=1e-9, atol=1e-9, equal_nan=True), lambda: where + what + ': %s differs from the inner node' % s, 'lib-%s-%s' % (what.split('(')[0], s))
        ctx.execution()
        ctx.mark(name, what)
        ctx.outcome(what, got[0].dtype.str)
    want = run(mk(), single, probe)
    compare(run(FlowNode(mdp.Flow([mk()])), single, probe), want, 'FlowNode(node)')
    compare(run(FlowNode(mdp.Flow([mdp.nodes.IdentityNode(), mk()])), single, probe), want, 'FlowNode(identity, node)')
    compare(run(Layer([mk()]), single, probe), want, 'Layer(node)')
    if not e.random and not e.randtrain and not e.randstop and 'rng' not in ' '.join(vars(mk())):
        a, b = want, run(mk(), rev, probe[::-1])
        both = (np.hstack([a[0], b[0]]), np.hstack([a[1], b[1]]) if isinstance(a[1], np.ndarray) and isinstance(b[1], np.ndarray) else None)
        compare(run(Layer([mk(), mk()]), twice, probe2), both, 'Layer(node, node)')
        s = (np.hstack([a[0], a[0]]), None)
        compare(run(SameInputLayer([mk(), mk()]), single, probe), s, 'SameInputLayer(node, node)')
        # clone layer: one node is trained with all the slices, chunk by chunk
        node = mk()
        C._seed()
        if node.is_trainable():
            while node.is_training():
                for (x, a), (x2, _) in zip(single, rev):
                    node.train(x, *a)
                    node.train(x2, *a)
                node.stop_training()
        parts = [node.execute(p) for p in (probe, probe[::-1])]
        inv = None
        if node.is_invertible():
            inv = np.hstack([node.inverse(p) for p in parts])
        try:
            got = run(CloneLayer(mk(), 2), twice, probe2)
        except Exception as ex:
            raise Violation(where + 'CloneLayer(node, 2) raises %r' % ex, 'lib-CloneLayer-raises')
        compare(got, (np.hstack(parts), inv), 'CloneLayer(node, 2)')


def cases(tier):
    t = tier == 'thorough'
    K = 'UWNV123PQHJ'
    leafs = list(K)
    pairs = [list(p) for p in itertools.product(K, repeat=2)]
    small = 'U12PH'
    one_ = [['L', k] for k in K] + [['S', k] for k in K] + [['F', k] for k in K] + [['C', k, n] for k in K for n in (1, 2, 3)]
    two = [[s] + p for s in 'LSF' for p in pairs]
    three = [[s] + list(p) for s in 'LF' for p in itertools.product('WV2H', repeat=3)]
    inner = [['L', 'W', '1'], ['L', 'V', '2'], ['F', 'V', 'U'], ['F', '1', 'W'], ['F', '2', 'P'], ['S', '1', '2'], ['C', '1', 2], ['C', '2', 2], ['L', 'H', '2'], ['F', 'W', '1'], ['F', 'H', '1'], ['L', 'P', 'U'], ['F', '1', '2'], ['S', 'W', 'H']]
    nested = []
    for s in inner:
        for k in small + 'V':
            nested += [['L', s, k], ['L', k, s], ['F', s, k], ['F', k, s]]
            if k in 'U1' and s[0] in 'FS':
                nested += [['S', s, k]]
        nested += [['C', s, 2], ['F', s], ['L', s]]
    for s1 in inner[:8]:
        for s2 in inner[:8]:
            nested += [['L', s1, s2], ['F', s1, s2]]
    d = 5 if t else 4

    def batch(specs, n):
        for i in range(0, len(specs), n):
            yield specs[i:i + n]
    ops = 'abseic'
    for b in batch(one_, 2):
        yield 'structures', dict(specs=b, depth=d if t else 3, ops='abseicBE' if b[0][0] != 'F' else ops, ws=[1, 2] if t else [1])
        yield 'structures', dict(specs=b, depth=d + 1 if t else 4, ops='asei')
    for b in batch(two, 4):
        yield 'structures', dict(specs=b, depth=d, ops='asei' if not t else ops, ws=[1], odims=[False, True] if t else [False])
        yield 'structures', dict(specs=b, depth=d + 2 + t, ops='as', ws=[2])
    for b in batch([['L'] + p for p in pairs], 4):
        yield 'structures', dict(specs=b, depth=3, ops='aseBE', ws=[2])
    for b in batch(three, 4):
        yield 'structures', dict(specs=b, depth=d, ops='ase' if not t else 'aseic', ws=[1])
        yield 'structures', dict(specs=b, depth=d + 2 + t, ops='as', ws=[2])
    for b in batch(nested, 4):
        yield 'structures', dict(specs=b, depth=d, ops='asei' if t else 'ase', ws=[2], odims=[False, True] if t else [False])
        yield 'structures', dict(specs=b, depth=d + 2 + t, ops='as', ws=[1])
        yield 'structures', dict(specs=b, depth=d if t else 3, ops='asec' + 'i', ws=[1], odims=[False, True] if t else [True])
    sup = [['L', 'S', 'O'], ['L', 'S', 'S'], ['S', 'O', 'S'], ['C', 'S', 2], ['F', 'S'], ['F', 'U', 'S'], ['L', ['F', 'W', 'S'], 'O'], ['F', 'W', ['L', 'S', 'U']], ['C', ['F', 'U', 'S'], 2]]
    for s in sup:
        yield 'structures', dict(specs=[s], depth=d, ops='abs', sup=True)
        yield 'structures', dict(specs=[[s[0], 'E'] + (['E'] if s[0] != 'C' else [3])] if s[0] != 'F' else [['L', ['C', 'E', 2], 'E']], depth=2, ops='ke')
    for name in sorted(C.E):
        yield 'library', dict(name=name)


SCENARIOS = dict(structures=structures, library=library)
