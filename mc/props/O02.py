"""O02: online flows, circular flows, online layers and online flow nodes against a reference that feeds every sample
through the chain by hand."""
import itertools
import numpy as np
import mdp
from mdp.hinet import OnlineLayer, CloneOnlineLayer, SameInputOnlineLayer, OnlineFlowNode, CircularOnlineFlowNode
from ..core import check, Violation

LEVEL = 'model_checking'
RULE = 'history with at least one training on a structure with at least two nodes'
ASSUMPTIONS = ['inner nodes are not operated from outside while they are part of a structure, except for closing their training',
               'training arguments are given to nodes of the flow itself (containers do not announce arguments)']
MOD = 101


def h(X):
    return int(sum((i + 1) * (j + 2) * v for i, row in enumerate(np.atleast_2d(X).tolist()) for j, v in enumerate(row)))


# ------------------------------------------------------------------ instrumented nodes
class Inc(mdp.OnlineNode):
    """order-sensitive state, one update per _train call"""
    def __init__(self, typ=None, **k):
        super(Inc, self).__init__(**k)
        self.s = 0
        if typ:
            self.set_training_type(typ)

    def is_invertible(self):
        return False

    def _train(self, x):
        self.s = (self.s * 5 + h(x) + 1) % MOD

    def _execute(self, x):
        return (x + self.s) % 64


class Multi(mdp.OnlineNode):
    def __init__(self, **k):
        super(Multi, self).__init__(**k)
        self.s = [0, 0]

    def _get_train_seq(self):
        def tr(i):
            def f(x):
                self.s[i] = (self.s[i] * 5 + h(x) + 1) % MOD
            return f
        return [(tr(0), lambda: None, lambda x: (x + self.s[0]) % 64), (tr(1), lambda: None, lambda x: x)]

    def is_invertible(self):
        return False

    def _execute(self, x):
        return (x + self.s[0] + 3 * self.s[1]) % 64


class Sup(mdp.OnlineNode):
    def __init__(self, **k):
        super(Sup, self).__init__(**k)
        self.s = 0

    def _train(self, x, a, b):
        self.s = (self.s * 5 + h(x) * a + b + 1) % MOD

    def _execute(self, x):
        return (x + self.s) % 64


class Arg(Sup):
    """one required argument, one optional"""
    def _train(self, x, a, b=4):
        self.s = (self.s * 5 + h(x) * a + b + 1) % MOD


class Wide(mdp.OnlineNode):
    """one more column, which contains the state"""
    def __init__(self, **k):
        super(Wide, self).__init__(**k)
        self.s = 0

    def _set_default_output_dim(self):
        self.output_dim = self.input_dim + 1

    def is_invertible(self):
        return False

    def _train(self, x):
        self.s = (self.s * 5 + h(x) + 1) % MOD

    def _execute(self, x):
        return np.hstack([x, np.ones((len(x), 1)) * self.s])


class Plain(mdp.PreserveDimNode):
    def is_trainable(self):
        return False

    def _execute(self, x):
        return (x * 3 + 1) % 64


class Term(mdp.PreserveDimNode):
    """offline node with n phases"""
    def __init__(self, n, **k):
        self.n = n
        self.s = [0] * n
        super(Term, self).__init__(**k)

    def _get_train_seq(self):
        def tr(i):
            def f(x):
                self.s[i] = (self.s[i] * 5 + h(x) + 1) % MOD
            return f
        return [(tr(i), lambda: None) for i in range(self.n)]

    def _execute(self, x):
        return (x + sum(self.s)) % 64


class TermSup(mdp.PreserveDimNode):
    """offline node with arguments"""
    def __init__(self, **k):
        self.s = [0]
        super(TermSup, self).__init__(**k)

    def _train(self, x, a, b, c):
        self.s[0] = (self.s[0] * 5 + h(x) * a + b * c + 1) % MOD

    def _execute(self, x):
        return (x + sum(self.s)) % 64


# ------------------------------------------------------------------ reference
class Refused(Exception):
    pass


class R(object):
    online = True
    trainable = True
    args = 0

    def __init__(self):
        self.training = self.trainable
        self.started = False
        self.count = 0
        self.typ = None

    def train(self, X, *args):
        if not self.training:
            raise Refused
        self.started = True
        self.typ = self.typ or 'incremental'
        if self.typ == 'incremental':
            for row in X:
                self.step(row[None, :], *args)
                self.count += 1
        else:
            self.step(X, *args)
            self.count += len(X)

    def stop(self):
        if not self.training or not self.started:
            raise Refused
        self.training = False

    def execute(self, X):
        if self.training and not self.started:
            self.train(X)
        self.typ = self.typ or 'incremental'
        return self.ex(X)

    def state(self):
        return (self.training, self.count, self.s)


class RInc(R):
    s = 0

    def step(self, X):
        self.s = (self.s * 5 + h(X) + 1) % MOD

    def ex(self, X):
        return (X + self.s) % 64


class RWide(RInc):
    def ex(self, X):
        return np.hstack([X, np.ones((len(X), 1)) * self.s])


class RSup(RInc):
    args = 2

    def step(self, X, a, b):
        self.s = (self.s * 5 + h(X) * a + b + 1) % MOD

    def execute(self, X):
        if self.training and not self.started:
            raise Refused
        return self.ex(X)


class RArg(RSup):
    args = 1

    def step(self, X, a, b=4):
        self.s = (self.s * 5 + h(X) * a + b + 1) % MOD


class RMulti(R):
    def __init__(self):
        R.__init__(self)
        self.s = [0, 0]

    def step(self, X):
        self.s[0] = (self.s[0] * 5 + h(X) + 1) % MOD
        X = (X + self.s[0]) % 64
        self.s[1] = (self.s[1] * 5 + h(X) + 1) % MOD

    def ex(self, X):
        return (X + self.s[0] + 3 * self.s[1]) % 64

    def state(self):
        return (self.training, self.count, tuple(self.s))


class RPlain(object):
    online = trainable = training = False
    args = 0
    typ = None

    def execute(self, X):
        return (X * 3 + 1) % 64

    def state(self):
        return None


class RTerm(object):
    online = False
    args = 0
    typ = None
    trainable = True

    def __init__(self, n):
        self.s, self.phase, self.started = [0] * n, 0, False

    @property
    def training(self):
        return self.phase < len(self.s)

    def train(self, X):
        if not self.training:
            raise Refused
        self.s[self.phase] = (self.s[self.phase] * 5 + h(X) + 1) % MOD
        self.started = True

    def stop(self):
        if not self.training or not self.started:
            raise Refused
        self.phase += 1
        self.started = False

    def execute(self, X):
        if self.training and self.phase == 0 and not self.started:
            while self.training:
                self.train(X)
                self.stop()
        if self.training:
            self.stop()
            if self.training:
                raise Refused
        return (X + sum(self.s)) % 64

    def state(self):
        return (self.phase, self.started, tuple(self.s))


class RTermSup(RTerm):
    args = 3

    def __init__(self):
        RTerm.__init__(self, 1)

    def train(self, X, a, b, c):
        if not self.training:
            raise Refused
        self.s[0] = (self.s[0] * 5 + h(X) * a + b * c + 1) % MOD
        self.started = True

    def execute(self, X):
        if self.training:
            if not self.started:
                raise Refused
            self.stop()
        return (X + sum(self.s)) % 64


class RGroup(R):
    def __init__(self, children):
        self.ch = children
        self.trainable = any(c.training for c in children)
        R.__init__(self)
        if any(c.typ == 'batch' for c in children):
            self.typ = 'batch'

    def stop(self):
        if not self.training or not self.started:
            raise Refused
        for c in dict.fromkeys(self.ch):
            if c.training:
                c.stop()
        self.training = False

    def state(self):
        return (self.training, self.count) + tuple(c.state() for c in self.ch)


class RLayer(RGroup):
    def __init__(self, children, kind):
        RGroup.__init__(self, children)
        self.kind = kind

    def parts(self, X):
        if self.kind == 'same':
            return [X] * len(self.ch)
        w = X.shape[1] // len(self.ch)
        return [X[:, i * w:(i + 1) * w] for i in range(len(self.ch))]

    def step(self, X):
        for c, p in zip(self.ch, self.parts(X)):
            if c.training:
                c.train(p)

    def ex(self, X):
        return np.hstack([c.execute(p) for c, p in zip(self.ch, self.parts(X))])


class RFlowNode(RGroup):
    def step(self, X):
        for c in self.ch:
            if c.training:
                c.train(X)
            X = c.execute(X)

    def ex(self, X):
        for c in self.ch:
            X = c.execute(X)
        return X


class RCircNode(RGroup):
    def __init__(self, children, iters, ignore, stored, out):
        RGroup.__init__(self, children)
        self.iters, self.ignore, self.stored, self.out = iters, ignore, stored, out

    def step(self, X):
        if self.ignore:
            if self.stored is None:
                raise Refused
            X = self.stored
        for _ in range(self.iters):
            for c in self.ch:
                if c.training:
                    c.train(X)
                X = c.execute(X)
        self.stored = X

    def ex(self, X):
        for c in self.ch[:self.out + 1]:
            X = c.execute(X)
        return X


# ------------------------------------------------------------------ building both
def width(spec, w):
    """width of the output for inputs of width w (None: does not fit)"""
    if w is None:
        return None
    if isinstance(spec, str):
        return w + (spec == 'W')
    if spec[0] in ('flow', 'circ'):
        w0 = w
        for c in spec[1]:
            w = width(c, w)
        return None if spec[0] == 'circ' and w != w0 else w
    ch = (spec[1],) * spec[2] if spec[0] == 'clone' else spec[1]
    if spec[0] != 'same':
        if w % len(ch):
            return None
        w //= len(ch)
    out = [width(c, w) for c in ch]
    return None if None in out else sum(out)


def build(spec, w=2):
    """(real node, reference) for a specification"""
    if isinstance(spec, str):
        if spec == 'I':
            return Inc(), RInc()
        if spec == 'B':
            r = RInc()
            r.typ = 'batch'
            return Inc('batch'), r
        if spec == 'M':
            return Multi(), RMulti()
        if spec == 'S':
            return Sup(), RSup()
        if spec == 'A':
            return Arg(), RArg()
        if spec == 'D':
            return TermSup(), RTermSup()
        if spec == 'W':
            return Wide(), RWide()
        if spec == 'P':
            return Plain(), RPlain()
        if spec in 'TC':
            n, r = (Term(1), RTerm(1)) if spec == 'T' else (Inc(), RInc())
            x = np.arange(3. * w).reshape(3, w)
            n.train(x)
            n.stop_training()
            r.train(x)
            r.stop()
            return n, r
        if spec in 'UV':
            n = 1 + (spec == 'V')
            return Term(n), RTerm(n)
        if spec == 'v':           # offline node in its last phase
            n, r = Term(2), RTerm(2)
            x = np.arange(2. * w).reshape(2, w)
            n.train(x)
            n.stop_training()
            r.train(x)
            r.stop()
            return n, r
    kind = spec[0]
    if kind in ('layer', 'same'):
        cw = w if kind == 'same' else w // len(spec[1])
        pairs = [build(c, cw) for c in spec[1]]
        for n, _ in pairs:
            if n.input_dim is None:
                n.input_dim = cw
        return (SameInputOnlineLayer if kind == 'same' else OnlineLayer)([n for n, _ in pairs]), RLayer([r for _, r in pairs], kind)
    if kind == 'clone':
        n, r = build(spec[1], w // spec[2])
        if n.input_dim is None:
            n.input_dim = w // spec[2]
        return CloneOnlineLayer(n, spec[2]), RClone(r, spec[2])
    pairs = []
    for c in spec[1]:
        pairs.append(build(c, w))
        w = width(c, w)
    nodes, refs = [n for n, _ in pairs], [r for _, r in pairs]
    if kind == 'flow':
        return OnlineFlowNode(mdp.OnlineFlow(nodes)), RFlowNode(refs)
    if kind == 'circ':
        iters, ignore, stored, out = spec[2:]
        stored = None if stored is None else np.arange(stored * float(w)).reshape(stored, w)
        f = mdp.CircularOnlineFlow(nodes)
        f.set_flow_iterations(iters)
        f.ignore_input(ignore)
        if stored is not None:
            f.set_stored_input(stored)
        if out is not None:
            f.set_output_node(out)
        return CircularOnlineFlowNode(f), RCircNode(refs, iters, ignore, stored, len(refs) - 1 if out is None else out)
    raise ValueError(spec)


class RClone(RLayer):
    def __init__(self, child, n):
        RLayer.__init__(self, [child] * n, 'layer')

    def ex(self, X):
        n = len(self.ch)
        w = X.shape[1] // n
        Y = self.ch[0].execute(X.reshape(len(X) * n, w))
        return Y.reshape(len(X), -1)


def real_state(n):
    if isinstance(n, (Inc, Sup, Wide)):
        return (n.is_training(), n.get_current_train_iteration(), n.s)
    if isinstance(n, Multi):
        return (n.is_training(), n.get_current_train_iteration(), tuple(n.s))
    if isinstance(n, Plain):
        return None
    if isinstance(n, (Term, TermSup)):
        return (n.get_current_train_phase(), n._train_phase_started, tuple(n.s))
    inner = n.nodes if hasattr(n, 'nodes') else list(n.flow)
    return (n.is_training(), n.get_current_train_iteration()) + tuple(real_state(c) for c in inner)


# ------------------------------------------------------------------ flows
CH = [np.array([[1., 2.], [3., 0.]]), np.array([[5., 7.]]), np.array([[0., 0.], [2., 1.], [4., 4.]])]
XE = np.array([[1., 1.], [0., 3.]])


def chunks_of(form):
    if form in ('list', 'gen', 'tuple'):
        return CH
    if form == '2d':
        return [r[None, :] for r in np.vstack(CH)]
    if form == '3d':
        return [CH[0], CH[2][:2]]
    if form == 'one':
        return [CH[2]]
    if form == 'empty':
        return []


def given(refs, form=None):
    """the arguments for every node; what is given to nodes without arguments is ignored"""
    return tuple((2 + i, 5, 3 + i)[:r.args] if r.args else ('junk',) if form == 'gen' else None for i, r in enumerate(refs))


def data_of(form, refs):
    sup = any(r.args for r in refs)
    c = [x.copy() for x in chunks_of(form)]
    args = given(refs, form)
    if form == '2d' and not sup:
        return np.vstack(c), None
    if form == '3d' and not sup:
        return np.array(c), None
    if sup or form == 'tuple':
        kind = list if form == 'list' else tuple
        d = [kind((x,) + args) for x in c]
    else:
        d = c
    if form == 'gen':
        return (x for x in d), args
    return d, args


def ref_train(refs, chunks, args, oneshot):
    """feeding every chunk through the chain by hand"""
    first = True
    last = refs[-1]
    while True:
        seen = 0
        for X in (chunks if first or not oneshot else []):
            seen += 1
            for i, r in enumerate(refs):
                if r.training and (first or r is last):
                    r.train(X, *((args[i] if r.args else ())))
                if r is last and not r.online and r.training:
                    break
                X = r.execute(X)
        if not seen:
            raise Refused
        if not last.online and last.training:
            last.stop()
            if last.training:
                first = False
                continue
        return


def flow_run(ctx, spec, hist):
    pairs = []
    w = 2
    for c in spec:
        pairs.append(build(c, w))
        w = width(c, w)
    nodes, refs = [n for n, _ in pairs], [r for _, r in pairs]
    flow = mdp.OnlineFlow(nodes)
    broken = False
    for op in hist:
        ctx.step()
        where = lambda: 'OnlineFlow %s after %s: %s: ' % (spec, hist, op)
        got = want = None
        try:
            if op[0] == 'train':
                d, args = data_of(op[1], refs)
                keep = [np.array(x) for x in chunks_of(op[1])]
                flow.train(d)
                got = 'ok'
            elif op[0] == 'exec':
                got = flow.execute(XE)
            elif op[0] == 'stop':
                flow[op[1]].stop_training()
                got = 'ok'
        except (mdp.MDPException, TypeError, IndexError, AttributeError) as ex:
            got = ex
        try:
            if op[0] == 'train':
                ref_train(refs, chunks_of(op[1]), given(refs), op[1] == 'gen')
                want = 'ok'
            elif op[0] == 'exec':
                want = XE
                for r in refs:
                    want = r.execute(want)
            elif op[0] == 'stop':
                if not refs[op[1]].trainable:
                    raise Refused
                refs[op[1]].stop()
                want = 'ok'
        except Refused:
            want = Refused
        if want is Refused:
            check(isinstance(got, mdp.MDPException) or isinstance(got, TypeError), lambda: where() + 'not refused, gives %s' % (got,), 'refuse')
            if op[0] != 'stop':
                return ctx.outcome('refused')
            continue
        check(not isinstance(got, Exception), lambda: where() + 'raises %s: %s' % (type(got).__name__, str(got)[-300:]), 'raises')
        if op[0] == 'exec':
            check(got.shape == want.shape and (got == want).all(), lambda: where() + 'gives %s instead of %s' % (got.tolist(), want.tolist()), 'execute')
        real = [real_state(n) for n in nodes]
        ref = [r.state() for r in refs]
        check(real == ref, lambda: where() + 'nodes are %s instead of %s' % (real, ref), 'state')
    ctx.execution()
    if len(spec) > 1:
        ctx.mark(spec, hist)


LEAF = list('IBMSAWPTC')
GROUPS = [('layer', ('I', 'I')), ('layer', ('I', 'B')), ('layer', ('M', 'P')), ('layer', ('C', 'I')), ('layer', ('P', 'T')), ('layer', ('W', 'W')), ('clone', 'I', 2), ('clone', 'B', 2), ('clone', 'M', 2), ('same', ('I', 'M')),
          ('same', ('W', 'B')), ('flow', ('I', 'M')), ('flow', ('P', 'I', 'P')), ('flow', ('T', 'I')), ('flow', ('I', 'C', 'B')), ('flow', ('P', 'T')), ('flow', ('W', 'I', 'W')), ('flow', ('P', 'P')), ('flow', ('M',)),
          ('circ', ('I', 'I'), 1, False, None, None), ('circ', ('I', 'P', 'M'), 3, False, None, None), ('circ', ('P', 'I'), 2, True, 1, None), ('circ', ('I', 'T', 'I'), 2, True, 2, 1), ('circ', ('B', 'P'), 2, False, None, 0),
          ('circ', ('T', 'P'), 2, False, None, None), ('circ', ('I', 'C'), 2, True, None, None),
          ('flow', (('layer', ('I', 'B')), 'I')), ('layer', (('flow', ('I', 'M')), 'I')), ('clone', ('flow', ('I', 'W')), 2), ('same', (('flow', ('P', 'I')), ('clone', 'I', 2))), ('flow', (('flow', ('P', 'I')), ('circ', ('I', 'I'), 2, False, None, None)))]
OPS = [('train', '2d'), ('train', '3d'), ('train', 'list'), ('train', 'gen'), ('train', 'one'), ('train', 'tuple'), ('train', 'empty'), ('exec',), ('stop', -1), ('stop', 0)]


def flows(ctx, specs, depth):
    for spec in specs:
        w = 2
        for c in spec:
            w = width(c, w)
        if w is None:
            ctx.note('widths do not fit')
            continue
        ctx.state(spec)
        for n in range(1, depth + 1):
            for hist in itertools.product(OPS, repeat=n):
                if hist[-1][0] == 'stop' and n > 1:
                    continue
                ctx.at(spec, hist)
                flow_run(ctx, spec, hist)


# ------------------------------------------------------------------ single containers: sequences of node operations
def containers(ctx, spec, depth):
    ops = ['train1', 'train3', 'train2', 'exec', 'stop']
    W = 4 if spec[0] == 'clone' or spec[0] == 'layer' else 2
    base = np.arange(24.).reshape(6, 4)[:, :W]
    data = dict(train1=base[:1], train2=base[1:3], train3=base[3:])
    for n in range(1, depth + 1):
        for hist in itertools.product(ops, repeat=n):
            ctx.at(spec, hist)
            node, ref = build(spec, W)
            for op in hist:
                ctx.step()
                where = lambda: '%s after %s: %s: ' % (spec, hist, op)
                try:
                    got = node.train(data[op].copy()) if op in data else node.execute(base) if op == 'exec' else node.stop_training()
                except (mdp.MDPException, mdp.NodeException) as ex:
                    got = ex
                try:
                    if op in data:
                        if not ref.trainable:
                            raise Refused
                        want = ref.train(data[op])
                    else:
                        want = ref.execute(base) if op == 'exec' else ref.stop()
                except Refused:
                    want = Refused
                if want is Refused:
                    check(isinstance(got, Exception), lambda: where() + 'not refused', 'refuse')
                    if op in data and ref.training:
                        break        # failed within a training
                    continue
                check(not isinstance(got, Exception), lambda: where() + 'raises %s: %s' % (type(got).__name__, str(got)[-300:]), 'raises')
                if op == 'exec':
                    check(got.shape == want.shape and (got == want).all(), lambda: where() + 'gives %s instead of %s' % (got.tolist(), want.tolist()), 'execute')
                    check(node.output_dim == want.shape[1], lambda: where() + 'output_dim is %s, result has %d columns' % (node.output_dim, want.shape[1]), 'dim')
                check(real_state(node) == ref.state(), lambda: where() + 'is %s instead of %s' % (real_state(node), ref.state()), 'state')
                if isinstance(node, CircularOnlineFlowNode):
                    a, b = node.get_stored_input(), ref.stored
                    check((a is None) == (b is None) and (a is None or (a.shape == b.shape and (a == b).all())), lambda: where() + 'stored input is %s instead of %s' % (a, b), 'stored')
            ctx.execution()
            if n > 1:
                ctx.mark(spec, hist)
    ctx.state(spec)


# ------------------------------------------------------------------ circular flows
CSPEC = [('I',), ('I', 'P'), ('P', 'I'), ('I', 'B', 'M'), ('I', 'T', 'I'), ('P', 'P'), ('C', 'I'), (('layer', ('I', 'I')), 'M'), (('flow', ('I', 'P')), 'I', 'B')]


class RCirc(object):
    def __init__(self, refs):
        self.refs, self.out, self.stored, self.ignore, self.iters = list(refs), len(refs) - 1, None, False, 1

    def train(self, chunks):
        for X in chunks:
            if self.ignore:
                X = self.stored
                if X is None:
                    raise Refused
            for _ in range(self.iters):
                for r in self.refs:
                    if r.training:
                        r.train(X)
                    X = r.execute(X)
                self.stored = X

    def execute(self, X, nodenr=None):
        for r in self.refs[:(self.out if nodenr is None else nodenr) + 1]:
            X = r.execute(X)
        return X


def circular(ctx, spec, depth, first):
    n = len(spec)
    ops = [('train', '2d'), ('train', 'list'), ('train', '3d'), ('exec',), ('exec', 0), ('exec', 'list'), ('in', 0), ('in', 1), ('in', n - 1), ('in', n), ('in', -1), ('out', 0), ('out', n - 1), ('out', n), ('reset',), ('ignore', True), ('ignore', False),
           ('iters', 1), ('iters', 3), ('store', 1), ('store', 2), ('store', 'bad'), ('get',), ('stop', 0)]
    ops = list(dict.fromkeys(ops))
    for length in range(depth):
        for hist in itertools.product(ops, repeat=length):
            hist = (ops[first % len(ops)],) + hist if first < len(ops) else None
            if hist is None:
                return
            ctx.at(spec, hist)
            circular_run(ctx, spec, hist)
    ctx.state(spec, first)


def circular_run(ctx, spec, hist):
    pairs = [build(c) for c in spec]
    by = {id(r): nd for nd, r in pairs}
    flow, ref = mdp.CircularOnlineFlow([a for a, _ in pairs]), RCirc([b for _, b in pairs])
    n = len(spec)
    for op in hist:
        ctx.step()
        where = lambda: 'CircularOnlineFlow %s after %s: %s: ' % (spec, hist, op)
        k, a = op[0], (op[1] if len(op) > 1 else None)
        want = None
        try:
            if k == 'train':
                ref.train(chunks_of(a))
            elif k == 'exec':
                want = ref.execute(XE, 0 if a == 0 else None) if a != 'list' else np.vstack([ref.execute(c) for c in CH])
            elif k in ('in', 'out'):
                if not 0 <= a < n:
                    raise Refused
                if k == 'in':
                    ref.refs = ref.refs[a:] + ref.refs[:a]
                    ref.out = (ref.out - a) % n
                else:
                    ref.out = a
            elif k == 'reset':
                ref.out = n - 1
            elif k == 'ignore':
                ref.ignore = a
            elif k == 'iters':
                ref.iters = a
            elif k == 'store':
                if a == 'bad':
                    if list(flow.flow)[0].input_dim is None:
                        return
                    raise Refused
                ref.stored = CH[0][:a]
            elif k == 'get':
                want = ref.stored
            elif k == 'stop':
                if not ref.refs[0].trainable:
                    raise Refused
                ref.refs[0].stop()
        except Refused:
            want = Refused
        try:
            if k == 'train':
                c = chunks_of(a)
                got = flow.train(np.vstack(c) if a == '2d' else np.array(c) if a == '3d' else [x.copy() for x in c])
            elif k == 'exec':
                got = flow.execute(XE, *([0] if a == 0 else [])) if a != 'list' else flow.execute([x.copy() for x in CH])
            elif k == 'in':
                got = flow.set_input_node(a)
            elif k == 'out':
                got = flow.set_output_node(a)
            elif k == 'reset':
                got = flow.reset_output_node()
            elif k == 'ignore':
                got = flow.ignore_input(a)
            elif k == 'iters':
                got = flow.set_flow_iterations(a)
            elif k == 'store':
                got = flow.set_stored_input(np.zeros((1, 9)) if a == 'bad' else CH[0][:a].copy())
            elif k == 'get':
                got = flow.get_stored_input()
            elif k == 'stop':
                got = flow[0].stop_training()
        except mdp.MDPException as ex:
            got = ex
        if want is Refused:
            check(isinstance(got, Exception), lambda: where() + 'not refused', 'refuse')
            if k == 'train':
                return
            continue
        check(not isinstance(got, Exception), lambda: where() + 'raises %s: %s' % (type(got).__name__, str(got)[-300:]), 'raises')
        if k in ('exec', 'get'):
            check((got is None) == (want is None) and (got is None or (got.shape == want.shape and (got == want).all())), lambda: where() + 'gives %s instead of %s' % (got, want), k)
        check([real_state(x) for x in flow.flow] == [r.state() for r in ref.refs], lambda: where() + 'nodes are %s instead of %s' % ([real_state(x) for x in flow.flow], [r.state() for r in ref.refs]), 'state')
        check([id(x) for x in flow.flow] == [id(by[id(r)]) for r in ref.refs], lambda: where() + 'order of the nodes', 'order')
        s = flow.get_stored_input()
        check((s is None) == (ref.stored is None) and (s is None or (s.shape == ref.stored.shape and (s == ref.stored).all())), lambda: where() + 'stored input is %s instead of %s' % (s, ref.stored), 'stored')
        check(flow.output_node_idx == ref.out, lambda: where() + 'output node is %s instead of %s' % (flow.output_node_idx, ref.out), 'out')
    ctx.execution()
    if len(hist) > 1 and n > 1:
        ctx.mark(spec, hist)


# ------------------------------------------------------------------ edits of flows with supervised nodes
def edits(ctx, spec, depth):
    """after every sequence of edits, training gives every node its own arguments"""
    ops = [('append', 'S'), ('append', 'I'), ('append', 'A'), ('set', 0, 'A'), ('insert', 0, 'S'), ('insert', 1, 'P'), ('del', 0), ('del', -1), ('set', 0, 'I'), ('set', 0, 'S'), ('set', -1, 'P'), ('iadd', 'S'), ('iaddflow', 'SI'), ('extend', 'IS'), ('slice', 'SP'),
           ('pop',), ('train',)]
    for n in range(1, depth + 1):
        for hist in itertools.product(ops, repeat=n):
            ctx.at(spec, hist)
            pairs = [build(c) for c in spec]
            flow = mdp.OnlineFlow([a for a, _ in pairs])
            for op in hist + (('train',), ('train',)):
                ctx.step()
                where = lambda: 'OnlineFlow %s edited %s: %s: ' % (spec, hist, op)
                k = op[0]
                new = [build(c) for c in op[-1]] if k in ('append', 'insert', 'set', 'iadd', 'iaddflow', 'extend', 'slice') else []
                nn = [a for a, _ in new]
                if k == 'append':
                    flow.append(nn[0])
                    pairs.append(new[0])
                elif k == 'insert':
                    flow.insert(op[1], nn[0])
                    pairs.insert(op[1], new[0])
                elif k in ('del', 'pop'):
                    if len(pairs) < 2:
                        break
                    i = op[1] if k == 'del' else -1
                    if k == 'del':
                        del flow[i]
                    else:
                        flow.pop()
                    del pairs[i]
                elif k == 'set':
                    flow[op[1]] = nn[0]
                    pairs[op[1]] = new[0]
                elif k == 'iadd':
                    flow += nn[0]
                    pairs += new
                elif k == 'iaddflow':
                    flow += mdp.OnlineFlow(nn)
                    pairs += new
                elif k == 'extend':
                    flow.extend(mdp.OnlineFlow(nn))
                    pairs += new
                elif k == 'slice':
                    flow[:1] = nn
                    pairs[:1] = new
                if k == 'train':
                    refs = [r for _, r in pairs]
                    args = given(refs)
                    flow.train([(x.copy(),) + args for x in CH])
                    ref_train(refs, CH, args, False)
                    real, ref = [real_state(a) for a, _ in pairs], [r.state() for r in refs]
                    check(real == ref, lambda: where() + 'nodes are %s instead of %s' % (real, ref), 'state')
                    # the wrong number of arguments is refused
                    if any(r.args for r in refs):
                        for bad in ([(CH[0],) + args[1:]], [(CH[0],) + args + (None,)], [(CH[0],) + tuple(v + (1,) if v else v for v in args)], [(CH[0],) + tuple(v[1:] if v else v for v in args)], [CH[0]]):
                            try:
                                flow.train(bad)
                            except (mdp.MDPException, TypeError):
                                break_ = True
                            else:
                                check(False, lambda: where() + 'wrong arguments accepted: %s' % (bad,), 'args')
                        # bring the reference in step again
                        for (a, r) in pairs:
                            if hasattr(r, 's') and hasattr(a, 's'):
                                r.s = list(a.s) if isinstance(a.s, list) else a.s
                                if r.online:
                                    r.count = a.get_current_train_iteration()
            ctx.execution()
            ctx.mark(spec, hist)
    ctx.state(spec)


# ------------------------------------------------------------------ random sources
def rleaf(c, w, rng):
    return {'P': lambda: mdp.nodes.CCIPCANode(input_dim=w, output_dim=w, numx_rng=rng), 'M': lambda: mdp.nodes.MCANode(input_dim=w, output_dim=w, numx_rng=rng),
            'A': lambda: mdp.nodes.OnlineCenteringNode(input_dim=w, output_dim=w, numx_rng=rng), 'U': lambda: mdp.nodes.IdentityNode(input_dim=w, output_dim=w)}[c]()


def rbuild(spec, w, rng, given):
    """spec: a leaf letter or (container, children); given: how the container gets its source"""
    if isinstance(spec, str):
        return rleaf(spec, w, None)
    op, ch = spec
    k = dict(numx_rng=rng) if given == 'init' else {}
    H = mdp.hinet
    if op == 'L':
        n = H.OnlineLayer([rbuild(c, w // len(ch), None, None) for c in ch], **k)
    elif op == 'C':
        n = H.CloneOnlineLayer(rbuild(ch[0], w // 2, None, None), 2, **k)
    elif op == 'S':
        n = H.SameInputOnlineLayer([rbuild(c, w, None, None) for c in ch], **k)
    elif op == 'F':
        n = H.OnlineFlowNode(mdp.OnlineFlow([rbuild(c, w, None, None) for c in ch]), **k)
    else:
        n = H.CircularOnlineFlowNode(mdp.CircularOnlineFlow([rbuild(c, w, None, None) for c in ch]), **k)
    if given == 'set':
        n.numx_rng = rng
    elif given == 'call':
        n.set_numx_rng(rng)
    return n


class RHand:
    """the same network, made of single nodes which were given the source one by one"""
    def __init__(self, spec, w, rng):
        self.op, self.w = (spec, w) if isinstance(spec, str) else (spec[0], w)
        if isinstance(spec, str):
            self.node = rleaf(spec, w, rng)
        else:
            width = w // len(spec[1]) if self.op == 'L' else w // 2 if self.op == 'C' else w
            self.ch = [RHand(c, width, rng) for c in spec[1]]
            if self.op == 'C':
                self.ch = self.ch * 2

    def parts(self, x):
        if self.op == 'S':
            return [x] * len(self.ch)
        k = self.w // len(self.ch)
        return [x[:, i * k:(i + 1) * k] for i in range(len(self.ch))]

    def train(self, x):
        if self.op in 'PMAU':
            if self.op != 'U':
                self.node.train(x)
        elif self.op in 'LCS':
            for c, p in zip(self.ch, self.parts(x)):
                c.train(p)
        else:
            for i, c in enumerate(self.ch):
                c.train(x)
                if i + 1 < len(self.ch):
                    x = c.execute(x)

    def execute(self, x):
        if self.op in 'PMAU':
            return self.node.execute(x)
        if self.op in 'LCS':
            return np.hstack([c.execute(p) for c, p in zip(self.ch, self.parts(x))])
        for c in self.ch:
            x = c.execute(x)
        return x


RX = np.array([[1., 2., -1., .5], [.5, -1., 2., 1.], [2., .25, 1., -1.], [-1., 1., .5, 2.]])


def randoms(ctx, spec):
    """a random source given to a container is the one all its nodes draw from"""
    import warnings
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for given in ('init', 'set', 'call'):
            for seed in (1, 2):
                for chunks in ([RX], [RX[:1], RX[1:]], [r[None] for r in RX]):
                    ctx.at(spec, given, seed, len(chunks))
                    rng = np.random.RandomState(seed)
                    net, hand = rbuild(spec, 4, rng, given), RHand(spec, 4, np.random.RandomState(seed))
                    check(net.numx_rng is rng and net.get_numx_rng() is rng, lambda: '%r, source given by %s: the node has another source' % (spec, given), 'random-source')
                    for bad in (3, np.random, 'x'):
                        try:
                            net.numx_rng = bad
                            ok = False
                        except mdp.OnlineNodeException:
                            ok = net.numx_rng is rng
                        check(ok, lambda: '%r: %r accepted as random source' % (spec, bad), 'random-source')
                    for c in chunks:
                        net.train(c.copy())
                        for i in range(len(c)):
                            hand.train(c[i:i + 1])
                        ctx.step()
                    a, b = net.execute(RX), hand.execute(RX)
                    check(a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-12), lambda: '%r, source %d given by %s, %d chunks: gives %s instead of %s' % (spec, seed, given, len(chunks), a.tolist(), b.tolist()), 'random-source')
                    check(net.numx_rng is rng, 'source replaced by training', 'random-source')
                    ctx.execution()
                    ctx.mark(spec, given, seed, len(chunks))
        ctx.state(spec)


def random_specs():
    one = [('L', (a, b)) for a in 'PMAU' for b in 'PMAU' if a + b != 'UU'] + [('C', (a,)) for a in 'PMA'] + [('S', (a, b)) for a in 'PMAU' for b in 'PMAU' if a + b != 'UU']
    flows = [(f, p) for f in 'FZ' for n in (1, 2) for p in itertools.product('PMAU', repeat=n) if set(p) != {'U'}]
    two = [(o, (i, 'P')) for o in 'LS' for i in (('F', ('A', 'P')), ('Z', ('P', 'P')), ('C', ('P',)), ('S', ('P', 'U')))] + [(o, ('P', i)) for o in 'F' for i in (('L', ('P', 'M')), ('C', ('P',)), ('F', ('A', 'P')), ('Z', ('P',)))] + [('C', (i,)) for i in (('F', ('A', 'P')), ('S', ('P',)), ('Z', ('P', 'P')))]
    return one + flows + two


SCENARIOS = dict(flows=flows, containers=containers, circular=circular, edits=edits, randoms=randoms)


def cases(tier):
    th = tier == 'thorough'
    specs = [(a,) for a in LEAF + GROUPS + list('UVvD')]
    specs += [(a, b) for a in LEAF + GROUPS for b in LEAF + GROUPS + list('UVvD')]
    for i in range(0, len(specs), 4):
        yield 'flows', dict(specs=specs[i:i + 4], depth=2)
    short = [(a, b) for a in LEAF for b in LEAF + list('UVvD')] + [(g, 'I') for g in GROUPS]
    for s in short if not th else specs:
        yield 'flows', dict(specs=[s], depth=3)
    triple = [(a, b, c) for a in LEAF for b in LEAF for c in LEAF + list('UVvD')]
    for i in range(0, len(triple), 8):
        yield 'flows', dict(specs=triple[i:i + 8], depth=1 if not th else 2)
    for g in GROUPS:
        yield 'containers', dict(spec=g, depth=4 if not th else 6)
    for s in CSPEC:
        for first in range(24):
            yield 'circular', dict(spec=s, depth=3 if not th else 4, first=first)
    for s in [('S',), ('I', 'S'), ('A', 'P', 'S'), ('I', 'P')]:
        yield 'edits', dict(spec=s, depth=2 if not th else 3)
    for s in random_specs():
        yield 'randoms', dict(spec=s)
