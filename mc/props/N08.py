"""N08: what is handed to a node or a flow stays the property of the caller: at every moment after the call it may be
overwritten, and so may what was returned, without any influence on the node and on other results."""
import itertools
import warnings
import numpy as np
import mdp
import bimdp
from ..core import check
from .. import catalog as C
from .N02 import BOX

LEVEL = 'model_checking'
RULE = 'an array is overwritten after its call and at least one call follows'
ASSUMPTIONS = ['a result may be the argument itself (identity mappings); then both are overwritten together',
               'parallel flows read ahead, so they need chunks of their own', 'arguments of a constructor may be kept as they are; they are only required not to be changed',
               'attributes of nodes may be references']
H = mdp.hinet
N = mdp.nodes
HANG_S = 120
ALL = dict(C.E)
ALL.update(BOX)
WHOLE = ('LLENode', 'HLLENode', 'iGSFANode', 'XSFANode', 'GSFANode')


def worker_setup():
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')


def fresh(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    return list(v) if isinstance(v, list) else v


def spoil(v):
    """overwrite with something valid but different"""
    if isinstance(v, np.ndarray) and v.size and v.flags.writeable:
        if v.dtype.kind == 'b':
            np.logical_not(v, out=v)
        elif v.dtype.kind in 'fiuc':
            v[...] = 1 - v[::-1].copy()
    elif isinstance(v, list):
        for w in v:
            spoil(w)
        v.reverse()
        if v:
            v[0] = v[-1]
    elif isinstance(v, tuple):
        for w in v:
            spoil(w)
    elif isinstance(v, dict):
        for w in v.values():
            spoil(w)
        for k in list(v):
            v[k] = None


def snapshot(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, (list, tuple)):
        return type(v)(snapshot(w) for w in v)
    if isinstance(v, dict):
        return {k: snapshot(w) for k, w in v.items()}
    return v


def arrays(v):
    if isinstance(v, np.ndarray):
        return [v]
    if isinstance(v, dict):
        v = list(v.values())
    if isinstance(v, (list, tuple)):
        return [a for w in v for a in arrays(w)]
    return []


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and C.close(a, b, 1e-9)
    if isinstance(a, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and set(map(repr, a)) == set(map(repr, b)) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float) and isinstance(b, float):
        return bool(np.isclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True))
    return a == b


def play(make, steps, when):
    """steps: list of (function(obj, *args), arguments).  when: {(kind, step): moment}; kind 'in' or 'out'; the moment is
    the number of the step after which the arguments or the result of the given step are overwritten.  Returns copies of
    the results at the time of their return, the results at the end, and which of them may have been overwritten."""
    C._seed()
    obj = make()
    given, got, first, spoilt = [], [], [], set()
    for k, (f, args) in enumerate(steps):
        args = [fresh(a) for a in args]
        given.append(args)
        C._seed()
        r = f(obj, *args)
        got.append(r)
        first.append(snapshot(r))
        for (kind, i), m in when.items():
            if m == k:
                target = given[i] if kind == 'in' else [got[i]]
                before = arrays(target)
                for t in target:
                    spoil(t)
                for j, g in enumerate(got):
                    if any(np.may_share_memory(a, b) for a in arrays(g) for b in before) or kind == 'out' and j == i:
                        spoilt.add(j)
    return first, got, spoilt


def explore(ctx, make, steps, what):
    """all single moments, and everything at once, of overwriting what was handed over and returned"""
    ref = play(make, steps, {})
    n = len(steps)
    check(all(same(a, b) for a, b in zip(ref[0], ref[1])), '%s: an earlier result changed in later calls' % what, 'result changed')
    plans = []
    for i, (f, args) in enumerate(steps):
        if i + 1 == n:
            break
        moments = range(i, n - 1)
        if any(isinstance(a, (np.ndarray, list)) for a in args):
            plans += [{('in', i): m} for m in moments]
        if arrays(ref[1][i]) or isinstance(ref[1][i], (list, dict)):
            plans += [{('out', i): m} for m in moments]
    allin = {('in', i): i for i in range(n - 1) if any(isinstance(a, (np.ndarray, list)) for a in steps[i][1])}
    both = dict(allin)
    both.update({('out', i): i for i in range(n - 1) if arrays(ref[1][i])})
    plans += [allin, both]
    for when in plans:
        ctx.at(what, sorted(when.items()))
        ctx.step(n)
        ctx.execution()
        ctx.mark(ctx.executions)
        first, got, spoilt = play(make, steps, when)
        ctx.state(what, tuple(sorted(when.items())))
        for k in range(n):
            kinds = sorted(set(q for q, _ in when))
            check(same(first[k], ref[0][k]), '%s: step %d gives %s instead of %s after %s was overwritten' % (what, k, first[k], ref[0][k], sorted(when.items())), 'influence of ' + '+'.join(kinds))
            if k not in spoilt:
                check(same(got[k], ref[0][k]), '%s: the result of step %d became %s instead of %s when %s was overwritten' % (what, k, got[k], ref[0][k], sorted(when.items())), 'changed by ' + '+'.join(kinds))
    ctx.outcome(len(plans) > 5)


def life(e, bi=False, cuts=1, use='execute'):
    n = len(e.x)
    need = e.minrows or 1
    step = n // (cuts + 1)
    if e.cls in WHOLE or step < need:
        pts = [0, n]
    else:
        pts = [0] + [step * (k + 1) for k in range(cuts)] + [n]
    steps = []
    C._seed()
    node = C.bimake(e) if bi else e.make()
    steps.append((lambda o: None, []))
    phases = node.get_remaining_train_phase() if node.is_trainable() else 0
    for ph in range(1 if e.dynphases else phases):
        for a, b in zip(pts, pts[1:]):
            steps.append((lambda o, x, *r: o.train(x, *r) and None, [e.x[a:b]] + list(e.extra(a, b))))
        steps.append((lambda o: o.stop_training() and None, []))
    if e.dynphases:
        for ph in range(12):
            for a, b in zip(pts, pts[1:]):
                steps.append((lambda o, x: (o.train(x), None)[1] if o.get_remaining_train_phase() else None, [e.x[a:b]]))
            steps.append((lambda o: (o.stop_training(), None)[1] if o.get_remaining_train_phase() else None, []))
    p = e.probe

    def tidy(r):
        return r
    if e.needs_exec_arg:
        lab = np.array([[1., 0.], [0., 1.]])[[i % 2 for i in range(len(p))]]
        steps += [(lambda o, x, l: o.execute(x, l), [p, lab])] * 2
    elif e.singlerow:
        steps += [(lambda o, x: o.execute(x), [p[i:i + 1]]) for i in range(4)]
    else:
        k = max(len(p) // 2, 1) if e.rowlocal else len(p)
        steps += [(lambda o, x: o.execute(x), [p[:k]]), (lambda o, x: o.execute(x), [p])]
        if e.classifier:
            # the probabilities of the support vector library are drawn with a generator of its own
            for name in ('label', 'prob', 'rank') if e.cls != 'LibSVMClassifier' else ('label',):
                steps.append((lambda o, x, name=name: attempt(o, name, x), [p]))
        if e.inv:
            steps.append((lambda o, x: attempt(o, 'inverse', o.execute(x)), [p]))
            steps.append((lambda o, x: None if o.output_dim != o.input_dim else attempt(o, 'inverse', x), [p[:, ::-1]]))
        steps.append((lambda o, x: o.execute(x), [p]))
    return steps


def attempt(o, name, x):
    try:
        return getattr(o, name)(x)
    except (NotImplementedError, mdp.IsNotInvertibleException):
        return None


def nodes(ctx, name, bi, cuts):
    e = ALL[name]
    make = (lambda: C.bimake(e)) if bi else e.make
    explore(ctx, make, life(e, bi, cuts), name)


# ------------------------------------------------------------------ flows
def chain(kind):
    return {'plain': lambda: [N.PCANode(output_dim=2), N.PolynomialExpansionNode(2), N.SFANode(output_dim=2)],
            'cumulate': lambda: [N.NIPALSNode(output_dim=2), N.NIPALSNode()],
            'identity': lambda: [N.IdentityNode(), N.NIPALSNode()],
            'layer': lambda: [H.Layer([N.NIPALSNode(input_dim=1), N.AdaptiveCutoffNode(.1, .1, input_dim=2)]), N.IdentityNode()],
            'switch': lambda: [H.Switchboard(3, [0, 1, 2]), N.AdaptiveCutoffNode(.1, .1)],
            'label': lambda: [N.IdentityNode(), N.KNNClassifier(k=1)],
            'untrained': lambda: [N.IdentityNode(), N.IdentityNode()]}[kind]()


class Buffer(object):
    """iterable which hands out one array again and again"""
    def __init__(self, chunks, extra=None):
        self.chunks, self.extra = chunks, extra

    def __iter__(self):
        buf = np.zeros_like(self.chunks[0])
        for i, c in enumerate(self.chunks):
            buf[...] = c
            if self.extra:
                yield buf, list(self.extra[i])
            else:
                yield buf
        buf[...] = 77.


def flows(ctx, kind, flow, sizes):
    cls = {'Flow': mdp.Flow, 'BiFlow': bimdp.BiFlow}[flow]
    x = C.data(sizes[0] * sizes[1], 3)
    chunks = [x[i * sizes[0]:(i + 1) * sizes[0]] for i in range(sizes[1])]
    labels = [[(i + j) % 2 for j in range(sizes[0])] for i in range(sizes[1])]

    def run(reuse):
        C._seed()
        f = cls(chain(kind))
        lab = kind == 'label'
        trained = any(n.is_trainable() for n in f)
        data = [None if not n.is_trainable() else
                (Buffer(chunks, labels if lab and k else None) if reuse else [(c.copy(), list(l)) for c, l in zip(chunks, labels)] if lab and k else [c.copy() for c in chunks])
                for k, n in enumerate(f)]
        if trained:
            f.train(data)
        out = []
        for it in ([Buffer(chunks)] if reuse else [[c.copy() for c in chunks]]):
            y = f.execute(it)
            out.append(snapshot(y))
        z = x.copy()
        y = f.execute(z)
        out.append(snapshot(y))
        spoil(z)
        spoil(y)
        out.append(snapshot(f.execute(x.copy())))
        if all(n.is_invertible() for n in f):
            z = f.execute(x.copy())
            z = z[0] if flow == 'BiFlow' else z
            n = sizes[0]
            if reuse:
                out.append(snapshot(f.inverse(Buffer([z[i * n:(i + 1) * n] for i in range(sizes[1])]))))
            else:
                out.append(snapshot(f.inverse([z[i * n:(i + 1) * n].copy() for i in range(sizes[1])])))
        return out
    ctx.at(kind, flow, sizes)
    ref, got = run(False), run(True)
    ctx.step(len(got))
    ctx.execution()
    if sizes[1] > 1:
        ctx.mark(kind, flow, sizes)
    ctx.state(kind, flow, sizes)
    ctx.outcome(kind, len(got))
    for k, (a, b) in enumerate(zip(ref, got)):
        check(same(a, b), 'result %d of the flow differs when the chunks come from one buffer: %s, should be %s' % (k, b, a), 'buffer')


# ------------------------------------------------------------------ estimators
def moments(ctx, kind):
    U = mdp.utils
    make = {'cov': lambda: U.CovarianceMatrix(), 'cov-bias': lambda: U.CovarianceMatrix(bias=True), 'delay': lambda: U.DelayCovarianceMatrix(1),
            'delay0': lambda: U.DelayCovarianceMatrix(0), 'cross': lambda: U.CrossCovarianceMatrix(), 'vartime': lambda: U.VartimeCovarianceMatrix()}[kind]
    x = C.data(12, 3)
    parts = [x[:5], x[5:8], x[8:]]

    def upd(o, a, *r):
        if kind == 'cross':
            o.update(a, a[:, :2] * 2)
        elif kind == 'vartime':
            o.update(a, np.arange(1., len(a) + (len(parts[0]) != len(a))))
        else:
            o.update(a)
    steps = [(upd, [p]) for p in parts] + [(lambda o: o.fix(), [])] + [(upd, [p]) for p in parts] + [(lambda o: o.fix(), [])]
    explore(ctx, make, steps, kind)


# ------------------------------------------------------------------ constructors
def built(ctx, kind):
    x = C.data(12, 3)
    p = C.data(5, 3, 2)
    pos = [np.array([1., 0, 0]), np.array([-1., 0, 1]), np.array([0., 1., 0])]
    tr = lambda o, a: (o.train(a), o.stop_training(), None)[2]
    ex = lambda o, a: o.execute(a)
    table = {
        'rbf': (lambda h: N.RBFExpansionNode(h[0], h[1]), lambda: [np.array([[0., 1., 0.], [1., 0., -1.]]), np.array([1., 2.])], False),
        'rbf-lists': (lambda h: N.RBFExpansionNode(h[0], h[1]), lambda: [[[0., 1., 0.], [1., 0., -1.]], [1., 2.]], False),
        'rbf-matrices': (lambda h: N.RBFExpansionNode(h[0], h[1]), lambda: [np.array([[0., 1., 0.], [1., 0., -1.]]), np.array([np.eye(3), np.eye(3) * 2])], False),
        'general': (lambda h: N.GeneralExpansionNode(h[0]), lambda: [[lambda x: x, lambda x: x ** 2]], False),
        'switchboard': (lambda h: H.Switchboard(3, h[0]), lambda: [[2, 0, 0]], False),
        'switchboard-array': (lambda h: H.Switchboard(3, h[0]), lambda: [np.array([2, 0, 0])], False),
        'gng': (lambda h: N.GrowingNeuralGasNode(h[0], max_nodes=4, lambda_=3), lambda: [[q.copy() for q in pos[:2]]], True),
        'ng': (lambda h: N.NeuralGasNode(3, h[0], max_epochs=2), lambda: [[q.copy() for q in pos]], True),
        'fastica': (lambda h: N.FastICANode(guess=h[0], limit=.1), lambda: [np.eye(3)], True),
        'isfa': (lambda h: N.ISFANode(lags=h[0], sfa_ica_coeff=h[1], icaweights=h[2], sfaweights=h[3], RP=h[4]), lambda: [[1, 2], [1., 2.], [1., 2.], [1., .5], np.eye(3)[::-1].copy()], True),
        'isfa-arrays': (lambda h: N.ISFANode(lags=h[0], sfa_ica_coeff=h[1], icaweights=h[2], sfaweights=h[3]), lambda: [np.array([1, 2]), np.array([1., 2.]), np.array([1., 2.]), np.array([1., .5])], True),
        'convolution': (lambda h: N.Convolution2DNode(h[0], input_shape=(2, 2)), lambda: [np.array([[[1., 2.], [3., 4.]]])], False),
        'ccipca': (lambda h: N.CCIPCANode(amn_params=h[0], init_eigen_vectors=h[1], output_dim=2), lambda: [[2, 20, 200, 3], np.eye(3)[:, :2].copy()], True),
        'mca': (lambda h: N.MCANode(init_eigen_vectors=h[0], output_dim=2, eps=.01), lambda: [np.eye(3)[:, :2].copy()], True),
        'incsfa': (lambda h: N.IncSFANode(init_pca_vectors=h[0], init_mca_vectors=h[1], eps=.01), lambda: [np.eye(3), np.eye(3)], True),
    }
    mk, args, trained = table[kind]
    if kind == 'convolution' and not hasattr(N, 'Convolution2DNode'):
        return
    if kind == 'convolution':
        x, p = C.data(6, 4), C.data(5, 4, 2)
    for cut in (3, 6, 12):
        C._seed()
        h = args()
        before = [snapshot(a) if isinstance(a, np.ndarray) or isinstance(a, list) and a and isinstance(a[0], (np.ndarray, float, int, list)) else list(a) for a in h]
        node = mk(h)

        def intact(when):
            for a, b in zip(h, before):
                check(same(a, b), '%s: an argument of the constructor became %s instead of %s %s' % (kind, a, b, when), 'changed')
        ctx.at(kind, cut)
        ctx.step()
        ctx.execution()
        ctx.mark(kind, cut)
        ctx.state(kind, cut)
        intact('on construction')
        if trained:
            for part in (x[:cut], x[cut:]):
                if len(part):
                    C._seed()
                    node.train(part.copy())
            C._seed()
            node.stop_training()
            intact('in training')
        node.execute(p.copy())
        node.execute(p.copy())
        if isinstance(node, mdp.Node) and node.is_invertible() and kind != 'switchboard':
            node.inverse(node.execute(p.copy()))
        intact('in execution')
        ctx.outcome(kind)


KINDS = ['rbf', 'rbf-lists', 'rbf-matrices', 'general', 'switchboard', 'switchboard-array', 'gng', 'ng', 'fastica', 'isfa', 'isfa-arrays', 'convolution', 'ccipca', 'mca', 'incsfa']
SCENARIOS = {'nodes': nodes, 'flows': flows, 'moments': moments, 'built': built}


def cases(tier):
    th = tier == 'thorough'
    for name in ALL:
        for bi in (False, True):
            if bi and (name in BOX or ALL[name]._extra):
                continue
            for cuts in (1,) if not th or bi else (1, 2, 3):
                yield 'nodes', dict(name=name, bi=bi, cuts=cuts)
    for kind in ('plain', 'cumulate', 'identity', 'layer', 'switch', 'label', 'untrained'):
        for flow in ('Flow', 'BiFlow'):
            if flow == 'BiFlow' and kind == 'label':
                continue
            for sizes in ((8, 3), (12, 2), (24, 1)) if not th else ((8, 3), (12, 2), (24, 1), (8, 4), (6, 5)):
                yield 'flows', dict(kind=kind, flow=flow, sizes=sizes)
    for kind in ('cov', 'cov-bias', 'delay', 'delay0', 'cross', 'vartime'):
        yield 'moments', dict(kind=kind)
    for kind in KINDS:
        yield 'built', dict(kind=kind)
