"""Catalogue of the node classes that can be built offline: how to build each, small exact training data, extra training
arguments, and which general guarantees its documentation gives (accumulating training, row-local execution, inverse)."""
import random
import numpy as np
import mdp
from mdp import nodes as N

# dyadic rationals: all sums of products are exact in double precision, in any order of accumulation
_BASE = np.array([[4, -3, 1], [-2, 5, 3], [1, 1, -6], [6, 2, 2], [-5, -4, 7], [3, 7, -1], [-7, 2, 4], [2, -6, -3],
                  [5, 4, 6], [-1, -7, 2], [7, -1, -5], [-4, 3, -2], [1, 6, 5], [-6, -2, -7], [2, 3, 4], [-3, 1, -4]]) / 4.


def data(n=12, d=3, shift=0):
    b = _BASE
    if d > 3:
        b = np.hstack([b, b[:, ::-1] ** 2 - b[:, [1, 2, 0]] * .5, np.roll(b, 3, axis=0)])
    rows = []
    i = 0
    while len(rows) < n:
        blk = np.roll(b, i * 5 + shift, axis=0) * (1. if i % 2 == 0 else -.5) + (i // 2) * .25
        rows.extend(blk)
        i += 1
    return np.array(rows[:n])[:, :d].copy()


def slow(n, d=3):
    t = np.arange(n)
    cols = [np.round(np.cos(2 * np.pi * t / n) * 64) / 64, np.round(np.sin(2 * np.pi * 3 * t / n + .3) * 64) / 64,
            np.round(np.cos(2 * np.pi * 5 * t / n + 1.) * 64) / 64, np.round(np.sin(2 * np.pi * 2 * t / n + 2.) * 64) / 64]
    x = np.array(cols).T[:, :d]
    mix = np.array([[1, .5, -.25, .5], [-.5, 1, .5, .25], [.25, -.5, 1, -.5], [.5, .25, -.5, 1]])[:d, :d]
    return x.dot(mix)


class Entry(object):
    def __init__(self, name, make, x=None, n=12, d=3, extra=None, probe=None, **flags):
        self.name, self.make, self.flags = name, make, flags
        self.x = data(n, d) if x is None else x
        self._extra = extra
        self.probe = data(7, self.x.shape[1], shift=2) if probe is None else probe

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return self.__dict__['flags'].get(k)

    def extra(self, a, b):
        return self._extra(a, b) if self._extra else ()

    @property
    def cls(self):
        return self.name.split('/')[0]


def _lab(a, b):
    return ([0, 1, 1, 0, 2, 1, 2, 0] * 4)[a:b]


def _lab2(a, b):
    return ([1, -1, -1, 1, 1, -1, 1, -1] * 8)[a:b]


def _target(a, b):
    x = data(64)
    y = np.array([x[:, 0] * 2 - x[:, 1] + .5, x[:, 2] * x[:, 0]]).T
    return (y[a:b].copy(),)


def _seed():
    mdp.numx_rand.seed(7)
    random.seed(7)


E = {}


def add(name, make, **k):
    E[name] = Entry(name, make, **k)


I3 = np.eye(3)
# ---- not trainable
add('IdentityNode', lambda **k: N.IdentityNode(**k), rowlocal=1, inv='exact')
add('PolynomialExpansionNode/2', lambda **k: N.PolynomialExpansionNode(2, **k), rowlocal=1)
add('PolynomialExpansionNode/3', lambda **k: N.PolynomialExpansionNode(3, **k), rowlocal=1)
add('QuadraticExpansionNode', lambda **k: N.QuadraticExpansionNode(**k), rowlocal=1)
add('RBFExpansionNode', lambda **k: N.RBFExpansionNode([[0., 1., 0.], [1., 0., -1.]], [1., 2.], **k), rowlocal=1)
add('GeneralExpansionNode', lambda **k: N.GeneralExpansionNode([lambda x: x, lambda x: x ** 2], **k), rowlocal=1, nopickle=1)
add('CutoffNode', lambda **k: N.CutoffNode(-.75, 1., **k), rowlocal=1)
add('TimeFramesNode', lambda **k: N.TimeFramesNode(3, 2, **k), window=1)
add('TimeDelayNode', lambda **k: N.TimeDelayNode(3, 2, **k), window=1)
add('TimeDelaySlidingWindowNode', lambda **k: N.TimeDelaySlidingWindowNode(3, 2, **k), window=1, singlerow=1)
add('NormalNoiseNode', lambda **k: N.NormalNoiseNode(noise_args=(0, 1e-3), **k), random=1)
add('NoiseNode', lambda **k: N.NoiseNode(**k), random=1, nopickle=1)
add('SignumClassifier', lambda **k: N.SignumClassifier(**k), rowlocal=1, classifier=1, preserve=1, inv='exact')
add('RecursiveExpansionNode', lambda **k: N.RecursiveExpansionNode(3, **k), rowlocal=1)
# ---- second moments
add('PCANode', lambda **k: N.PCANode(**k), rowlocal=1, chunk=1, inv='exact', par=1)
add('PCANode/svd', lambda **k: N.PCANode(svd=True, **k), rowlocal=1, chunk=1, inv='exact', par=1)
add('PCANode/reduce', lambda **k: N.PCANode(reduce=True, **k), rowlocal=1, chunk=1, inv='exact', par=1)
add('PCANode/out2', lambda **k: N.PCANode(output_dim=2, **k), rowlocal=1, chunk=1, inv='proj', par=1, fixed_out=1)
add('PCANode/out.8', lambda **k: N.PCANode(output_dim=.8, **k), rowlocal=1, chunk=1, inv='proj', par=1, fixed_out=1)
add('PCANode/out1.', lambda **k: N.PCANode(output_dim=1., **k), rowlocal=1, chunk=1, inv='exact', par=1, fixed_out=1)
add('WhiteningNode', lambda **k: N.WhiteningNode(**k), rowlocal=1, chunk=1, inv='exact', par=1)
add('WhiteningNode/out2', lambda **k: N.WhiteningNode(output_dim=2, **k), rowlocal=1, chunk=1, inv='proj', par=1, fixed_out=1)
add('SFANode', lambda **k: N.SFANode(**k), x=slow(24), rowlocal=1, par=1, inv='exact', temporal=1, minrows=2)
add('SFANode/out2', lambda **k: N.SFANode(output_dim=2, **k), x=slow(24), rowlocal=1, par=1, inv='proj', temporal=1, fixed_out=1, minrows=2)
add('SFANode/bias', lambda **k: N.SFANode(include_last_sample=False, **k), x=slow(24), rowlocal=1, par=1, inv='exact', temporal=1, minrows=2)
add('VartimeSFANode', lambda **k: N.VartimeSFANode(**k), x=slow(24), rowlocal=1, inv='exact', minrows=2)
add('SFA2Node', lambda **k: N.SFA2Node(**k), x=slow(24, 2), rowlocal=1, par=1, temporal=1, minrows=2)
add('FDANode', lambda **k: N.FDANode(**k), extra=lambda a, b: (_lab(a, b),), rowlocal=1, chunk=1, inv='exact', par=1)
add('FDANode/out2', lambda **k: N.FDANode(output_dim=2, **k), extra=lambda a, b: (_lab(a, b),), rowlocal=1, chunk=1, inv='proj', par=1, fixed_out=1)
add('LinearRegressionNode', lambda **k: N.LinearRegressionNode(**k), extra=_target, rowlocal=1, chunk=1)
add('LinearRegressionNode/nobias', lambda **k: N.LinearRegressionNode(with_bias=False, **k), extra=_target, rowlocal=1, chunk=1)
add('NIPALSNode', lambda **k: N.NIPALSNode(**k), rowlocal=1, chunk=1, inv='exact')
add('NormalizeNode', lambda **k: N.NormalizeNode(**k), rowlocal=1, chunk=1, inv='exact', preserve=1)
add('FANode', lambda **k: N.FANode(max_cycles=20, output_dim=2, **k), rowlocal=1, chunk=1, fixed_out=1, randstop=1)
add('EtaComputerNode', lambda **k: N.EtaComputerNode(**k), rowlocal=1, par=1, chunk_drop=1, minrows=2, inv='exact')
add('HitParadeNode', lambda **k: N.HitParadeNode(2, 2, **k), rowlocal=1, chunk=1, inv='exact')
add('AdaptiveCutoffNode', lambda **k: N.AdaptiveCutoffNode(.125, .125, **k), rowlocal=1, chunk=1, par=1)
add('HistogramNode', lambda **k: N.HistogramNode(**k), rowlocal=1, chunk=1, par=1, inv='exact')
# ---- ICA family
ICAX = np.round(np.array([np.sign(np.sin(np.arange(64) * .7)), np.sin(np.arange(64) * .31) * 2, ((np.arange(64) * 5) % 13) / 6. - 1]).T
                .dot(np.array([[1, .5, .25], [-.5, 1, .5], [.25, -.75, 1]])) * 64) / 64
for _n in ('CuBICANode', 'FastICANode', 'JADENode'):
    add(_n, (lambda c: lambda **k: getattr(N, c)(**k))(_n), x=ICAX, rowlocal=1, chunk=1, inv='exact', randstop=1, noout=1)
add('TDSEPNode', lambda **k: N.TDSEPNode(lags=2, **k), x=ICAX, rowlocal=1, inv='exact', randstop=1, noout=1, minrows=4)
add('ISFANode', lambda **k: N.ISFANode(lags=1, **k), x=ICAX, rowlocal=1, inv='exact', randstop=1, minrows=4)
# ---- complex slow feature nodes
add('XSFANode', lambda **k: N.XSFANode((mdp.nodes.PolynomialExpansionNode, (1,), {}), (mdp.nodes.PolynomialExpansionNode, (1,), {}), True, **k),
    x=slow(40), rowlocal=1, noout=1, minrows=4, dynphases=1)
add('GSFANode', lambda **k: N.GSFANode(**k), x=slow(24), rowlocal=1, minrows=4)
add('iGSFANode', lambda **k: N.iGSFANode(None, None, None, None, None, None, None, .5, False, False, **k), x=slow(24, 4) * .125, rowlocal=1, minrows=4)
# ---- expansions with training
add('NormalizingRecursiveExpansionNode', lambda **k: N.NormalizingRecursiveExpansionNode(3, **k), rowlocal=1, chunk=1)
# ---- stochastic / competitive
add('RBMNode', lambda **k: N.RBMNode(4, **k), x=(data(12) > 0) * 1., probe=(data(7, shift=2) > 0) * 1., rowlocal=1, random=1, randtrain=1, fixed_out=1, noout=1, sampleinv=1)
add('RBMWithLabelsNode', lambda **k: N.RBMWithLabelsNode(4, 2, **k), x=(data(12) > 0) * 1., probe=(data(7, shift=2) > 0) * 1.,
    extra=lambda a, b: (np.array([[1., 0.], [0., 1.]])[[i % 2 for i in range(a, b)]],), random=1, randtrain=1, needs_exec_arg=1, fixed_out=1, noout=1, sampleinv=1)
add('NeuralGasNode', lambda **k: N.NeuralGasNode(3, [np.array([1., 0, 0]), np.array([-1., 0, 1]), np.array([0., 1., 0])], max_epochs=3, **k), rowlocal=1, randtrain=1)
add('GrowingNeuralGasNode', lambda **k: N.GrowingNeuralGasNode([np.array([1., 0, 0]), np.array([-1., 0, 1])], max_nodes=5, lambda_=4, **k), rowlocal=1, randtrain=1, chunk=1)
add('GrowingNeuralGasExpansionNode', lambda **k: N.GrowingNeuralGasExpansionNode([np.array([1., 0, 0]), np.array([-1., 0, 1])], max_nodes=5, lambda_=4, **k), rowlocal=1, randtrain=1, chunk=1)
add('LLENode', lambda **k: N.LLENode(4, .01, output_dim=2, **k), x=data(14), rowlocal=1, chunk=1, fixed_out=1)
add('HLLENode', lambda **k: N.HLLENode(8, .01, output_dim=2, **k), x=data(16), rowlocal=1, chunk=1, fixed_out=1)
# ---- classifiers
add('GaussianClassifier', lambda **k: N.GaussianClassifier(**k), n=16, extra=lambda a, b: (_lab2(a, b),), rowlocal=1, chunk=1, classifier=1, par=1)
add('NearestMeanClassifier', lambda **k: N.NearestMeanClassifier(**k), extra=lambda a, b: (_lab(a, b),), rowlocal=1, chunk=1, classifier=1, par=1, inv='exact')
add('KNNClassifier', lambda **k: N.KNNClassifier(k=3, **k), extra=lambda a, b: (_lab(a, b),), rowlocal=1, chunk=1, classifier=1, par=1, inv='exact')
add('PerceptronClassifier', lambda **k: N.PerceptronClassifier(**k), extra=lambda a, b: (np.array(_lab2(a, b)),), rowlocal=1, classifier=1, perrow=1, inv='exact')
add('SimpleMarkovClassifier', lambda **k: N.SimpleMarkovClassifier(dtype='i', **k), x=(data(12) > 0).astype('i'), probe=(data(7) > 0).astype('i'),
    extra=lambda a, b: (_lab(a, b),), rowlocal=1, chunk=1, classifier=1, intype=1, inv='exact')
add('DiscreteHopfieldClassifier', lambda **k: N.DiscreteHopfieldClassifier(**k), x=(data(2, 9) > 0), probe=(data(3, 9, shift=1) > 0), classifier=1,
    intype=1, chunk=1, rowlocal=1, inv='exact')
add('KMeansClassifier', lambda **k: N.KMeansClassifier(2, 5, **k), rowlocal=1, chunk=1, classifier=1, randstop=1, inv='exact')
add('LibSVMClassifier', lambda **k: N.LibSVMClassifier('LINEAR', 'C_SVC', **k), extra=lambda a, b: (_lab2(a, b),), rowlocal=1, chunk=1, classifier=1, nopickle=1, inv='exact')
# ---- online
def _rng():
    return np.random.RandomState(3)
add('OnlineCenteringNode', lambda **k: N.OnlineCenteringNode(**k), rowlocal=1, online=1, perrow=1, inv='exact')
add('OnlineCenteringNode/avg3', lambda **k: N.OnlineCenteringNode(avg_n=3, **k), rowlocal=1, online=1, perrow=1, inv='exact')
add('OnlineTimeDiffNode', lambda **k: N.OnlineTimeDiffNode(**k), rowlocal=0, online=1, perrow=1)
add('CCIPCANode', lambda **k: N.CCIPCANode(numx_rng=_rng(), **k), rowlocal=1, online=1, perrow=1)
add('CCIPCANode/out2', lambda **k: N.CCIPCANode(output_dim=2, numx_rng=_rng(), **k), rowlocal=1, online=1, perrow=1, fixed_out=1)
add('CCIPCAWhiteningNode', lambda **k: N.CCIPCAWhiteningNode(numx_rng=_rng(), **k), rowlocal=1, online=1, perrow=1)
add('MCANode', lambda **k: N.MCANode(numx_rng=_rng(), eps=.01, **k), rowlocal=1, online=1, perrow=1)
add('IncSFANode', lambda **k: N.IncSFANode(numx_rng=_rng(), **k), rowlocal=1, online=1, perrow=1)
# ---- a few wrapped scikits nodes
def _sk(name, *a, **kk):
    def f(**k):
        kk2 = dict(kk)
        kk2.update(k)
        return getattr(N, name)(*a, **kk2)
    return f
for _n, _k in [('PCAScikitsLearnNode', {}), ('StandardScalerScikitsLearnNode', {}), ('MinMaxScalerScikitsLearnNode', {})]:
    if hasattr(N, _n):
        add(_n, _sk(_n, **_k), rowlocal=1, chunk=1, sk=1)
for _n in ('GaussianNBScikitsLearnNode', 'LogisticRegressionScikitsLearnNode', 'LinearDiscriminantAnalysisScikitsLearnNode'):
    if hasattr(N, _n):
        add(_n, _sk(_n), extra=lambda a, b: (np.array(_lab2(a, b)),), rowlocal=1, chunk=1, sk=1, classifier=1)


def train(node, e, cuts=None, seed=True, stop=True):
    """Train all phases of `node` on e.x split at `cuts`; the last phase is closed too if stop."""
    n = len(e.x)
    cuts = [0] + sorted(cuts or []) + [n]
    if seed:
        _seed()
    while node.is_trainable() and node.get_remaining_train_phase() > 0:
        for a, b in zip(cuts, cuts[1:]):
            node.train(e.x[a:b].copy(), *e.extra(a, b))
        if seed:
            _seed()
        last = node.get_remaining_train_phase() == 1
        if not last or stop:
            node.stop_training()
        if last:
            break
    return node


def execute(node, e, x=None, seed=True):
    if seed:
        _seed()
    x = e.probe if x is None else x
    if e.singlerow:
        return np.vstack([node.execute(r[None, :]) for r in x])
    if e.needs_exec_arg:
        return node.execute(x, np.array([[1., 0.], [0., 1.]])[[i % 2 for i in range(len(x))]])
    return node.execute(x)


def close(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in 'OUS' or b.dtype.kind in 'OUS':
        return bool((a == b).all())
    if a.dtype.kind == 'b' or b.dtype.kind == 'b':
        return bool((a == b).all())
    return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))


# ---------------------------------------------------------------- BiNode versions of the entries
class _BiProxy(object):
    def __init__(self, kw):
        self.kw = kw

    def __getattr__(self, k):
        import bimdp
        for name in ((k[:-4] if k.endswith('Node') else k) + 'BiNode', k + 'BiNode', (k[:-4] if k.endswith('Node') else k) + 'BiClassifier', k.replace('Classifier', 'BiClassifier')):
            if hasattr(bimdp.nodes, name):
                cls = getattr(bimdp.nodes, name)
                return lambda *a, **k: cls(*a, **dict(k, **self.kw))
        import mdp.nodes
        return getattr(mdp.nodes, k)


def bimake(entry, **kw):
    """the node of the entry as an automatically generated BiNode"""
    g = entry.make.__globals__
    old = g['N']
    g['N'] = _BiProxy(kw)
    try:
        return entry.make()
    finally:
        g['N'] = old
