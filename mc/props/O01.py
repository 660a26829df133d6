"""O01: online nodes: every call sequence against the same samples given one by one, every short stream against the
defining recurrences."""
import itertools
import numpy as np
import mdp
from ..core import check
from ..deep import deep, diff
from .. import catalog as C
from . import O02

LEVEL = 'model_checking'
RULE = 'history with at least two calls / stream of at least two samples'
ASSUMPTIONS = ['random initial vectors are compared between runs with equally seeded generators', 'recurrences are compared with a relative tolerance of 1e-9']
N = mdp.nodes
V2 = np.array([[1., .5], [-.25, 1.]])


# ------------------------------------------------------------------ call sequences
def rng():
    return np.random.RandomState(7)


def named():
    out = {e.name: (e.make, 4) for e in C.E.values() if e.online}
    out['OnlineCenteringNode/dims'] = (lambda: N.OnlineCenteringNode(input_dim=4, dtype='d', numx_rng=rng()), 4)
    out['CCIPCANode/init'] = (lambda: N.CCIPCANode(init_eigen_vectors=V2, numx_rng=rng()), 2)
    out['CCIPCAWhiteningNode/init'] = (lambda: N.CCIPCAWhiteningNode(init_eigen_vectors=V2[:, :1], amn_params=(2, 4, 5, 2), numx_rng=rng()), 2)
    out['CCIPCANode/var'] = (lambda: N.CCIPCANode(var_rel=.6, amn_params=(1, 3, 5, 2), numx_rng=rng()), 4)
    out['MCANode/init'] = (lambda: N.MCANode(init_eigen_vectors=V2, numx_rng=rng()), 2)
    out['MCANode/raw'] = (lambda: N.MCANode(normalize=False, output_dim=2, numx_rng=rng()), 4)
    out['IncSFANode/out2'] = (lambda: N.IncSFANode(whitening_output_dim=3, output_dim=2, numx_rng=rng()), 4)
    out['IncSFANode/nomean'] = (lambda: N.IncSFANode(remove_mean=False, numx_rng=rng()), 4)
    out['IncSFANode/avg'] = (lambda: N.IncSFANode(avg_n=3, init_pca_vectors=V2, init_mca_vectors=V2[::-1].copy(), numx_rng=rng()), 2)
    for g in ['I', 'M', 'W'] + O02.GROUPS:
        out['mc:%s' % (g,)] = (lambda g=g: O02.build(g, 4)[0], 4)
    out['Sup'] = (lambda: O02.Sup(), 4)
    return out


NAMED = named()
DATA = np.array([[1., 0, 2, -1], [0, 1, -1, 2], [2, 1, 0, 1], [-1, 2, 1, 0], [1, 1, -2, 1], [0, -1, 1, 3], [2, 0, 1, 1], [1, -2, 0, 1], [3, 1, 1, -1], [0, 0, 2, 1], [1, 2, 3, 0], [-2, 1, 0, 1], [1, 0, 0, 2], [2, 2, -1, 1], [0, 1, 1, 1]])
EXEC = np.array([[1., 2, 0, 1], [0, 1, 1, -1], [2, 1, 1, 0]])
SIZES = dict(t1=1, t2=2, t3=3)


def sequences(ctx, name, depth):
    make, w = NAMED[name]
    sup = name == 'Sup'
    ops = ['t1', 't2', 't3', 'exec', 'inv', 'stop']
    node = make()
    trainable = node.is_trainable()
    typ0 = node.training_type
    for n in range(1, depth + 1):
        for hist in itertools.product(ops, repeat=n):
            ctx.at(name, hist)
            C._seed()
            node = make()
            C._seed()
            ref = make()
            fed, pos, closed, episode_batch = 0, 0, not node.is_training(), typ0 == 'batch'
            started = False

            def feed(x):
                # the reference gets the samples one by one (blocks, if it is a block-wise node)
                if episode_batch:
                    ref.train(x.copy(), *((2, 5) if sup else ()))
                else:
                    for r in x:
                        ref.train(r[None, :].copy(), *((2, 5) if sup else ()))
            for op in hist:
                if sup and not started and op in ('exec', 'inv'):
                    break        # cannot be trained without arguments
                ctx.step()
                where = lambda: '%s after %s: %s: ' % (name, hist, op)
                got = None
                try:
                    if op in SIZES:
                        x = DATA[pos:pos + SIZES[op], :w]
                        pos = (pos + SIZES[op]) % 10
                        node.train(x.copy(), *((2, 5) if sup else ()))
                    elif op == 'exec':
                        got = node.execute(EXEC[:, :w].copy())
                    elif op == 'inv':
                        if not node.is_invertible() or node.output_dim is None or not started:
                            continue
                        got = node.inverse(EXEC[:, :1].repeat(node.output_dim, axis=1))
                    else:
                        node.stop_training()
                except (mdp.MDPException, mdp.NodeException) as ex:
                    got = ex
                if op in SIZES:
                    if closed:
                        check(isinstance(got, mdp.TrainingFinishedException) or isinstance(got, mdp.IsNotTrainableException), lambda: where() + 'gives %r after the end of the training' % (got,), 'closed')
                        continue
                    if isinstance(got, Exception):
                        try:
                            feed(x)
                        except type(got):
                            break
                    check(got is None, lambda: where() + 'raises %s: %s' % (type(got).__name__, str(got)[-200:]), 'raises')
                    feed(x)
                    fed += len(x)
                    started = True
                elif op == 'stop':
                    if closed or not started:
                        check(isinstance(got, mdp.MDPException), lambda: where() + 'not refused', 'stop')
                        continue
                    check(got is None, lambda: where() + 'raises %s: %s' % (type(got).__name__, str(got)[-200:]), 'raises')
                    ref.stop_training()
                    closed = True
                else:
                    if op == 'exec' and not started and not closed:
                        # the first execution trains the node with its data
                        try:
                            feed(EXEC[:, :w])
                        except mdp.MDPException:
                            check(isinstance(got, Exception), lambda: where() + 'not refused', 'raises')
                            break
                        fed += len(EXEC)
                        started = True
                    check(not isinstance(got, Exception), lambda: where() + 'raises %s: %s' % (type(got).__name__, str(got)[-200:]), 'raises')
                    want = ref.execute(EXEC[:, :w].copy()) if op == 'exec' else ref.inverse(EXEC[:, :1].repeat(ref.output_dim, axis=1))
                    check(got.shape == want.shape and got.tobytes() == want.tobytes(), lambda: where() + 'gives %s, fed one by one %s' % (got.tolist(), want.tolist()), 'result')
                check(node.is_training() == (not closed), lambda: where() + 'is_training() is %s' % node.is_training(), 'training')
                check(node.get_current_train_iteration() == fed, lambda: where() + '%d samples were trained, the counter says %d' % (fed, node.get_current_train_iteration()), 'count')
                check(node.training_type == typ0 or (typ0 is None and node.training_type == 'incremental'), lambda: where() + 'training type %s' % node.training_type, 'type')
            if trainable:
                a, b = deep(node), deep(ref)
                check(a == b or fed == 0, lambda: '%s after %s: state differs from sample-by-sample training: %s' % (name, hist, diff(a, b)), 'state')
            ctx.execution()
            if n > 1:
                ctx.mark(name, hist)
    ctx.state(name)


# ------------------------------------------------------------------ recurrences
def compositions(n):
    for bits in itertools.product((0, 1), repeat=n - 1):
        cuts = [0] + [i + 1 for i, b in enumerate(bits) if b] + [n]
        yield list(zip(cuts[:-1], cuts[1:]))


class Mean(object):
    def __init__(self, avg_n=None):
        self.n, self.avg_n, self.xs, self.avg = 0, avg_n, [], None

    def train(self, x):
        self.xs.append(x)
        if self.avg_n is None:
            self.avg = sum(self.xs) / len(self.xs)
        else:
            a = 2. / (self.avg_n + 1)
            self.avg = x.copy() if self.avg is None else a * x + (1 - a) * self.avg

    def execute(self, x):
        return x if len(self.xs) <= 1 else x - self.avg

    def inverse(self, x):
        return x if len(self.xs) <= 1 else x + self.avg


class CCIPCA(object):
    """amnesic incremental principal components; the initial vectors count as one sample"""
    def __init__(self, init, amn=(20, 200, 2000, 3), var_rel=1, white=False):
        self.u = [init[:, j].copy() for j in range(init.shape[1])]
        self.n, self.amn, self.white, self.var_rel, self.tot = 0, amn, white, var_rel, 1.
        self.red = None

    def train(self, x):
        n1, n2, m, c = self.amn
        i = self.n + 2.
        l = 0 if i < n1 else c * (i - n1) / (n2 - n1) if i < n2 else c + (i - n2) / m
        r = x.copy()
        self.red = None
        expl = 0.
        for j, u in enumerate(self.u):
            u = (i - 1 - l) / i * u + (1 + l) / i * r.dot(u) / np.linalg.norm(u) * r
            e = u / np.linalg.norm(u)
            r = r - r.dot(e) * e
            self.u[j] = u
            expl += np.linalg.norm(u)
            if self.red is None and expl / self.tot > self.var_rel:
                self.red = j
        if self.red is None:
            self.red = len(self.u)
        self.tot = expl
        self.n += 1

    @property
    def v(self):
        d = [np.linalg.norm(u) for u in self.u]
        if self.white and self.n:
            return np.array([u / x / np.sqrt(x) for u, x in zip(self.u, d)]).T
        return np.array([u / x for u, x in zip(self.u, d)]).T


class MCA(object):
    def __init__(self, init, eps=.1, gamma=1., normalize=True):
        self.w = [init[:, j].copy() for j in range(init.shape[1])]
        self.d = [np.linalg.norm(w) for w in self.w]
        self.eps, self.gamma, self.normalize = eps, gamma, normalize

    def train(self, x):
        c = np.outer(x, x)
        for j, w in enumerate(self.w):
            n = self.eps / (1 + 1.2 * j)
            w = (1.5 - n * (1 if self.normalize else self.d[j] ** 2)) * w - n * c.dot(w)
            l = w.dot(w)
            c = c + self.gamma * np.outer(w, w) / l
            self.d[j] = np.sqrt(l)
            self.w[j] = w / self.d[j] if self.normalize else w

    @property
    def v(self):
        return np.array(self.w).T


class IncSFA(object):
    def __init__(self, wi, mi, eps=.05, mean=True, avg_n=None):
        self.mean, self.white, self.mca, self.has_mean = Mean(avg_n), CCIPCA(wi, white=True), MCA(mi, eps), mean
        self.prev = None
        self.sf = wi / np.sqrt((wi ** 2).sum(axis=0)) * 1. if 0 else wi.dot(mi)

    def train(self, x, new=False):
        if self.has_mean:
            self.mean.train(x)
            x = self.mean.execute(x)
        self.white.train(x)
        y = x.dot(self.white.v)
        if self.prev is not None and not new:
            self.mca.train(y - self.prev)
            self.sf = self.white.v.dot(self.mca.v)
        self.prev = y

    def execute(self, x):
        if self.has_mean:
            x = self.mean.execute(x)
        return x.dot(self.sf)


ROWS = [np.array(r) for r in ([1., 0.], [0., 1.], [1., 1.], [2., -1.], [0., 0.], [-1., .5])]
PROBE = np.array([[1., 2.], [0., -1.], [3., .5]])


def close(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True)


def recurrences(ctx, kind, length, rows, allsplits, first):
    import warnings
    kinds = {
        'mean': (lambda: N.OnlineCenteringNode(numx_rng=rng()), lambda: Mean()),
        'mean1': (lambda: N.OnlineCenteringNode(avg_n=1, numx_rng=rng()), lambda: Mean(1)),
        'mean3': (lambda: N.OnlineCenteringNode(avg_n=3, numx_rng=rng()), lambda: Mean(3)),
        'pca': (lambda: N.CCIPCANode(init_eigen_vectors=V2.copy(), numx_rng=rng()), lambda: CCIPCA(V2)),
        'pca1': (lambda: N.CCIPCANode(init_eigen_vectors=V2[:, :1].copy(), amn_params=(3, 5, 4, 2), numx_rng=rng()), lambda: CCIPCA(V2[:, :1], (3, 5, 4, 2))),
        'pcavar': (lambda: N.CCIPCANode(init_eigen_vectors=V2.copy(), amn_params=(3, 4, 2, 1), var_rel=.7, numx_rng=rng()), lambda: CCIPCA(V2, (3, 4, 2, 1), .7)),
        'white': (lambda: N.CCIPCAWhiteningNode(init_eigen_vectors=V2.copy(), numx_rng=rng()), lambda: CCIPCA(V2, white=True)),
        'mca': (lambda: N.MCANode(init_eigen_vectors=V2.copy(), numx_rng=rng()), lambda: MCA(V2)),
        'mcaraw': (lambda: N.MCANode(init_eigen_vectors=V2.copy(), normalize=False, gamma=2., eps=.05, numx_rng=rng()), lambda: MCA(V2, .05, 2., False)),
        'sfa': (lambda: N.IncSFANode(init_pca_vectors=V2.copy(), init_mca_vectors=V2.T.copy(), numx_rng=rng()), lambda: IncSFA(V2, V2.T)),
        'sfa1': (lambda: N.IncSFANode(init_pca_vectors=V2.copy(), init_mca_vectors=V2[:, :1].copy(), avg_n=2, eps=.1, numx_rng=rng()), lambda: IncSFA(V2, V2[:, :1], .1, True, 2)),
        'sfaraw': (lambda: N.IncSFANode(init_pca_vectors=V2.copy(), init_mca_vectors=V2.copy(), remove_mean=False, numx_rng=rng()), lambda: IncSFA(V2, V2, mean=False)),
        'diff': (lambda: N.OnlineTimeDiffNode(numx_rng=rng()), None),
        'diffbatch': (lambda: N.OnlineTimeDiffNode(numx_rng=rng()), None),
    }
    make, mref = kinds[kind]
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for L in range(1, length + 1):
            splits = list(compositions(L)) if allsplits else [[(i, i + 1) for i in range(L)], [(0, L)]] + ([[(0, 1), (1, L)], [(0, L - 1), (L - 1, L)]] if L > 2 else [])
            for stream in itertools.product(range(rows), repeat=L):
                if stream[0] != first:
                    continue
                xs = np.array([ROWS[i] for i in stream])
                for split in splits:
                    ctx.at(kind, stream, split)
                    where = lambda: '%s, samples %s, chunks %s: ' % (kind, xs.tolist(), split)
                    node = make()
                    if kind == 'diffbatch':
                        node.set_training_type('batch')
                    ref = mref() if mref else None
                    for a, b in split:
                        ctx.step()
                        node.train(xs[a:b].copy())
                        if ref:
                            for x in xs[a:b]:
                                ref.train(x)
                    got = node.execute(PROBE)
                    check(node.get_current_train_iteration() == L, lambda: where() + 'iterations', 'count')
                    if kind.startswith('mean'):
                        check(close(node.get_average().ravel(), ref.avg), lambda: where() + 'average %s instead of %s' % (node.get_average(), ref.avg), 'average')
                        check(close(got, ref.execute(PROBE)), lambda: where() + 'gives %s instead of %s' % (got, ref.execute(PROBE)), 'execute')
                        check(close(node.inverse(PROBE), ref.inverse(PROBE)), lambda: where() + 'inverse', 'inverse')
                    elif kind.startswith('diff'):
                        before = xs[-2] if L > 1 else np.zeros(2)
                        want = PROBE - np.vstack([before, PROBE[:-1]])
                        check(close(got, want), lambda: where() + 'gives %s instead of %s' % (got.tolist(), want.tolist()), 'execute')
                    elif kind.startswith('sfa'):
                        check(close(node.sf, ref.sf), lambda: where() + 'slow features %s instead of %s' % (node.sf, ref.sf), 'sf')
                        check(close(got, ref.execute(PROBE)), lambda: where() + 'gives %s instead of %s' % (got, ref.execute(PROBE)), 'execute')
                        if np.isfinite(got).all() and abs(np.linalg.det(ref.sf.T.dot(ref.sf))) > 1e-6:
                            inv = got.dot(np.linalg.pinv(ref.sf))
                            inv = ref.mean.inverse(inv) if ref.has_mean else inv
                            check(close(node.inverse(got), inv), lambda: where() + 'inverse gives %s instead of %s' % (node.inverse(got), inv), 'inverse')
                    else:
                        check(close(node.v, ref.v), lambda: where() + 'vectors %s instead of %s' % (node.v, ref.v), 'vectors')
                        check(close(node.get_projmatrix(), ref.v) and close(node.get_projmatrix(0), ref.v.T), lambda: where() + 'projection matrix', 'projmatrix')
                        check(close(got, PROBE.dot(ref.v)), lambda: where() + 'gives %s instead of %s' % (got, PROBE.dot(ref.v)), 'execute')
                        k = ref.v.shape[1]
                        for m in range(1, k + 1):
                            check(close(node.execute(PROBE, m), PROBE.dot(ref.v[:, :m])), lambda: where() + 'first %d components' % m, 'execute')
                        if kind in ('pca', 'pca1', 'pcavar', 'white'):
                            lam = np.array([np.linalg.norm(u) for u in ref.u])
                            check(close(np.ravel(node.d), lam), lambda: where() + 'eigenvalues %s instead of %s' % (node.d, lam), 'values')
                            check(close(node.get_var_tot(), lam.sum()), lambda: where() + 'total variance', 'values')
                            check(node.get_reduced_dimsensionality() == ref.red or not np.isfinite(lam).all(), lambda: where() + 'reduced dimensionality is %s instead of %s' % (node.get_reduced_dimsensionality(), ref.red), 'reduced')
                        if kind == 'white':
                            y = PROBE[:, :k]
                            check(close(node.inverse(y), y.dot((ref.v * lam).T)), lambda: where() + 'inverse', 'inverse')
                        elif kind.startswith('pca') or kind == 'mca':
                            y = PROBE[:, :k]
                            check(close(node.inverse(y), y.dot(ref.v.T)), lambda: where() + 'inverse', 'inverse')
                    ctx.execution()
                    if L > 1:
                        ctx.mark(kind, stream, split)
                ctx.state(kind, stream)


def episodes(ctx, length, first):
    """IncSFANode: blocks of samples with and without the mark of a new episode, and block-wise training"""
    rows = [ROWS[i] for i in (0, 2, 3)]
    with np.errstate(all='ignore'):
        for L in range(2, length + 1):
            for stream in itertools.product(range(3), repeat=L):
                if stream[0] != first:
                    continue
                xs = np.array([rows[i] for i in stream])
                for split in compositions(L):
                    for marks in itertools.product((None, True, False), repeat=len(split)):
                        if marks[0] is False:
                            continue
                        ctx.at(stream, split, marks)
                        node, ref = N.IncSFANode(init_pca_vectors=V2.copy(), init_mca_vectors=V2.T.copy(), numx_rng=rng()), IncSFA(V2, V2.T)
                        for (a, b), m in zip(split, marks):
                            node.train(xs[a:b], *([] if m is None else [m]))
                            for i in range(a, b):
                                ref.train(xs[i], new=bool(m) and i == a)
                            ctx.step()
                        check(close(node.sf, ref.sf), lambda: 'IncSFANode trained with %s in chunks %s with new_episode=%s gives %s instead of %s' % (xs.tolist(), split, marks, node.sf, ref.sf), 'episodes')
                        ctx.execution()
                        ctx.mark(stream, split, marks)
                    if all(b - a > 1 for a, b in split):
                        node, ref = N.IncSFANode(init_pca_vectors=V2.copy(), init_mca_vectors=V2.T.copy(), numx_rng=rng()), IncSFA(V2, V2.T)
                        node.set_training_type('batch')
                        for a, b in split:
                            node.train(xs[a:b])
                            for i in range(a, b):
                                ref.train(xs[i], new=i == a)
                        check(close(node.sf, ref.sf), lambda: 'IncSFANode trained with blocks %s of %s gives %s instead of %s' % (split, xs.tolist(), node.sf, ref.sf), 'blocks')
                        check(node.get_current_train_iteration() == L, 'iterations', 'count')
                        ctx.execution()


SCENARIOS = dict(sequences=sequences, recurrences=recurrences, episodes=episodes)
KINDS = ['mean', 'mean1', 'mean3', 'pca', 'pca1', 'pcavar', 'white', 'mca', 'mcaraw', 'sfa', 'sfa1', 'sfaraw', 'diff', 'diffbatch']


def cases(tier):
    th = tier == 'thorough'
    for name in NAMED:
        yield 'sequences', dict(name=name, depth=4 if not th else 5)
    for k in KINDS:
        rows = 4 if not th else 6
        for first in range(rows):
            yield 'recurrences', dict(kind=k, length=4 if not th else 5, rows=rows, allsplits=True, first=first)
            if not th:
                yield 'recurrences', dict(kind=k, length=5, rows=4, allsplits=False, first=first)
    for first in range(3):
        yield 'episodes', dict(length=4 if not th else 5, first=first)
