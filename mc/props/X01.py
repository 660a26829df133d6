"""X01: expansion and analysis nodes against their formulas, over all small configurations and signals."""
import itertools
import os
import pickle
import shutil
import tempfile
import warnings
import numpy as np
import mdp
from ..core import check

LEVEL = 'model_checking'
RULE = 'execution with more than one variable or degree, or training in at least two chunks'
ASSUMPTIONS = ['degrees from 1 on for polynomial expansions (0 for the recursive ones), cut-off fractions below 1',
               'integer data is clipped at integer bounds',
               'a histogram may refer to the first training array, which the caller does not change',
               'hit parades follow the greedy rule of the node: a larger value within the gap of the last hit moves that hit, a later one replaces the smallest hit']
N = mdp.nodes


def worker_setup():
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')


def done(ctx, nontrivial=True):
    ctx.execution()
    if nontrivial:
        ctx.mark(ctx.executions)


def comps(n):
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for rest in comps(n - k):
            yield (k,) + rest


def close(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=tol, atol=tol))


def chunks(x, split):
    p = 0
    for s in split:
        yield x[p:p + s]
        p += s


# ------------------------------------------------------------------ polynomial expansion
GEN = [[1.1, -.7, .3, 2.3, -1.9, .9], [-.5, 1.3, 2.1, -.2, .6, -1.1], [2., 3., 5., 7., 11., 13.]]


def ncr(n, k):
    out = 1
    for i in range(k):
        out = out * (n - i) // (i + 1)
    return out


def poly(ctx, degree, dim):
    terms = [c for d in range(1, degree + 1) for c in itertools.combinations_with_replacement(range(dim), d)]
    grid = list(itertools.product((-1., 0., 2.), repeat=dim)) if dim <= 3 else []
    for dtype in 'dfDil':
        data = [g[:dim] for g in GEN] + grid
        if dtype == 'D':
            data = [[v + .5j * (i - v) for i, v in enumerate(r)] for r in data]
        if dtype in 'il':
            data = [[int(round(v)) for v in r] for r in data]
        X = np.array(data, dtype=dtype)
        for how in ('exec', 'dim', 'quad'):
            if how == 'quad' and degree != 2:
                continue
            ctx.at(degree, dim, dtype, how)
            node = N.QuadraticExpansionNode() if how == 'quad' else N.PolynomialExpansionNode(degree, input_dim=dim if how == 'dim' else None)
            if how == 'dim':
                check(node.output_dim == len(terms), 'degree %d in %d variables: output_dim %s instead of %d' % (degree, dim, node.output_dim, len(terms)), 'poly-dim')
            keep = X.copy()
            Y = node.execute(X)
            check((X == keep).all(), 'data changed', 'argument-changed')
            check(Y.shape == (len(X), len(terms)) and node.output_dim == len(terms) == ncr(dim + degree, degree) - 1, 'degree %d in %d variables: shape %s, output_dim %s, %d terms' % (degree, dim, Y.shape, node.output_dim, len(terms)), 'poly-shape')
            check(Y.dtype == X.dtype, 'dtype %s became %s' % (X.dtype, Y.dtype), 'poly-dtype')
            check(node.expanded_dim(dim) == len(terms), 'expanded_dim', 'poly-dim')
            check(N.expansion_nodes.expanded_dim(degree, dim) == len(terms) if hasattr(N, 'expansion_nodes') else True, 'expanded_dim function', 'poly-dim')
            for i, t in enumerate(terms):
                want = np.ones(len(X), dtype='D' if dtype == 'D' else 'd')
                for v in t:
                    want = want * X[:, v]
                check(np.allclose(Y[:, i], want, rtol=1e-4 if dtype == 'f' else 1e-10),
                      'degree %d in %d variables: term %d is not the product of the variables %s' % (degree, dim, i, t), 'poly-term')
                ctx.step()
            # row by row
            rows = np.vstack([node.execute(X[j:j + 1]) for j in range(3)])
            check(close(rows, Y[:3], 1e-5), 'single rows give other values', 'poly-rows')
            done(ctx, degree > 1 or dim > 1)
    ctx.state(degree, dim)


# ------------------------------------------------------------------ recursive expansion
def leg(n, x):
    return np.polynomial.legendre.legval(x, [0] * n + [1])


def cheb(n, x):
    return np.polynomial.chebyshev.chebval(x, [0] * n + [1])


def herm_init(result, x, pos, cur_var):
    result[:, pos] = 2 * x[:, cur_var]
    result[:, pos + 1] = 4 * x[:, cur_var] ** 2 - 2
    return pos + 2, 3, None


def herm_rec(result, x, special, n, cur_var, pos):
    return 2 * x[:, cur_var] * result[:, pos - 1] - 2 * (n - 1) * result[:, pos - 2]


FUN = {'standard_poly': lambda n, x: x ** n, 'legendre_poly': leg, 'legendre_rational': lambda n, x: leg(n, (x - 1.) / (x + 1.)), 'chebyshev_poly': cheb,
       'hermite': lambda n, x: np.polynomial.hermite.hermval(x, [0] * n + [1])}
FUN['left_hermite'] = FUN['hermite']
SPEC = {'hermite': (herm_init, herm_rec, -float('inf'), float('inf')), 'left_hermite': (herm_init, herm_rec, -float('inf'), 1.)}
DOM = {'standard_poly': (-np.inf, np.inf), 'legendre_poly': (-1, 1), 'legendre_rational': (0, np.inf), 'chebyshev_poly': (-1, 1), 'hermite': (-np.inf, np.inf), 'left_hermite': (-np.inf, 1.)}
GEN01 = [[.1, .7, .35, .9], [.55, .2, 1., .05], [0., .33, .81, .62], [.9, .9, .1, .5]]


def rec_terms(deg, dim):
    """exponents of every column after the constant, in the order of the node: the powers of each variable, then products
    with variables of lower index, breadth first"""
    terms = [{v: d} for v in range(dim) for d in range(1, deg + 1)]
    todo = [((i * deg), i, 1) for i in range(1, dim)]
    while todo:
        off, lead, leadd = todo.pop(0)
        for v in range(lead):
            for d in range(1, deg - leadd + 1):
                length = deg + 1 - leadd - d
                start = len(terms)
                for j in range(length):
                    t = dict(terms[off + j])
                    t[v] = d
                    terms.append(t)
                if length > 1:
                    todo.append((start, v, leadd + d))
    return terms


def recursive(ctx, recf, deg, dim):
    terms = rec_terms(deg, dim) if deg > 0 else []
    keys = {tuple(sorted(t.items())) for t in terms}
    assert len(keys) == len(terms) == ncr(dim + deg, deg) - 1, (recf, deg, dim)
    for with0 in (True, False):
        for dtype in 'dfD':
            for chk in (False, True) if dtype != 'D' else (False,):
                X = np.array([g[:dim] for g in GEN01]).astype(dtype)
                if dtype == 'D':
                    X = X + .25j * X[::-1]
                ctx.at(recf, deg, dim, with0, dtype, chk)
                node = N.RecursiveExpansionNode(deg, recf=SPEC.get(recf, recf), check=chk, with0=with0)
                keep = X.copy()
                Y = node.execute(X)
                check((X == keep).all(), 'data changed', 'argument-changed')
                want = ([np.ones(len(X))] if with0 else [])
                for t in terms:
                    w = np.ones(len(X))
                    for v, d in t.items():
                        w = w * FUN[recf](d, X[:, v].astype('D' if dtype == 'D' else 'd'))
                    want.append(w)
                where = '%s degree %d in %d variables (with0=%s, %s): ' % (recf, deg, dim, with0, dtype)
                check(Y.shape == (len(X), len(want)) and node.output_dim == len(want), where + 'shape %s, output_dim %s for %d functions' % (Y.shape, node.output_dim, len(want)), 'rec-shape')
                check(Y.dtype == np.dtype(dtype), where + 'dtype %s' % Y.dtype, 'rec-dtype')
                for i, w in enumerate(want):
                    check(np.allclose(Y[:, i], w, rtol=1e-3 if dtype == 'f' else 1e-9, atol=1e-5 if dtype == 'f' else 1e-12),
                          where + 'column %d is %s instead of %s (%s)' % (i, Y[:, i], w, terms[i - with0] if i >= with0 else 1), 'rec-term')
                    ctx.step()
                rows = np.vstack([node.execute(X[j:j + 1]) for j in range(2)])
                check(close(rows, Y[:2], 1e-5), where + 'single rows give other values', 'rec-rows')
                done(ctx, deg > 1 or dim > 1)
    ctx.state(recf, deg, dim)


def domain(ctx, recf):
    lo, hi = DOM[recf]
    vals = [-2., -1.01, -1., -.5, 0., .5, 1., 1.01, 2., 50.]
    for pair in itertools.product(vals, repeat=2):
        for shape in ((1, 2), (2, 1)):
            X = np.array(pair).reshape(shape)
            ctx.at(recf, pair, shape)
            ctx.step()
            inside = all(lo - 1e-6 <= v <= hi + 1e-6 for v in pair)
            try:
                N.RecursiveExpansionNode(2, recf=SPEC.get(recf, recf), check=True).execute(X)
                ok = True
            except mdp.NodeException:
                ok = False
            check(ok == inside, '%s: data %s %s' % (recf, pair, 'accepted outside of the domain' if ok else 'refused inside of the domain'), 'domain')
            done(ctx)
    ctx.state(recf)


def normalizing(ctx, recf, T, values):
    """every training signal, every split: the data is moved into the domain by one increasing affine map per variable (not at
    all if it is inside), and expanded there"""
    lo, hi = DOM[recf]
    for flat in itertools.product(values, repeat=2 * T):
        X = np.array(flat).reshape(T, 2)
        ref = None
        for split in comps(T):
            ctx.at(recf, X.tolist(), split)
            node = N.NormalizingRecursiveExpansionNode(2, recf=SPEC.get(recf, recf))
            for c in chunks(X, split):
                keep = c.copy()
                node.train(c)
                check((c == keep).all(), 'training changed the data', 'argument-changed')
                ctx.step()
            node.stop_training()
            Z = node.domain_transformation(X)
            where = '%s trained with %s in chunks %s: ' % (recf, X.tolist(), split)
            check(Z.min() >= lo - 1e-6 and Z.max() <= hi + 1e-6, where + 'transformed to %s' % Z.tolist(), 'norm-domain')
            if X.min() > lo and X.max() < hi:
                check(close(Z, X), where + 'data inside of the domain was moved to %s' % Z.tolist(), 'norm-moved')
            for v in range(2):
                o = np.argsort(X[:, v], kind='stable')
                dx, dz = np.diff(X[o, v]), np.diff(Z[o, v])
                check((np.abs(dz[dx == 0]) < 1e-12).all() and (dz[dx > 0] > 0).all(), where + 'order of the values changed: %s' % Z.tolist(), 'norm-order')
                r = dz[dx > 0] / dx[dx > 0]
                check(len(r) < 2 or np.ptp(r) < 1e-9, where + 'not affine: %s' % Z.tolist(), 'norm-affine')
                check(not len(r) or not np.isinf(hi - lo) or abs(r[0] - 1) < 1e-9, where + 'scaled in an unbounded domain', 'norm-scale')
                if np.isinf(hi - lo):
                    want = X[:, v] + max(0, lo - X[:, v].min()) - max(0, X[:, v].max() - hi)
                    check(close(Z[:, v], want), where + 'variable %d was not moved by the shortest distance: %s' % (v, Z.tolist()), 'norm-shift')
            Y = node.execute(X)
            want = N.RecursiveExpansionNode(2, recf=SPEC.get(recf, recf)).execute(Z)
            check(close(Y, want), where + 'expansion of the transformed data differs', 'norm-value')
            if ref is None:
                ref = Z
            check(close(Z, ref), where + 'depends on the chunks: %s instead of %s' % (Z.tolist(), ref.tolist()), 'norm-chunks')
            done(ctx, len(split) > 1)
    ctx.state(recf, T)


# ------------------------------------------------------------------ radial basis functions
def rbf(ctx, dim, count, form):
    centers = [[1, 0, 2][:dim], [0, 2, 1][:dim], [-1, 1, 0][:dim]][:count]
    mats = [np.array([[2., .5, 0], [.5, 1, .25], [0, .25, 3]])[:dim, :dim], np.array([[4., 0, 0], [0, 2, 0], [0, 0, 2]])[:dim, :dim], np.array([[1., -.5, 0], [-.5, 2, 0], [0, 0, .5]])[:dim, :dim]]
    even, mats = mats[1], mats[:count]
    forms = {'scalar': (2., [2.] * count), 'int': (2, [2.] * count), 'list': ([.5, 2., 3.][:count], [.5, 2., 3.][:count]), 'intlist': ([1, 2, 3][:count], [1., 2., 3.][:count]),
             'matrix': (mats[0], [mats[0]] * count), 'intmatrix': (even.astype(int), [even] * count), 'matrices': (mats, mats), 'nested': ([m.tolist() for m in mats], mats),
             'intmatrices': ([even.astype(int).tolist()] * count, [even] * count)}
    sizes, ref = forms[form]
    if form == 'nested' and dim == 1:
        pass
    grid = np.array(list(itertools.product((-1., 0., 1.5), repeat=dim)))
    for dtype in (None, 'd', 'f'):
        for cform in ('list', 'array', 'float'):
            ctx.at(dim, count, form, dtype, cform)
            C = centers if cform == 'list' else np.array(centers, dtype=int if cform == 'array' else float)
            node = N.RBFExpansionNode(C, sizes, dtype=dtype)
            X = grid.astype(dtype or 'd')
            Y = node.execute(X)
            want = np.zeros((len(X), count))
            for i, x in enumerate(grid):
                for j in range(count):
                    d = x - np.array(centers[j], dtype='d')
                    q = d.dot(d) / ref[j] if np.isscalar(ref[j]) else d.dot(np.linalg.inv(ref[j])).dot(d)
                    want[i, j] = np.exp(-.5 * q)
                    ctx.step()
            check(Y.dtype == X.dtype and node.output_dim == count and node.input_dim == dim, 'dtype or dimensions', 'rbf-dim')
            check(close(Y, want, 1e-4 if dtype == 'f' else 1e-9), 'RBF with centers %s and sizes %s (%s, dtype %s): %s instead of %s' % (centers, sizes, form, dtype, Y[:3].tolist(), want[:3].tolist()), 'rbf-value')
            done(ctx, dim > 1)
    ctx.state(dim, count, form)


def rbf_refused(ctx):
    for c, s in [([[0., 0], [1, 1]], [1., 2., 3.]), ([[0., 0], [1, 1]], np.eye(3)), ([[0., 0], [1, 1]], [np.eye(3)] * 2), ([[0., 0]], [1., 2.])]:
        ctx.at(str(c), str(s))
        ctx.step()
        try:
            N.RBFExpansionNode(c, s)
        except mdp.NodeException:
            done(ctx)
            continue
        check(False, 'sizes %s were accepted for centers %s' % (s, c), 'rbf-accepted')


def gng(ctx, T, first):
    """growing neural gas expansion: for every short training signal the radial functions sit at the nodes of the graph"""
    P = [(0., 0.), (1., 0.), (0., 2.), (3., 1.)]
    Q = np.array([[0., 0], [1, 1], [2, -1]])
    for seq in itertools.product(P, repeat=T - 1):
        X = np.array((P[first],) + seq)
        for split in [(T,), (1,) * T]:
            ctx.at(X.tolist(), split)
            node = N.GrowingNeuralGasExpansionNode(start_poss=[np.array([0., 1.]), np.array([2., 0.])], lambda_=2, max_age=2, max_nodes=4)
            for c in chunks(X, split):
                node.train(c)
                ctx.step()
            node.stop_training()
            pos = [n.data.pos for n in node.graph.nodes]
            size = [np.mean([((n.data.pos - m.data.pos) ** 2).sum() for m in node.graph.nodes if m is not n and any({e.head, e.tail} == {n, m} for e in node.graph.edges)]) for n in node.graph.nodes]
            Y = node.execute(Q)
            want = np.array([[np.exp(-.5 * ((q - p) ** 2).sum() / s) for p, s in zip(pos, size)] for q in Q])
            check(node.output_dim == len(pos) <= 4, 'output_dim %s for %d nodes' % (node.output_dim, len(pos)), 'gng-dim')
            check(close(Y, want), 'expansion %s instead of %s' % (Y.tolist(), want.tolist()), 'gng-value')
            done(ctx, len(pos) > 2)
    ctx.state(T)


# ------------------------------------------------------------------ general expansion
FUNCS = [('id', lambda x: x, lambda r: list(r)), ('sq', lambda x: x ** 2, lambda r: [v * v for v in r]), ('norm', lambda x: ((x ** 2).sum(axis=1) ** .5).reshape((-1, 1)), lambda r: [sum(v * v for v in r) ** .5]),
         ('pair', lambda x: np.hstack([x[:, :1] * x, x.max(axis=1)[:, None]]), lambda r: [r[0] * v for v in r] + [max(r)]), ('none', lambda x: x[:, :0], lambda r: [])]


def general(ctx, dim, n):
    X = np.array(list(itertools.product((-1., 0., 2.), repeat=dim)))
    for fs in itertools.product(FUNCS, repeat=n):
        if all(f[0] == 'none' for f in fs):
            continue
        want = np.array([sum((f[2](r) for f in fs), []) for r in X.tolist()])
        for how in ('exec', 'dim'):
            for dtype in 'df':
                ctx.at([f[0] for f in fs], dim, how, dtype)
                node = N.GeneralExpansionNode([f[1] for f in fs], input_dim=dim if how == 'dim' else None)
                if how == 'dim':
                    check(node.output_dim == want.shape[1], 'output_dim %s instead of %d' % (node.output_dim, want.shape[1]), 'gen-dim')
                Y = node.execute(X.astype(dtype))
                where = 'functions %s in %d variables: ' % ([f[0] for f in fs], dim)
                check(Y.dtype == np.dtype(dtype) and node.output_dim == want.shape[1], where + 'dtype %s, output_dim %s' % (Y.dtype, node.output_dim), 'gen-dim')
                check(close(Y, want, 1e-5 if dtype == 'f' else 1e-10), where + 'value', 'gen-value')
                check(list(node.output_sizes(dim)) == [len(f[2](X[0].tolist())) for f in fs], where + 'output_sizes', 'gen-sizes')
                ctx.step(len(X))
                done(ctx, n > 1)
    ctx.state(dim, n)


# ------------------------------------------------------------------ cut-off, histogram
def cutoff(ctx, dtype):
    vals = [-3, -2, -1, 0, 1, 2, 3]
    bounds = [None, -2, -1, 0, 1, 2] + ([-1.5, .5] if dtype in 'df' else [])
    X = np.array(list(itertools.product(vals, repeat=2)), dtype=dtype)
    for lo, hi in itertools.product(bounds, repeat=2):
        if lo is not None and hi is not None and lo > hi:
            continue
        for form in ('chunk', 'row'):
            ctx.at(lo, hi, dtype, form)
            node = N.CutoffNode(lo, hi)
            keep = X.copy()
            Y = node.execute(X) if form == 'chunk' else np.vstack([node.execute(r[None]) for r in X])
            check((X == keep).all(), 'data changed', 'argument-changed')
            want = [[v if (lo is None or v >= lo) and (hi is None or v <= hi) else lo if lo is not None and v < lo else hi for v in r] for r in X.tolist()]
            check(Y.dtype == X.dtype and Y.tolist() == want, 'cut-off at %s, %s (%s): %s' % (lo, hi, dtype, Y.tolist()), 'cutoff')
            ctx.step(len(X))
            done(ctx)
    ctx.state(dtype)


def adaptive(ctx, T, values, fracs):
    for flat in itertools.product(values, repeat=T):
        X = np.array([[v, v * v - v] for v in flat], dtype='d')
        Xs = sorted(X[:, 0].tolist()), sorted(X[:, 1].tolist())
        for split in comps(T):
            for lo, hi in fracs:
                ctx.at(flat, split, lo, hi)
                node = N.AdaptiveCutoffNode(lo, hi)
                for c in chunks(X, split):
                    node.train(c.copy())
                    ctx.step()
                node.stop_training()
                where = 'trained with %s in chunks %s, fractions %s, %s: ' % (flat, split, lo, hi)
                check((node.data_hist == X).all(), where + 'history %s' % node.data_hist.tolist(), 'hist')
                lb = [s[int(lo * T)] for s in Xs] if lo else [-np.inf] * 2
                ub = [s[max(T - 1 - int(hi * T), 0)] for s in Xs] if hi else [np.inf] * 2
                Q = np.array([[v, w] for v in (-9., -1, 0, 1, 2, 9) for w in (-9., 0, 2, 9)])
                Y = node.execute(Q)
                want = [[min(max(v, l), u) for v, l, u in zip(r, lb, ub)] for r in Q.tolist()]
                ok = all(l <= u for l, u in zip(lb, ub))
                check(not ok or Y.tolist() == want, where + 'bounds %s, %s instead of %s, %s' % (node.lower_bounds, node.upper_bounds, lb, ub), 'adaptive')
                done(ctx, len(split) > 1)
    ctx.state(T)


def histogram(ctx, T, frac):
    """every outcome of the random choice, every split, in memory and on disk"""
    tmp = tempfile.mkdtemp(prefix='x01')
    try:
        X = np.arange(2. * T).reshape(T, 2)
        for mask in itertools.product((0, 1), repeat=T):
            if frac == 1. and not all(mask):
                continue
            for split in comps(T):
                for disk in (False, True):
                    ctx.at(T, frac, mask, split, disk)
                    fn = os.path.join(tmp, 'h.pic')
                    node = N.HistogramNode(frac, fn if disk else None)
                    pos = [0]

                    def rnd(size=None):
                        n = int(np.prod(size)) if size is not None else 1
                        out = np.array([0. if m else .999 for m in mask[pos[0]:pos[0] + n]])
                        pos[0] += n
                        return out
                    old = np.random.random
                    np.random.random = rnd
                    try:
                        for c in chunks(X, split):
                            node.train(c.copy())
                            ctx.step()
                    finally:
                        np.random.random = old
                    node.stop_training()
                    if frac < 1. and pos[0] != T:
                        ctx.note('choice not controlled')
                        continue
                    want = [r for r, m in zip(X.tolist(), mask) if m]
                    if disk:
                        check(node.data_hist is None, 'history kept in memory', 'hist-kept')
                        with open(fn, 'rb') as f:
                            got = pickle.load(f)
                    else:
                        got = node.data_hist
                    check(got.tolist() == want and got.shape[1] == 2, 'fraction %s, choice %s, chunks %s: %s instead of %s' % (frac, mask, split, got.tolist(), want), 'hist')
                    check((node.execute(X) == X).all(), 'data changed in execution', 'hist-exec')
                    done(ctx, len(split) > 1)
        ctx.state(T, frac)
    finally:
        shutil.rmtree(tmp)


# ------------------------------------------------------------------ hit parade
def parade(seq, n, d):
    """the greedy rule; slots keep their place, so that equal values are reported in a fixed order"""
    hits = [[None, 0] for _ in range(n)]
    last = 0
    for t, v in enumerate(seq):
        k = min(range(n), key=lambda i: -np.inf if hits[i][0] is None else hits[i][0])
        low = hits[k][0]
        if low is None or v > low:
            lv, lt = hits[last]
            if t - lt <= d:
                if lv is None or v > lv:
                    hits[last] = [v, t]
            else:
                hits[k] = [v, t]
                last = k
    return sorted([tuple(h) for h in hits if h[0] is not None], key=lambda h: -h[0])


def hitparade(ctx, T, values, n, d, first):
    for flat in itertools.product(values, repeat=T - 1):
        flat = (values[first],) + flat
        big = parade(flat, n, d)
        small = [(-v, t) for v, t in parade([-v for v in flat], n, d)]
        for split in comps(T) if T <= 5 else [(T,), (1,) * T, (2, T - 2), (T - 1, 1)]:
            for dtype in 'd' if len(split) > 1 else 'di':
                ctx.at(flat, n, d, split, dtype)
                node = N.HitParadeNode(n, d)
                X = np.array([[v, -v] for v in flat], dtype=dtype)
                for c in chunks(X, split):
                    node.train(c.copy())
                    ctx.step()
                node.stop_training()
                M, iM = node.get_maxima()
                m, im = node.get_minima()
                where = 'signal %s, n=%d, d=%d, chunks %s: ' % (flat, n, d, split)
                check(M.shape == iM.shape == m.shape == im.shape == (n, 2), where + 'shapes', 'hit-shape')
                for got, idx, want, what in ((M[:, 0], iM[:, 0], big, 'maxima'), (m[:, 0], im[:, 0], small, 'minima'), (-m[:, 1].astype('d'), im[:, 1], big, 'minima of the negative'), (-M[:, 1].astype('d'), iM[:, 1], small, 'maxima of the negative')):
                    k = len(want)
                    got, idx = got.tolist(), idx.tolist()
                    check(got[:k] == [v for v, _ in want] and sorted(zip(got[:k], idx[:k])) == sorted(want), where + '%s %s at %s instead of %s' % (what, got, idx, want), 'hit-value')
                    check(all(abs(v) > 1e6 for v in got[k:]), where + 'empty places hold %s' % got[k:], 'hit-empty')
                ts = sorted(t for _, t in big)
                assert all(b - a > d for a, b in zip(ts, ts[1:]))
                done(ctx, len(split) > 1)
    ctx.state(T, n, d)


# ------------------------------------------------------------------ eta
def eta(ctx, T, values, dim):
    for flat in itertools.product(values, repeat=T * dim):
        rows = [list(flat[i * dim:(i + 1) * dim]) for i in range(T)]
        for split in comps(T):
            pts, dif, p = [], [], 0
            for s in split:
                b = rows[p:p + s]
                p += s
                pts += b[:-1]
                dif += [[v - u for u, v in zip(a, c)] for a, c in zip(b, b[1:])]
            if len(pts) < 2:
                continue
            ctx.at(rows, split)
            node = N.EtaComputerNode()
            X = np.array(rows, dtype='d')
            for c in chunks(X, split):
                node.train(c.copy())
                ctx.step()
            node.stop_training()
            for t in (1, 7.5):
                got = node.get_eta(t) if t != 1 else node.get_eta()
                for i in range(dim):
                    mu = sum(r[i] for r in pts) / float(len(pts))
                    var = sum((r[i] - mu) ** 2 for r in pts) / float(len(pts) - 1)
                    if var < 1e-12:
                        continue
                    want = t / (2 * np.pi) * np.sqrt(sum(r[i] ** 2 for r in dif) / len(dif) / var)
                    check(abs(got[i] - want) <= 1e-9 * max(1, want), 'signal %s in chunks %s: eta(%s) is %s instead of %s' % (rows, split, t, got[i], want), 'eta')
            check((node.execute(X) == X).all(), 'data changed in execution', 'eta-exec')
            done(ctx, len(split) > 1)
    ctx.state(T, dim)


# ------------------------------------------------------------------ noise
def noise(ctx):
    X = np.array([[1., 2], [-1, 0], [.5, 3]])
    calls = []

    def func(a, b, size=None):
        calls.append((a, b, tuple(size)))
        return a + b * np.arange(np.prod(size), dtype='d').reshape(size)
    for typ in ('additive', 'multiplicative'):
        for args in ((0, 1), (.5, -2.), (3, 0)):
            for dtype in 'df':
                ctx.at(typ, args, dtype)
                node = N.NoiseNode(func, args, typ)
                x = X.astype(dtype)
                del calls[:]
                Y = node.execute(x)
                nz = args[0] + args[1] * np.arange(6.).reshape(3, 2)
                want = X + nz if typ == 'additive' else X * (1 + nz)
                check(calls == [args + ((3, 2),)], 'noise function called as %s' % calls, 'noise-args')
                check(close(Y, want, 1e-5) and Y.dtype == x.dtype and (x == X.astype(dtype)).all(), '%s noise %s: %s instead of %s' % (typ, args, Y.tolist(), want.tolist()), 'noise')
                ctx.step()
                done(ctx)
    old = np.random.normal
    for args in ((0, 1), (.5, 2.), (-3, 0)):
        np.random.normal = lambda *a, **k: (a[0] if a else k.get('loc', 0)) + (a[1] if len(a) > 1 else k.get('scale', 1)) * np.arange(6.).reshape(k.get('size') or a[2])
        try:
            Y = N.NormalNoiseNode(args).execute(X)
        finally:
            np.random.normal = old
        check(close(Y, X + args[0] + args[1] * np.arange(6.).reshape(3, 2)), 'normal noise %s: %s' % (args, Y.tolist()), 'normal-noise')
        done(ctx)
    for typ in ('add', None, 'x'):
        try:
            N.NoiseNode(func, (0, 1), typ)
        except mdp.NodeException:
            continue
        check(False, 'noise type %r was accepted' % (typ,), 'noise-type')
    ctx.state('noise')


SCENARIOS = {f.__name__: f for f in (poly, recursive, domain, normalizing, rbf, rbf_refused, gng, general, cutoff, adaptive, histogram, hitparade, eta, noise)}


def cases(tier):
    th = tier == 'thorough'
    for dim in range(1, 6 if not th else 7):
        for deg in range(1, 6 if not th else 8):
            yield 'poly', dict(degree=deg, dim=dim)
    for recf in FUN:
        for dim in range(1, 5):
            for deg in range(0, 6 if not th else 8):
                yield 'recursive', dict(recf=recf, deg=deg, dim=dim)
        yield 'domain', dict(recf=recf)
        for T in (1, 2, 3) if not th else (1, 2, 3, 4):
            yield 'normalizing', dict(recf=recf, T=T, values=(-2., .5, 3.) if T > 2 else (-2., -.5, 0., .5, 1., 3.))
    for dim in (1, 2, 3):
        for count in (1, 2, 3):
            for form in ('scalar', 'int', 'list', 'intlist', 'matrix', 'intmatrix', 'matrices', 'nested', 'intmatrices'):
                yield 'rbf', dict(dim=dim, count=count, form=form)
    yield 'rbf_refused', {}
    for T in (2, 4, 5) if not th else (2, 4, 5, 6):
        for first in range(4):
            yield 'gng', dict(T=T, first=first)
    for dim in (1, 2, 3):
        for n in (1, 2, 3) if not th else (1, 2, 3, 4):
            yield 'general', dict(dim=dim, n=n)
    for dtype in 'dfil':
        yield 'cutoff', dict(dtype=dtype)
    for T in range(1, 6 if not th else 7):
        yield 'adaptive', dict(T=T, values=(-1, 0, 1, 2) if T < 5 else (-1, 0, 2), fracs=[(None, None), (.2, .4), (.25, .25), (.5, None), (None, .5), (0, .75), (.1, .1), (.34, 0)])
    for T in range(1, 6 if not th else 8):
        for f in (1., .5):
            yield 'histogram', dict(T=T, frac=f)
    for n in (1, 2, 3):
        for d in (0, 1, 2, 3):
            for T in (1, 3, 5, 6) if not th else (1, 3, 5, 6, 7):
                for first in range(3):
                    yield 'hitparade', dict(T=T, values=(0, 2, 3) if T > 3 else (0, 1, 2), n=n, d=d, first=first)
    for T in range(3, 7 if not th else 9):
        yield 'eta', dict(T=T, values=(-1, 0, 2), dim=1)
    yield 'eta', dict(T=3, values=(-1, 0, 2), dim=2)
    yield 'eta', dict(T=4, values=(0, 1), dim=2)
    yield 'noise', {}
