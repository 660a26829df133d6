"""L01: linear analysis nodes against the definition of the problem they solve, over all small data sets."""
import itertools
import math
import warnings
import numpy as np
import mdp
from ..core import check

LEVEL = 'model_checking'
RULE = 'training data with at least two variables, or a part of the components'
ASSUMPTIONS = ['data over small integers, so that zero and non-zero variances are separated by far more than round-off (relative tolerance 1e-6, 1e-3 in single precision)',
               'data without full rank may be refused, or solved, by methods which do not claim to handle it; then only finite results of the methods that do are compared',
               'a component on the border of a variance threshold may be kept or dropped']
N = mdp.nodes
HANG_S = 120


def worker_setup():
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')


def near(a, b, tol):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.isfinite(a).all()) and bool((abs(a - b) <= tol).all())


def done(ctx, nontrivial=True):
    ctx.step()
    ctx.execution()
    if nontrivial:
        ctx.mark(ctx.executions)


def datasets(T, n, values, part, parts, weights=None):
    w = np.array(weights or [1] * n, 'd')
    for c, v in enumerate(itertools.product(values, repeat=T * n)):
        if c % parts == part:
            yield np.array(v, 'd').reshape(T, n) * w


def moments(X, ddof=1):
    m = [math.fsum(c) / len(X) for c in X.T]
    n = X.shape[1]
    C = np.array([[math.fsum((a[i] - m[i]) * (a[j] - m[j]) for a in X) / (len(X) - ddof) for j in range(n)] for i in range(n)])
    return C, np.array(m)


def train(node, X, split=None):
    for a in (X,) if split is None else (X[:split], X[split:]):
        node.train(a.copy())
    node.stop_training()
    return node


# ------------------------------------------------------------------ principal components
def kept(E, total, opt):
    """possible numbers of components (border cases allow more than one)"""
    n = len(E)
    out = opt.get('output_dim')
    e = 1e-9 * max(total, 1e-300)
    if isinstance(out, float):
        ks = [k for k in range(1, n + 1) if sum(E[:k]) >= out * total - e and (k == 1 or sum(E[:k - 1]) < out * total + e)]
        pos = [sum(x > e for x in E), sum(x > -e for x in E)]
        ks = sorted(set(min(k, p) for k in ks for p in range(pos[0], pos[1] + 1)))
        start = [(k,) for k in ks if k]
    else:
        start = [(n if out is None else min(out, n),)]
    res = set()
    for (k,) in start:
        if not opt.get('reduce'):
            res.add(k)
            continue
        for s in (-1, 1):
            t = lambda x, lim: x > lim + s * e
            res.add(sum(t(x, opt.get('var_abs', 1e-15)) and t(x, opt.get('var_rel', 1e-12) * E[0])
                        and (not opt.get('var_part') or t(x, opt['var_part'] * total)) for x in E[:k]))
        # exact zeros and rounding
        res |= set(range(min(res), max(res) + 1))
    return res


OPTS = [dict(), dict(output_dim=1), dict(output_dim=2), dict(output_dim=.5), dict(output_dim=.9), dict(output_dim=1.),
        dict(svd=True), dict(svd=True, output_dim=1), dict(svd=True, output_dim=2),
        dict(reduce=True), dict(reduce=True, var_abs=.3), dict(reduce=True, var_rel=.4), dict(reduce=True, var_part=.3),
        dict(reduce=True, output_dim=2, var_rel=.6), dict(reduce=True, output_dim=5), dict(reduce=True, output_dim=.9, var_abs=.2), dict(reduce=True, svd=True)]


def pca(ctx, kind, T, n, values, opt, dtype, part=0, parts=1, weights=None):
    cls = {'pca': N.PCANode, 'white': N.WhiteningNode, 'nipals': N.NIPALSNode}[kind]
    tol = (1e-3 if kind == 'nipals' else 1e-6) if dtype == 'd' else 5e-3
    for X in datasets(T, n, values, part, parts, weights):
        C, m = moments(X)
        E = np.linalg.eigvalsh(C)[::-1]
        total = C.trace()
        if total < 1e-12:
            continue
        r = int((E > 1e-9 * E[0]).sum())
        if isinstance(opt.get('output_dim'), int) and opt['output_dim'] > n and not opt.get('reduce'):
            continue
        ks = kept(E, total, opt)
        ctx.at(X.tolist(), opt, dtype)
        ctx.state(r, n, tuple(sorted(ks)))
        done(ctx, n > 1)
        node = cls(dtype=dtype, **opt)
        robust = opt.get('reduce') or isinstance(opt.get('output_dim'), float) or (opt.get('svd') and kind == 'pca')
        try:
            train(node, X.astype(dtype), None if ctx.executions % 2 else 1 + ctx.executions % (T - 1))
        except mdp.NodeException as e:
            check(r < max(ks) and not (robust and min(ks)) or 0 in ks, 'refused: %s' % str(e)[:200], 'refused')
            ctx.outcome('refused', r, n)
            continue
        if r < max(ks) and (kind == 'white' or kind == 'nipals'):
            # directions without variance: nothing is promised but finite numbers
            check(np.isfinite(node.execute(X.astype(dtype))).all(), 'the output is not finite', 'finite')
            continue
        d, v = node.d, node.get_eigenvectors() if kind == 'white' else node.v
        k = len(d)
        ctx.outcome('trained', k, r)
        check(k in ks and node.output_dim == k, '%d components, output dimension %s, should be %s' % (k, node.output_dim, sorted(ks)), 'number')
        sc = tol * (1 + E[0])
        check(near(d, E[:k], sc), 'variances %s, should be %s' % (d, E[:k]), 'variances')
        check(v.shape == (n, k) and near(v.T.dot(v), np.eye(k), tol), 'components are not orthonormal: %s' % v.tolist(), 'orthonormal')
        check(near(C.dot(v), v * E[:k], sc * 3), 'components are no eigenvectors of the covariance: %s' % v.tolist(), 'eigenvectors')
        check(near(np.ravel(node.avg), m, sc), 'average %s' % node.avg, 'average')
        check(abs(node.total_variance - total) < sc, 'total variance %s, should be %s' % (node.total_variance, total), 'total')
        check(abs(node.get_explained_variance() - E[:k].sum() / total) < tol, 'explained variance %s, should be %s' % (node.explained_variance, E[:k].sum() / total), 'explained')
        if r < k and kind == 'white':
            continue
        scale = np.sqrt(E[:k]) if kind == 'white' else np.ones(k)
        Z = np.vstack([X, np.eye(n), [[3.] * n]])
        y = node.execute(Z.astype(dtype))
        ref = (Z - m).dot(v) / scale
        check(near(y, ref, tol * (1 + abs(ref).max())), 'output is not the projection of the centred data', 'output')
        Y, _ = moments(y[:T].astype('d'))
        check(near(Y, np.eye(k) if kind == 'white' else np.diag(E[:k]), 3 * sc), 'covariance of the output: %s' % Y.tolist(), 'covariance')
        back = node.inverse(y)
        proj = (Z - m).dot(v).dot(v.T) + m
        check(near(back, proj, 3 * tol * (1 + abs(proj).max())), 'inverse is not the back-projection', 'inverse')
        for c in range(1, k + 1):
            yc = node.execute(Z.astype(dtype), c)
            check(near(yc, y[:, :c], tol), 'the first %d components differ' % c, 'first')
            check(near(node.inverse(yc), (Z - m).dot(v[:, :c]).dot(v[:, :c].T) + m, 3 * tol * (1 + abs(proj).max())), 'inverse of the first %d components' % c, 'inverse')
        P = node.get_projmatrix()
        R = node.get_recmatrix()
        check(near((Z - m).dot(P), ref, 3 * tol * (1 + abs(ref).max())) and near(node.get_projmatrix(0), P.T, 0) and near(node.get_recmatrix(0), R.T, 0), 'projection matrix', 'matrices')
        check(near(P.T.dot(R.T), np.eye(k), tol * 3), 'reconstruction matrix does not invert the projection matrix', 'matrices')


# ------------------------------------------------------------------ slow features
def sfa(ctx, kind, T, n, values, method, out, part=0, parts=1, weights=None, dt=None):
    for X in datasets(T, n, values, part, parts, weights):
        Z = X
        if kind == 'sfa2':
            Z = np.hstack([X] + [X[:, i:i + 1] * X[:, j:j + 1] for i in range(n) for j in range(i, n)])
        w = Z.shape[1]
        split = None
        done(ctx)
        variant = ctx.executions % 3
        last = True
        if variant and T > 3:
            # two chunks; with include_last_sample=False the chunks overlap in one sample
            last = variant == 1
            cut = T // 2
            blocks = [Z[:cut], Z[cut:]] if last else [Z[:cut + 1], Z[cut:]]
            raw = [X[:cut], X[cut:]] if last else [X[:cut + 1], X[cut:]]
        else:
            blocks, raw = [Z], [X]
        S = np.vstack([b if last else b[:-1] for b in blocks])
        D = np.vstack([b[1:] - b[:-1] for b in blocks])
        B, m = moments(S)
        if len(S) < 2:
            continue
        A = D.T.dot(D) / len(D)
        if len(D) > 1:
            A = D.T.dot(D) / (len(D) - 1)
        l, Q = np.linalg.eigh(B)
        k = l > 1e-9 * max(1, l.max())
        r = int(k.sum())
        ctx.at([b.tolist() for b in raw], method, out, last)
        cls = N.SFA2Node if kind == 'sfa2' else N.SFANode
        node = cls(output_dim=out, rank_deficit_method=method, include_last_sample=last)
        # differences of a single step: no second moment
        if len(D) < 2 or not r:
            continue
        Wh = Q[:, k] / np.sqrt(l[k])
        ref = np.linalg.eigvalsh(Wh.T.dot(A).dot(Wh))
        # eigenvalue zero on a direction with variance (possible between chunks), or a derivative in a direction without variance
        null = Q[:, ~k]
        if method != 'none' and r < w and (abs(A.dot(null)).max() > 1e-9 or method == 'reg' and ref.min() < 1e-6):
            continue
        ctx.state(r, w)
        try:
            for a in raw:
                node.train(a.copy())
            node.stop_training()
        except mdp.NodeException as e:
            slack = ref.min() < 1e-9
            check(slack or method == 'none' and r < w, 'refused: %s' % str(e)[:200], 'refused')
            ctx.outcome('refused', r, w)
            continue
        if method == 'none' and r < w:
            check(np.isfinite(node.execute(X)).all(), 'the output is not finite', 'finite')
            continue
        c = min(r, w if out is None else out)
        ctx.outcome('trained', c, r)
        check(node.output_dim == c and node.d.shape == (c,) and node.sf.shape == (w, c), 'output dimension %s, %d features, should be %d' % (node.output_dim, len(node.d), c), 'number')
        check(node.rank_deficit == w - r, 'rank deficit %s, should be %d' % (node.rank_deficit, w - r), 'deficit')
        sc = 1e-6 * (1 + ref.max())
        check(near(node.d, ref[:c], sc), 'delta values %s, should be %s' % (node.d, ref[:c]), 'delta')
        check(near(node.sf.T.dot(B).dot(node.sf), np.eye(c), 1e-6) and near(node.sf.T.dot(A).dot(node.sf), np.diag(ref[:c]), sc), 'features are not normalized or correlated', 'features')
        y = node.execute(X)
        check(y.shape == (T, c) and near(y, (Z - m).dot(node.sf), 1e-6 * (1 + abs(y).max())), 'output is not the projection of the centred data', 'output')
        for i in range(1, c + 1):
            check(near(node.execute(X, n=i), y[:, :i], 1e-9), 'the first %d features differ' % i, 'first')
        check(near(node.get_eta_values(t=7), 7 / (2 * np.pi) * np.sqrt(abs(ref[:c])), 1e-3 + sc), 'eta values', 'eta')
        if kind == 'sfa' and c == w:
            check(near(node.inverse(y), X, 1e-5 * (1 + abs(X).max())), 'the inverse does not give the data back', 'inverse')
        if kind == 'sfa2':
            P = np.vstack([X[:1], np.eye(n), [[2.] * n]])
            yp = node.execute(P)
            for i in range(c):
                q = node.get_quadratic_form(i)
                check(near(q.apply(P), yp[:, i], 1e-6 * (1 + abs(yp).max())), 'quadratic form %d differs from the output' % i, 'form')


# ------------------------------------------------------------------ discriminants
def fda(ctx, T, n, values, out, part=0, parts=1):
    for X in datasets(T, n, values, part, parts):
        ST, m = moments(X)
        if np.linalg.eigvalsh(ST).min() < 1e-9:
            continue
        for lab in itertools.product((0, 1, 2), repeat=T):
            # classes named in the order of their appearance
            if any(lab[i] > max((-1,) + lab[:i]) + 1 for i in range(T)):
                continue
            done(ctx)
            ctx.at(X.tolist(), lab)
            SW = np.zeros((n, n))
            for c in set(lab):
                Xc = np.array([x for x, k in zip(X, lab) if k == c])
                SW += (Xc - Xc.mean(0)).T.dot(Xc - Xc.mean(0))
            L = np.linalg.inv(np.linalg.cholesky(ST))
            ref = np.linalg.eigvalsh(L.dot(SW).dot(L.T))
            node = N.FDANode(output_dim=out)
            form = ctx.executions % 3
            for phase in range(2):
                if form == 0:
                    node.train(X.copy(), list(lab))
                elif form == 1:
                    node.train(X[:1].copy(), np.array(lab[:1]))
                    node.train(X[1:].copy(), np.array(lab[1:]))
                else:
                    for c in set(lab):
                        node.train(np.array([x for x, k in zip(X, lab) if k == c]), c)
                node.stop_training()
            k = n if out is None else out
            v = node.v
            ctx.outcome(len(set(lab)), k)
            check(v.shape == (n, k) and node.output_dim == k, 'projection of shape %s' % (v.shape,), 'shape')
            sc = 1e-6 * (1 + ref.max())
            check(near(v.T.dot(ST).dot(v), np.eye(k), 1e-6), 'projections do not have unit variance', 'variance')
            check(near(v.T.dot(SW).dot(v), np.diag(ref[:k]), sc), 'projections do not minimize the variance within the classes: %s, should be %s' % (v.T.dot(SW).dot(v).tolist(), ref[:k].tolist()), 'within')
            y = node.execute(X)
            check(near(y, (X - m).dot(v), 1e-6), 'output', 'output')
            check(near(node.execute(X, 1), y[:, :1], 1e-9), 'first component', 'first')
            if k == n:
                check(near(node.inverse(y), X, 1e-6), 'the inverse does not give the data back', 'inverse')


# ------------------------------------------------------------------ regression
def regression(ctx, T, n, values, yvals, part=0, parts=1):
    for X in datasets(T, n, values, part, parts):
        for bias in (True, False):
            M = np.hstack([np.ones((T, 1)), X]) if bias else X
            p = M.shape[1]
            r = np.linalg.matrix_rank(M)
            for yv in itertools.product(yvals, repeat=T):
                Y = np.array([[a, (i + 1) * (a - 1)] for i, a in enumerate(yv)], 'd')
                for pinv in (True, False):
                    done(ctx)
                    ctx.at(X.tolist(), Y.tolist(), bias, pinv)
                    node = N.LinearRegressionNode(with_bias=bias, use_pinv=pinv)
                    try:
                        s = 1 + ctx.executions % T
                        node.train(X[:s].copy(), Y[:s].copy())
                        if s < T:
                            node.train(X[s:].copy(), Y[s:].copy())
                        node.stop_training()
                    except mdp.NodeException:
                        check(r < p and not pinv, 'refused', 'refused')
                        ctx.outcome('refused')
                        continue
                    if r < p and not pinv:
                        continue
                    b = node.beta
                    ctx.outcome(r, p)
                    check(b.shape == (p, 2), 'coefficients of shape %s' % (b.shape,), 'shape')
                    check(near(M.T.dot(M.dot(b) - Y), np.zeros((p, 2)), 1e-6), 'the residual is not orthogonal to the inputs: %s' % b.tolist(), 'residual')
                    if r < p:
                        check(near(b, np.linalg.pinv(M).dot(Y), 1e-6), 'not the smallest solution', 'smallest')
                    P = np.vstack([X, [[2.] * n]])
                    out = node.execute(P)
                    check(near(out, P.dot(b[bias:]) + (b[0] if bias else 0), 1e-6), 'output', 'output')


SCENARIOS = {'pca': pca, 'sfa': sfa, 'fda': fda, 'regression': regression}


def cases(tier):
    th = tier == 'thorough'
    for kind in ('pca', 'white', 'nipals'):
        for opt in OPTS:
            if kind == 'nipals' and set(opt) - set(['output_dim']) or kind == 'nipals' and opt.get('output_dim') == 1.:
                continue
            if kind == 'white' and opt.get('output_dim') in (.5,):
                continue
            for T, n, vals, w in ((3, 2, (-1, 0, 2), None), (3, 1, (-1, 0, 2), None), (4, 2, (0, 1), (1, 3)), (4, 3, (0, 1), (1, 2, 1)), (2, 2, (-1, 0, 2), None)):
                if opt.get('output_dim') == 2 and n == 1 and not opt.get('reduce'):
                    continue
                if kind == 'nipals' and T == 4 and n == 3 and not th:
                    continue
                if T * n > 9:
                    for part in range(2):
                        yield 'pca', dict(kind=kind, T=T, n=n, values=vals, opt=opt, dtype='d', part=part * 3 if not th else part, parts=8 if not th else 2, weights=w)
                else:
                    yield 'pca', dict(kind=kind, T=T, n=n, values=vals, opt=opt, dtype='d', weights=w)
            if kind != 'nipals' and not opt.get('svd') and not isinstance(opt.get('output_dim'), float):
                yield 'pca', dict(kind=kind, T=3, n=2, values=(-1, 0, 2), opt=dict(opt, **(dict(var_abs=1e-5, var_rel=1e-5) if opt == dict(reduce=True) else {})), dtype='f')
            if th:
                yield 'pca', dict(kind=kind, T=5, n=2, values=(0, 1, 3)[:3], opt=opt, dtype='d')
    for m in ('none', 'pca', 'svd', 'reg', 'ldl', 'auto'):
        for T, n, vals, w in ((4, 2, (-1, 0, 2) if th else (0, 1), (1, 2)), (3, 2, (-1, 0, 2), None), (5, 2, (0, 1), None), (4, 3, (0, 1), None)):
            for out in (None, 1, 2) if T * n < 12 else (None,):
                for part in range(2 if T * n > 8 else 1):
                    yield 'sfa', dict(kind='sfa', T=T, n=n, values=vals, method=m, out=out, weights=w, part=part, parts=2 if T * n > 8 else 1)
        for out in (None, 1, 3):
            yield 'sfa', dict(kind='sfa2', T=5, n=1, values=(-1, 0, 1, 2), method=m, out=out)
            yield 'sfa', dict(kind='sfa2', T=7, n=2 if th else 1, values=(0, 1, 3)[:2 if th else 3], method=m, out=out)
    for out in (None, 1):
        yield 'fda', dict(T=4, n=1, values=(-1, 0, 1, 2), out=out)
        for part in range(4):
            yield 'fda', dict(T=4, n=2, values=(0, 1) if not th else (-1, 0, 1), out=out, part=part, parts=4)
        if th:
            for part in range(8):
                yield 'fda', dict(T=5, n=2, values=(0, 1), out=out, part=part, parts=8)
                yield 'fda', dict(T=5, n=3, values=(0, 1), out=out, part=part * 7, parts=64)
    for T, n in ((1, 1), (2, 1), (3, 1), (4, 1), (2, 2), (3, 2)):
        yield 'regression', dict(T=T, n=n, values=(-1, 0, 2), yvals=(0, 1))
    if th:
        for part in range(8):
            yield 'regression', dict(T=4, n=2, values=(-1, 0, 2), yvals=(0, 1), part=part, parts=8)
            yield 'regression', dict(T=4, n=3, values=(0, 1), yvals=(0, 1), part=part, parts=8)
