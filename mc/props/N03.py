"""N03: training over every split of small data sets, against the unsplit run and the textbook definition."""
import itertools
import warnings
import numpy as np
import mdp
from mdp import nodes as N
from .. import catalog as cat
from ..core import check

LEVEL = 'model_checking'
RULE = 'the data set was split into at least two chunks, or compared with the definition'
ASSUMPTIONS = ['eigenvectors are compared up to their sign, and only with the eigen-equation where eigenvalues are degenerate',
               'round-off: relative tolerance 1e-7 (1e-3 in single precision); data are small dyadic rationals',
               'singular problems may be refused (NodeException); a result that is given has to be right',
               'NIPALS is compared with the eigen-equation up to its convergence threshold; its start vector is assumed not to be '
               'orthogonal to the leading component']


def worker_setup():
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')


def done(ctx, nontrivial=True):
    ctx.execution()
    if nontrivial:
        ctx.mark(ctx.executions)


def comps(n, lo=1):
    """all compositions of n into parts of at least lo"""
    if n == 0:
        yield ()
        return
    for k in range(lo, n + 1):
        for rest in comps(n - k, lo):
            yield (k,) + rest


def blocks(sizes):
    out, a = [], 0
    for s in sizes:
        out.append((a, a + s))
        a += s
    return out


SIGN = ('PCANode', 'WhiteningNode', 'SFANode', 'VartimeSFANode', 'SFA2Node', 'FDANode', 'NIPALSNode', 'GSFANode', 'iGSFANode')
SLOW = ('FANode', 'CuBICANode', 'FastICANode', 'JADENode', 'HLLENode', 'LLENode', 'GrowingNeuralGasNode', 'GrowingNeuralGasExpansionNode',
        'KMeansClassifier', 'LogisticRegressionScikitsLearnNode', 'LinearDiscriminantAnalysisScikitsLearnNode', 'GaussianNBScikitsLearnNode',
        'LibSVMClassifier', 'NormalizingRecursiveExpansionNode', 'NIPALSNode', 'OnlineTimeDiffNode', 'CCIPCANode', 'CCIPCAWhiteningNode',
        'MCANode', 'IncSFANode', 'OnlineCenteringNode')
ATTRS = ('d', 'avg', 'beta', 'tlen', 'total_variance', 'explained_variance', 'm', 's', 'means', 'tlens', 'output_dim', 'nmbr_centroids')


def same(a, b, sign=False, tol=1e-7):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if cat.close(a, b, tol):
        return True
    if not sign or a.ndim != 2:
        return False
    return all(cat.close(a[:, j], b[:, j], tol) or cat.close(a[:, j], -b[:, j], tol) for j in range(a.shape[1]))


def same_attr(a, b, tol=1e-7):
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(map(str, a)) == sorted(map(str, b)) and all(same_attr(a[k], b[k], tol) for k in a)
    if a is None or b is None:
        return a is b
    try:
        return same(a, b, tol=tol)
    except (TypeError, ValueError):
        return True


def positions(n, k):
    """candidate cut positions of n rows: all, or k of them (first and last ones included)"""
    allp = list(range(1, n))
    if len(allp) <= k:
        return allp
    lo, hi = allp[:k // 3 + 1], allp[-(k // 3):]
    mid = [p for p in allp if p not in lo and p not in hi]
    m = k - len(lo) - len(hi)
    return sorted(set(lo + hi + [mid[i * len(mid) // m] for i in range(m)]))


def fresh(e, dtype=None):
    return e.make() if dtype is None or e.name.startswith('SimpleMarkov') else e.make(dtype=dtype)


def run_phases(e, cuts_per_phase, dtype=None):
    """train a new node, phase i on the data cut at cuts_per_phase[i]; returns (node, output on the probe)"""
    node = fresh(e, dtype)
    n = len(e.x)
    cat._seed()
    for cuts in cuts_per_phase:
        for a, b in blocks(cuts):
            node.train(e.x[a:b].copy(), *e.extra(a, b))
        cat._seed()
        node.stop_training()
    assert not node.is_training() and n
    return node, cat.execute(node, e)


def to_sizes(cuts, n):
    c = [0] + list(cuts) + [n]
    return tuple(b - a for a, b in zip(c, c[1:]))


def s_split(ctx, entry, dtype, k, lo, hi):
    """every subset of the cut positions; the same split in every phase"""
    e = cat.E[entry]
    n = len(e.x)
    tol = 1e-3 if dtype == 'f' else 1e-7
    sign = e.cls in SIGN
    nph = len(fresh(e, dtype)._get_train_seq())
    base, y0 = run_phases(e, [(n,)] * nph, dtype)
    pos = positions(n, k)
    for mask in range(lo, min(hi, 2 ** len(pos))):
        cuts = [p for i, p in enumerate(pos) if mask >> i & 1]
        sizes = to_sizes(cuts, n)
        ctx.at('split', entry, dtype, sizes)
        node, y = run_phases(e, [sizes] * nph, dtype)
        ctx.step(len(sizes) * nph)
        check(same(y, y0, sign, tol), '%s trained on chunks of %s rows gives another output than trained on all rows at once:\n%s\ninstead of\n%s'
              % (entry, sizes, y, y0), sig='split')
        for a in ATTRS:
            if hasattr(base, a):
                check(same_attr(getattr(base, a), getattr(node, a, None), tol), '%s trained on chunks of %s rows has %s = %s, trained at once %s'
                      % (entry, sizes, a, getattr(node, a, None), getattr(base, a)), sig='split-' + a)
        done(ctx, len(sizes) > 1)
    ctx.state('split', entry, dtype)


def s_phases(ctx, entry, k, lo, hi):
    """a different split in every phase"""
    e = cat.E[entry]
    n = len(e.x)
    nph = len(e.make()._get_train_seq())
    _, y0 = run_phases(e, [(n,)] * nph)
    pos = positions(n, k)
    sets = [to_sizes([p for i, p in enumerate(pos) if m >> i & 1], n) for m in range(2 ** len(pos))]
    for combo in list(itertools.product(sets, repeat=nph))[lo:hi]:
        ctx.at('phases', entry, combo)
        _, y = run_phases(e, combo)
        ctx.step(sum(map(len, combo)))
        check(same(y, y0, e.cls in SIGN), '%s trained with phase splits %s gives another output than trained on all rows at once:\n%s\ninstead of\n%s'
              % (entry, combo, y, y0), sig='phases')
        done(ctx)
    ctx.state('phases', entry)


# ------------------------------------------------------------------ definitions
PTS = list(itertools.product((-1., 0., 2.), (-1., 1., 2.)))


def dataset(idx, t):
    rows = []
    for i in range(t):
        rows.append(PTS[idx % len(PTS)])
        idx //= len(PTS)
    return np.array(rows)


def dataset3(idx, t):
    """three columns: the two of the point, and a cross term that makes the columns correlated"""
    x = dataset(idx, t)
    return np.column_stack([x, x[:, 0] * .5 - x[:, 1] + np.arange(t) % 3])


def cov_def(x, bias=False):
    m = x.mean(axis=0)
    c = x - m
    return sum(np.outer(r, r) for r in c) / float(len(x) - (0 if bias else 1)), m


PCAKINDS = {
    'full': (lambda: N.PCANode(), None), 'svd': (lambda: N.PCANode(svd=True), None), 'reduce': (lambda: N.PCANode(reduce=True), 'reduce'),
    'reduce_rel': (lambda: N.PCANode(reduce=True, var_rel=.25), 'reduce'), 'reduce_part': (lambda: N.PCANode(reduce=True, var_part=.25), 'reduce'),
    'reduce_abs': (lambda: N.PCANode(reduce=True, var_abs=1.), 'reduce'), 'svd_reduce': (lambda: N.PCANode(svd=True, reduce=True), 'reduce'),
    'out1': (lambda: N.PCANode(output_dim=1), 1), 'out2': (lambda: N.PCANode(output_dim=2), 2), 'svd_out2': (lambda: N.PCANode(svd=True, output_dim=2), 2),
    '.5': (lambda: N.PCANode(output_dim=.5), .5), '.9': (lambda: N.PCANode(output_dim=.9), .9), '1.': (lambda: N.PCANode(output_dim=1.), 1.),
    'svd.9': (lambda: N.PCANode(svd=True, output_dim=.9), .9),
    'white': (lambda: N.WhiteningNode(), None), 'white1': (lambda: N.WhiteningNode(output_dim=1), 1), 'white.9': (lambda: N.WhiteningNode(output_dim=.9), .9),
    'white_svd': (lambda: N.WhiteningNode(svd=True), None), 'white_reduce': (lambda: N.WhiteningNode(reduce=True), 'reduce'),
    'nipals': (lambda: N.NIPALSNode(conv=1e-14), None), 'nipals2': (lambda: N.NIPALSNode(conv=1e-14, output_dim=2), 2),
    'nipals.9': (lambda: N.NIPALSNode(conv=1e-14, output_dim=.9), .9), 'nipals1.': (lambda: N.NIPALSNode(conv=1e-14, output_dim=1.), 1.),
}


def s_pca(ctx, kind, t, dim, lo, hi):
    """principal components of every small data set, in every split, against the eigen-decomposition of its covariance"""
    make, want = PCAKINDS[kind]
    white, nip = kind.startswith('white'), kind.startswith('nipals')
    tol = 1e-5 if nip else 1e-8
    for idx in range(lo, hi):
        x = dataset(idx, t) if dim == 2 else dataset3(idx, t)
        C, m = cov_def(x)
        ev = np.linalg.eigvalsh(C)[::-1]
        tot = np.trace(C)
        if tot == 0:
            continue
        rank = int((ev > 1e-9 * ev[0]).sum())
        if white and (want is None or isinstance(want, int)) and rank < (dim if want is None else want):
            continue                      # zero variance: whitening divides by zero
        if nip:
            # outside: (nearly) equal eigenvalues, start vector orthogonal to a leading component
            vals, vecs = np.linalg.eigh(C)
            if any(vals[i + 1] - vals[i] < .05 * vals[i + 1] for i in range(dim - rank, dim - 1)):
                continue
            res, bad = C.copy(), False
            for i in range(rank):
                j = res.diagonal().argmax()
                if abs(vecs[j, dim - 1 - i]) < 1e-3 or abs(vecs[0, dim - 1 - i]) < 1e-3:
                    bad = True
                res = res - vals[dim - 1 - i] * np.outer(vecs[:, dim - 1 - i], vecs[:, dim - 1 - i])
            if bad:
                continue
        for sizes in comps(t):
            ctx.at('pca', kind, idx, sizes)
            node = make()
            try:
                for a, b in blocks(sizes):
                    node.train(x[a:b].copy())
                node.stop_training()
            except mdp.NodeException as ex:
                ctx.outcome('refused')
                if kind == 'reduce_abs':
                    check(ev[0] <= 1. + 1e-9, 'PCANode refused %s: %s' % (x.tolist(), ex), sig='pca-refused')
                else:
                    check(rank < dim, '%s refused the regular data set %s: %s' % (kind, x.tolist(), ex), sig='pca-refused')
                continue
            ctx.step(len(sizes))
            y = node.execute(x)
            k = y.shape[1]
            info = '%s trained on %s in chunks of %s: ' % (kind, x.tolist(), sizes)
            check(node.output_dim == k and len(node.d) == k, info + 'output_dim %s, %s eigenvalues, %s columns' % (node.output_dim, len(node.d), k), sig='pca-dim')
            if want is None:
                check(k == dim, info + 'kept %d components instead of %d' % (k, dim), sig='pca-count')
            elif want == 'reduce':
                lim = {'reduce_rel': .25 * ev[0], 'reduce_part': .25 * tot, 'reduce_abs': 1.}.get(kind, 1e-9 * ev[0])
                if not np.any(np.abs(ev - lim) < 1e-9 * ev[0] * (kind in ('reduce_rel', 'reduce_part', 'reduce_abs'))):
                    check(k == (ev > lim).sum(), info + 'kept %d components of the variances %s' % (k, ev), sig='pca-reduce')
            elif isinstance(want, int):
                check(k == want, info + 'kept %d components instead of %d' % (k, want), sig='pca-count')
            else:
                cum = ev.cumsum() / tot
                ks = set((cum < want - d).sum() + 1 for d in (1e-9, -1e-9))
                ks = set(min(q, dim) for q in ks) | (set(range(rank, dim + 1)) if want == 1. else set())
                check(k in ks, info + 'kept %d components for the fraction %s of the variances %s' % (k, want, ev), sig='pca-fraction')
            check(same(node.avg.ravel(), m), info + 'mean %s instead of %s' % (node.avg, m), sig='pca-mean')
            check(node.tlen == t, info + 'tlen %s' % node.tlen, sig='pca-tlen')
            check(np.allclose(node.d, ev[:k], rtol=tol, atol=tol * ev[0]), info + 'variances %s instead of %s' % (node.d, ev[:k]), sig='pca-d')
            check(abs(node.total_variance - tot) < 1e-8 * tot, info + 'total variance %s instead of %s' % (node.total_variance, tot), sig='pca-total')
            check(abs(node.explained_variance - ev[:k].sum() / tot) < 1e-6 and abs(node.get_explained_variance() - ev[:k].sum() / tot) < 1e-6,
                  info + 'explained variance %s instead of %s' % (node.explained_variance, ev[:k].sum() / tot), sig='pca-explained')
            v = node.get_projmatrix()
            check(same(y, (x - m).dot(v)) and same(node.get_projmatrix(0), v.T), info + 'the output is not the projection of the centred data', sig='pca-proj')
            r = node.get_recmatrix()
            check(same(node.inverse(y), y.dot(r) + m) and same(node.get_recmatrix(0), r.T), info + 'the inverse is not the reconstruction', sig='pca-rec')
            good = ev[:k] > 1e-9 * ev[0]
            if not nip:
                check(same(r.dot(v)[np.ix_(good, good)], np.eye(good.sum())), info + 'reconstruction and projection are not inverse of each other', sig='pca-orth')
            if white:
                W = node.get_eigenvectors()
                yc, ym = cov_def(y)
                check(np.allclose(ym, 0, atol=1e-7) and np.allclose(yc[np.ix_(good, good)], np.eye(good.sum()), atol=1e-6),
                      info + 'the output has mean %s and covariance %s' % (ym, yc), sig='white')
            else:
                W = v
            g = np.where(good)[0]
            check(np.allclose(C.dot(W[:, g]), W[:, g] * node.d[g], atol=max(tol * 10, 1e-3 if nip else 0) * ev[0]),
                  info + 'the components are no eigenvectors of the covariance matrix', sig='pca-eig')
            check(np.allclose(W[:, g].T.dot(W[:, g]), np.eye(len(g)), atol=1e-3 if nip else 1e-7), info + 'the components are not orthonormal', sig='pca-norm')
            check(np.isfinite(y).all(), info + 'the output %s is not finite' % y, sig='pca-finite')
            if k >= rank:
                check(np.allclose(node.inverse(y), x, atol=1e-6 if not nip else 1e-3), info + 'all variance kept, but the inverse gives %s' % node.inverse(y),
                      sig='pca-inverse')
            for q in range(1, k + 1):
                check(same(node.execute(x, n=q), y[:, :q]) and same(node.inverse(y[:, :q]), y[:, :q].dot(r[:q]) + m),
                      info + 'the first %d components' % q, sig='pca-n')
            done(ctx)
    ctx.state('pca', kind, lo)


def s_regression(ctx, t, lo, hi):
    """least squares over every small data set and split: normal equations, and the minimum-norm solution with use_pinv"""
    for idx in range(lo, hi):
        x = dataset(idx, t)
        y = np.column_stack([x[:, 0] * 2 - x[:, 1] + np.arange(t) % 2, x[:, 0] * x[:, 1]])
        for bias, pinv in itertools.product((True, False), repeat=2):
            X = np.column_stack([np.ones(t), x]) if bias else x
            A = X.T.dot(X)
            full = abs(round(np.linalg.det(A))) >= 1
            if not full and not pinv:
                continue
            want = np.linalg.lstsq(X, y, rcond=1e-10)[0]
            for sizes in comps(t):
                ctx.at('regression', idx, bias, pinv, sizes)
                node = N.LinearRegressionNode(with_bias=bias, use_pinv=pinv)
                for a, b in blocks(sizes):
                    node.train(x[a:b].copy(), y[a:b].copy())
                node.stop_training()
                ctx.step(len(sizes))
                check(same(node.beta, want, tol=1e-6), 'LinearRegressionNode(with_bias=%s, use_pinv=%s) on %s -> %s in chunks of %s has coefficients\n%s\ninstead of\n%s'
                      % (bias, pinv, x.tolist(), y.tolist(), sizes, node.beta, want), sig='regression')
                check(same(node.execute(x), X.dot(want), tol=1e-6), 'LinearRegressionNode: the output is not the fitted value', sig='regression-out')
                done(ctx)
    ctx.state('regression', lo)


def s_normalize(ctx, t, lo, hi):
    for idx in range(lo, hi):
        x = dataset(idx, t)
        C, m = cov_def(x)
        for sizes in comps(t):
            ctx.at('normalize', idx, sizes)
            node = N.NormalizeNode()
            for a, b in blocks(sizes):
                node.train(x[a:b].copy())
            node.stop_training()
            y = node.execute(x)
            ctx.step(len(sizes))
            s = np.sqrt(np.diag(C))
            g = s > 1e-9
            check(same(y[:, g], ((x - m) / s)[:, g]), 'NormalizeNode on %s in chunks of %s gives %s' % (x.tolist(), sizes, y), sig='normalize')
            if g.all():
                check(same(node.inverse(y), x), 'NormalizeNode: inverse', sig='normalize-inv')
            done(ctx)
    ctx.state('normalize', lo)


FORMS = ('list', 'tuple', 'array', 'str', 'scalar')


def form(lab, how):
    if how == 'list':
        return list(lab)
    if how == 'tuple':
        return tuple(lab)
    if how == 'array':
        return np.array(lab)
    if how == 'str':
        return ['abc'[i] for i in lab]
    return lab[0]


def s_fda(ctx, t, classes, how, lo, hi):
    """Fisher discriminant analysis for every labelling and split (a different one in the second phase)"""
    X = np.column_stack([cat.data(t, 2), ])
    S_T, m = cov_def(X)
    labs = list(itertools.product(range(classes), repeat=t))[lo:hi]
    cs = list(comps(t))
    for lab in labs:
        if len(set(lab)) < 2:
            continue
        lab = np.array(lab)
        S_W = np.zeros((2, 2))
        means = {}
        for l in set(lab):
            xl = X[lab == l]
            means[l] = xl.mean(axis=0)
            S_W += (xl - means[l]).T.dot(xl - means[l])
        for ci, c1 in enumerate(cs):
            if how == 'scalar' and not all(len(set(lab[a:b])) == 1 for a, b in blocks(c1)):
                continue
            c2 = c1 if how == 'scalar' else cs[-1 - ci]
            ctx.at('fda', how, lab.tolist(), c1, c2)
            node = N.FDANode()
            for c in (c1, c2):
                for a, b in blocks(c):
                    node.train(X[a:b].copy(), form(lab[a:b].tolist(), how))
                node.stop_training()
            ctx.step(len(c1) + len(c2))
            info = 'FDANode, labels %s given as %s, chunks %s and %s: ' % (lab.tolist(), how, c1, c2)
            names = dict((('abc'[l] if how == 'str' else l), means[l]) for l in means)
            check(sorted(map(str, node.means)) == sorted(map(str, names)), info + 'classes %s' % list(node.means), sig='fda-classes')
            for l in names:
                check(same(np.ravel(node.means[l]), names[l]) and node.tlens[l] == (lab == (l if how != 'str' else 'abc'.index(l))).sum(),
                      info + 'class %s has mean %s and %s rows' % (l, node.means[l], node.tlens[l]), sig='fda-means')
            check(same(node.avg, m), info + 'mean', sig='fda-avg')
            v = node.v
            check(np.allclose(v.T.dot(S_T).dot(v), np.eye(2), atol=1e-7), info + 'the components are not normalised', sig='fda-norm')
            lam = np.diag(v.T.dot(S_W).dot(v))
            check(np.allclose(S_W.dot(v), S_T.dot(v) * lam, atol=1e-7 * max(1, abs(S_W).max())) and lam[0] <= lam[1] + 1e-9,
                  info + 'not the discriminant components (values %s)' % lam, sig='fda-eig')
            check(same(node.execute(X), (X - m).dot(v)) and same(node.execute(X, n=1), (X - m).dot(v[:, :1])), info + 'output', sig='fda-out')
            done(ctx)
    ctx.state('fda', how, lo)


# ------------------------------------------------------------------ slow features
def sfa_def(chunks, last):
    """covariance, mean and second moment of the derivatives, from the chunks and their include_last_sample switches"""
    pts = np.vstack([c if l else c[:-1] for c, l in zip(chunks, last)])
    der = np.vstack([c[1:] - c[:-1] for c in chunks])
    C, m = cov_def(pts)
    return C, m, der.T.dot(der) / float(len(der) - 1), len(pts)


def sfa_judge(ctx, node, C, m, D, n, X, info, bias_free=True):
    sf, d = node.sf, node.d
    k = sf.shape[1]
    check(same(np.ravel(node.avg), m), info + 'mean %s instead of %s' % (node.avg, m), sig='sfa-mean')
    check(node.tlen is None or node.tlen == n or n is None, info + 'tlen %s instead of %s' % (node.tlen, n), sig='sfa-tlen')
    sc = max(1., abs(C).max() * abs(sf).max() ** 2)
    check(np.allclose(sf.T.dot(C).dot(sf), np.eye(k), atol=1e-7 * sc), info + 'outputs are not decorrelated with unit variance: %s' % sf.T.dot(C).dot(sf), sig='sfa-white')
    lam = np.diag(sf.T.dot(D).dot(sf))
    check(np.allclose(D.dot(sf), C.dot(sf) * lam, atol=1e-7 * max(1., abs(D).max() * abs(sf).max())) and np.all(np.diff(lam) >= -1e-9),
          info + 'the components do not solve the generalised eigenvalue problem (%s)' % lam, sig='sfa-eig')
    check(np.allclose(d, lam, atol=1e-8, rtol=1e-7), info + 'd = %s instead of %s' % (d, lam), sig='sfa-d')
    check(np.allclose(node.get_eta_values(t=5), 5 / (2 * np.pi) * np.sqrt(np.maximum(lam, 0)), rtol=1e-6, atol=1e-8), info + 'eta values', sig='sfa-eta')
    y = node.execute(X)
    check(same(y, (X - m).dot(sf), tol=1e-6), info + 'the output is not the projection of the centred data', sig='sfa-out')
    for q in range(1, k + 1):
        check(same(node.execute(X, n=q), y[:, :q]), info + 'the %d slowest components' % q, sig='sfa-n')


def s_sfa(ctx, cls, t, dim, method, lo, hi):
    """every split, every pattern of include_last_sample (constructor and per chunk), against the definition; the overlapping
    split against the unsplit run"""
    X = cat.slow(max(t, 9), 4)[:t, :dim] * 2
    if cls == 'SFA2Node':
        Xe = N.QuadraticExpansionNode()(X)
    else:
        Xe = X
    make = getattr(N, cls)
    kw = {} if method is None else {'rank_deficit_method': method}
    for sizes in list(comps(t, 2))[lo:hi]:
        bl = blocks(sizes)
        for default in (True, False):
            for pat in itertools.product((None, True, False), repeat=len(sizes)):
                last = [default if p is None else p for p in pat]
                C, m, D, n = sfa_def([Xe[a:b] for a, b in bl], last)
                if np.linalg.cond(C) > 1e6:
                    continue
                ctx.at('sfa', cls, sizes, default, pat)
                node = make(include_last_sample=default, **kw)
                for (a, b), p in zip(bl, pat):
                    if p is None:
                        node.train(X[a:b].copy())
                    else:
                        node.train(X[a:b].copy(), include_last_sample=p)
                node.stop_training()
                ctx.step(len(sizes))
                info = '%s(include_last_sample=%s, %s), chunks of %s with switches %s: ' % (cls, default, method, sizes, pat)
                if cls == 'SFANode':
                    sfa_judge(ctx, node, C, m, D, n, X, info)
                else:
                    sf = node.sf
                    check(np.allclose(sf.T.dot(C).dot(sf), np.eye(sf.shape[1]), atol=1e-6) and same(node.execute(X), (Xe - m).dot(sf), tol=1e-6)
                          and np.allclose(np.diag(sf.T.dot(D).dot(sf)), node.d, atol=1e-7), info + 'not the slow components of the expanded data', sig='sfa2')
                    for i in range(sf.shape[1]):
                        q = node.get_quadratic_form(i)
                        check(np.allclose(q.apply(X), node.execute(X)[:, i], atol=1e-7), info + 'quadratic form %d differs from the output' % i, sig='sfa2-form')
                done(ctx)
    # overlap: chunk i begins with the last row of chunk i-1
    for sizes in list(comps(t - 1))[lo:hi]:
        ctx.at('overlap', cls, sizes)
        whole = make(include_last_sample=False, **kw)
        whole.train(X.copy())
        node = make(include_last_sample=False, **kw)
        try:
            whole.stop_training()
        except mdp.NodeException:
            break
        for a, b in blocks(sizes):
            node.train(X[a:b + 1].copy())
        node.stop_training()
        check(same(node.execute(X), whole.execute(X), True), '%s: overlapping chunks of %s rows without last samples differ from the unsplit run' % (cls, sizes),
              sig='overlap')
        check(same(node.d, whole.d) and node.tlen == whole.tlen, '%s: overlapping chunks of %s rows: d=%s tlen=%s, unsplit d=%s tlen=%s'
              % (cls, sizes, node.d, node.tlen, whole.d, whole.tlen), sig='overlap-d')
        done(ctx)
    ctx.state('sfa', cls, t, dim, method, lo)


def s_vartime(ctx, t, mode, lo, hi):
    """VartimeSFANode with time dependence: every split gives the unsplit result"""
    X = cat.slow(9, 3)[:t] * 2
    step = np.array([1., .5, 2., .25, 1., .5, 1.5, 1.])[:t - 1]

    def dts(a, b):
        if mode == 'none':
            return ()
        if mode == 'const':
            return (.5,)
        return (step[a:b - 1] if a == 0 else step[a - 1:b - 1],)
    whole = N.VartimeSFANode()
    whole.train(X.copy(), *dts(0, t))
    whole.stop_training()
    if mode != 'vec':
        h = 1. if mode == 'none' else .5
        w = np.full(t, h)
        w[0] = w[-1] = h / 2
        m = (w[:, None] * X).sum(axis=0) / w.sum()
        check(same(np.ravel(whole.avg), m), 'VartimeSFANode: mean %s is not the trapezoid mean %s' % (whole.avg, m), sig='vartime-mean')
    for sizes in list(comps(t, 2))[lo:hi]:
        ctx.at('vartime', mode, sizes)
        node = N.VartimeSFANode()
        for a, b in blocks(sizes):
            node.train(X[a:b].copy(), *dts(a, b))
        node.stop_training()
        ctx.step(len(sizes))
        check(same(node.execute(X), whole.execute(X), True) and same(node.d, whole.d),
              'VartimeSFANode (%s) in chunks of %s: d=%s, unsplit %s\n%s\ninstead of\n%s' % (mode, sizes, node.d, whole.d, node.execute(X), whole.execute(X)), sig='vartime')
        done(ctx)
    ctx.state('vartime', mode, lo)


def s_eta(ctx, t, lo, hi):
    """EtaComputerNode: every split against the definition (first rows of the chunks with their derivatives)"""
    X = cat.data(t, 2)
    for sizes in list(comps(t, 2))[lo:hi]:
        ctx.at('eta', sizes)
        pts = np.vstack([X[a:b - 1] for a, b in blocks(sizes)])
        der = np.vstack([X[a + 1:b] - X[a:b - 1] for a, b in blocks(sizes)])
        node = N.EtaComputerNode()
        for a, b in blocks(sizes):
            node.train(X[a:b].copy())
        node.stop_training()
        ctx.step(len(sizes))
        want = np.sqrt((der ** 2).sum(axis=0) / len(der) / pts.var(axis=0, ddof=1)) / (2 * np.pi) if len(pts) > 1 else None
        if want is not None:
            for tt in (1, 7):
                check(same(node.get_eta(tt), tt * want), 'EtaComputerNode, chunks of %s: eta %s instead of %s' % (sizes, node.get_eta(tt), tt * want), sig='eta')
        check(same(node.execute(X), X), 'EtaComputerNode changes the data', sig='eta-exec')
        done(ctx)
    ctx.state('eta', lo)


SCENARIOS = dict(split=s_split, phases=s_phases, pca=s_pca, regression=s_regression, normalize=s_normalize, fda=s_fda, sfa=s_sfa, vartime=s_vartime,
                 eta=s_eta)


def parts(total, size):
    for lo in range(0, total, size):
        yield lo, min(total, lo + size)


def cases(tier):
    thorough = tier == 'thorough'
    # split
    for name, e in sorted(cat.E.items()):
        if not (e.chunk or e.perrow) or (e.perrow and not e.online and e.cls != 'PerceptronClassifier') or e.randtrain and not e.chunk:
            continue
        if e.cls == 'IncSFANode':
            continue
        slow_ = e.cls in SLOW
        k = (11 if thorough else 7) if slow_ else (13 if thorough else 9)
        dts = [None]
        if e.cls in ('PCANode', 'WhiteningNode', 'FDANode', 'LinearRegressionNode', 'NormalizeNode'):
            dts += ['f', 'd'] if thorough else ['f']
        npos = len(positions(len(e.x), k))
        for dt in dts:
            for lo, hi in parts(2 ** npos, 128):
                yield 'split', dict(entry=name, dtype=dt, k=k, lo=lo, hi=hi)
        if not slow_ and len(e.make()._get_train_seq()) == 2:
            kk = 5 if thorough else 4
            for lo, hi in parts(4 ** kk, 128):
                yield 'phases', dict(entry=name, k=kk, lo=lo, hi=hi)
    for kind in sorted(PCAKINDS):
        for t, dim in ((3, 2), (4, 3)) if not thorough else ((2, 2), (3, 2), (4, 2), (4, 3), (5, 3)):
            tot = len(PTS) ** t if t < 4 else (1296 if not thorough else 6561)
            if kind.startswith('nipals') and not thorough:
                tot = min(tot, 729)
            if not thorough and t == 4 and kind not in ('full', 'reduce', '.9', 'white', 'nipals', 'nipals.9', 'nipals2', 'svd.9'):
                tot = 243
            for lo, hi in parts(tot, 81):
                yield 'pca', dict(kind=kind, t=t, dim=dim, lo=lo, hi=hi)
    for t in (3, 4) if not thorough else (3, 4, 5):
        for lo, hi in parts(min(9 ** t, 729 if not thorough else 6561), 81):
            yield 'regression', dict(t=t, lo=lo, hi=hi)
            yield 'normalize', dict(t=t, lo=lo, hi=hi)
    for how in FORMS:
        for t, c in ((5, 2), (5, 3)) if not thorough else ((5, 2), (6, 2), (5, 3), (6, 3)):
            for lo, hi in parts(c ** t, 32 if t < 6 else 16):
                yield 'fda', dict(t=t, classes=c, how=how, lo=lo, hi=hi)
    for cls, t, dim in (('SFANode', 6, 2), ('SFANode', 8, 3), ('SFA2Node', 8, 1)) if not thorough else \
            (('SFANode', 6, 2), ('SFANode', 8, 3), ('SFANode', 9, 3), ('SFANode', 10, 2), ('SFA2Node', 8, 1), ('SFA2Node', 10, 2)):
        for method in (None, 'svd', 'pca', 'reg', 'ldl') if cls == 'SFANode' and dim == 2 and t == 6 else (None,):
            for lo, hi in parts(2 ** (t - 2), 16):
                yield 'sfa', dict(cls=cls, t=t, dim=dim, method=method, lo=lo, hi=hi)
    for mode in ('none', 'const', 'vec'):
        for t in (7, 8) if not thorough else (5, 6, 7, 8, 9):
            yield 'vartime', dict(t=t, mode=mode, lo=0, hi=1000)
    for t in (5, 8) if not thorough else (3, 4, 5, 6, 7, 8, 9, 10):
        yield 'eta', dict(t=t, lo=0, hi=1000)
