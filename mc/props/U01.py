"""U01: symmetric eigenvalue solvers against the definition of the problem, over all small integer matrices."""
import itertools
import warnings
import numpy as np
import mdp
from ..core import check

LEVEL = 'model_checking'
RULE = 'generalized problem, or a part of the spectrum'
ASSUMPTIONS = ['integer entries up to 3, so that zero and non-zero eigenvalues are separated by far more than round-off',
               'for a singular B which round-off makes definite, the plain solver may return any finite result',
               'for the solvers of semidefinite problems, A vanishes on the null space of B, as for derivatives of constant directions; the regularized one may only be used where no other direction has eigenvalue zero',
               'single precision only for the plain solver']
HANG_S = 120
S = {'pca': mdp.utils.symeig_semidefinite_pca, 'svd': mdp.utils.symeig_semidefinite_svd,
     'reg': mdp.utils.symeig_semidefinite_reg, 'ldl': mdp.utils.symeig_semidefinite_ldl}


def worker_setup():
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')


class Report(object):
    pass


def sym(values, n):
    for v in itertools.product(values, repeat=n * (n + 1) // 2):
        M = np.zeros((n, n))
        M[np.triu_indices(n)] = v
        yield M + np.triu(M, 1).T


def near(a, b, tol):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.isfinite(a).all()) and bool((abs(a - b) <= tol).all())


def det3(M):
    """exact determinant and leading minors of an integer matrix"""
    n = len(M)
    m = [[int(x) for x in r] for r in M]
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    return sum((-1) ** j * m[0][j] * det3([[r[k] for k in range(n) if k != j] for r in m[1:]]) for j in range(n))


def definite(B):
    return all(det3(B[:k, :k]) > 0 for k in range(1, len(B) + 1))


def ranges(n, wide):
    out = [None] + [(a, b) for a in range(1, n + 1) for b in range(a, n + 1)]
    return out + ([(0, 1), (-2, n), (1, n + 3), (2, 1), (n, 1), (n + 1, n + 2)] if wide else [])


def cut(n, rng):
    """the part of the spectrum that a range selects: limits are moved into 1..n, and exchanged if necessary"""
    if rng is None:
        return slice(0, n)
    lo, hi = min(max(rng[0], 1), n), min(rng[1], n)
    lo, hi = (hi, lo) if lo > hi else (lo, hi)
    return slice(lo - 1, hi)


def plain(ctx, n, avals, bvals, dt, wide):
    tol = 1e-7 if dt == 'd' else 2e-3
    Bs = [None] + (list(sym(bvals, n)) if bvals else [])
    for B in Bs:
        kind = 'ordinary' if B is None else 'definite' if definite(B) else 'indefinite' if np.linalg.eigvalsh(B).min() < -1e-6 else 'singular'
        Bd = np.eye(n) if B is None else B
        L = np.linalg.cholesky(Bd) if kind in ('ordinary', 'definite') else None
        for A in sym(avals, n):
            ctx.at(A.tolist(), None if B is None else B.tolist(), dt)
            a, b = A.astype(dt), None if B is None else B.astype(dt)
            if L is None:
                ctx.execution()
                ctx.mark(ctx.executions)
                try:
                    w, Z = mdp.utils.symeig(a, b)
                except mdp.utils.SymeigException:
                    ctx.outcome('refused', kind)
                    continue
                check(kind == 'singular', 'a matrix B with negative eigenvalues is accepted', 'negative')
                check(np.isfinite(w).all() and np.isfinite(Z).all(), 'the result for a singular B is not finite: %s' % (w,), 'nan')
                ctx.outcome('finite', kind)
                continue
            Li = np.linalg.inv(L)
            ref = np.linalg.eigvalsh(Li.dot(A).dot(Li.T))
            for rng in ranges(n, wide):
                ctx.step()
                ctx.execution()
                if B is not None or rng is not None:
                    ctx.mark(ctx.executions)
                w, Z = mdp.utils.symeig(a, b, range=rng)
                s = cut(n, rng)
                ctx.outcome(kind, rng, len(w))
                check(near(w, ref[s], tol * (1 + abs(ref).max())), 'eigenvalues %s, should be %s (range %s)' % (w, ref[s], rng), 'eigenvalues')
                check(Z.shape == (n, len(w)), 'eigenvectors of shape %s' % (Z.shape,), 'shape')
                check(w.dtype == np.dtype(dt) and Z.dtype == np.dtype(dt), 'result of type %s, %s' % (w.dtype, Z.dtype), 'dtype')
                sc = tol * (1 + abs(ref).max()) * (1 + abs(Z).max()) * (1 + abs(Bd).max())
                check(near(A.dot(Z), Bd.dot(Z) * w, sc), 'A Z is not B Z diag(w)', 'residual')
                check(near(Z.T.dot(Bd).dot(Z), np.eye(len(w)), sc), 'eigenvectors are not B-orthonormal', 'orthonormal')
                w1 = mdp.utils.symeig(a, b, False, range=rng)
                check(isinstance(w1, np.ndarray) and near(w1, w, tol * (1 + abs(ref).max())), 'different eigenvalues without eigenvectors: %s' % (w1,), 'values')
            check((a == A).all() and (b is None or (b == B).all()), 'the arguments were changed', 'changed')


def reduced(A, B):
    """rank of B and the eigenvalues of the problem restricted to its range"""
    l, Q = np.linalg.eigh(B)
    k = l > 1e-9
    W = Q[:, k] / np.sqrt(l[k])
    return int(k.sum()), np.linalg.eigvalsh(W.T.dot(A).dot(W)) if k.any() else np.zeros(0)


def semidefinite(ctx, method, T, n, values, center, weights, part=0, parts=1):
    f = S[method]
    for c, v in enumerate(itertools.product(values, repeat=T * n)):
        if c % parts != part:
            continue
        X = np.array(v, 'd').reshape(T, n) * np.array(weights)[:n]
        ctx.at(X.tolist(), method)
        C = X - X.mean(0) if center else X
        D = X[1:] - X[:-1]
        A, B = D.T.dot(D) / (T - 1), C.T.dot(C) / T
        if not center:
            # a derivative within the range of B which does not vanish on it
            A = C.T.dot(np.diag(np.arange(1., T + 1))).dot(C)
        r, ref = reduced(A, B)
        ctx.state(r, len(set(np.round(ref, 6))))
        for rng in [None] + [(a, b) for a in range(1, r + 1) for b in range(a, r + 1)] + ([(1, n)] if r else []):
            for report in (True, False)[:2 if rng is None else 1]:
                a, b, o = A.copy(), B.copy(), Report()
                o.rank_deficit = 77
                ctx.step()
                ctx.execution()
                ctx.mark(ctx.executions)
                try:
                    w, Z = f(a, b, True, 'on', rng, dfc_out=o if report else None)
                except mdp.utils.SymeigException as e:
                    check(r == 0, 'a problem of rank %d is refused: %s' % (r, e), 'refused')
                    ctx.outcome('refused')
                    continue
                check(r > 0, 'a matrix B without any variance is accepted: %s' % (w,), 'accepted')
                s = cut(r, rng)
                ctx.outcome(r, n, rng)
                sc = 1e-6 * (1 + abs(ref).max())
                check(near(w, ref[s], sc), 'eigenvalues %s, should be %s (range %s)' % (w, ref[s], rng), 'eigenvalues')
                check(Z.shape == (n, len(w)), 'eigenvectors of shape %s' % (Z.shape,), 'shape')
                check(near(Z.T.dot(B).dot(Z), np.eye(len(w)), 1e-6), 'eigenvectors are not B-orthonormal', 'orthonormal')
                check(near(Z.T.dot(A).dot(Z), np.diag(w), sc), 'eigenvectors do not diagonalize A', 'diagonal')
                check(near(A.dot(Z), B.dot(Z) * w, sc * (1 + abs(Z).max()) * (1 + abs(B).max())), 'A Z is not B Z diag(w)', 'residual')
                if report:
                    check(o.rank_deficit == n - r, 'reported rank deficit %s, should be %d' % (o.rank_deficit, n - r), 'deficit')
                check((a == A).all() and near(b, B, 1e-9), 'the arguments were changed', 'changed')
                if rng is not None:
                    continue
                a, b = A.copy(), B.copy()
                w2, Z2 = f(a, b, True, 'on', rng, overwrite=True)
                check(near(w2, w, sc), 'different eigenvalues when the arguments may be overwritten', 'overwrite')
    for t in (0, 2, 3):
        try:
            f(np.eye(2), np.eye(2), type=t)
        except ValueError:
            pass
        else:
            check(False, 'problem type %d is accepted' % t, 'type')


SCENARIOS = {'plain': plain, 'semidefinite': semidefinite}


def cases(tier):
    th = tier == 'thorough'
    for dt in 'df':
        yield 'plain', dict(n=1, avals=range(-3, 4), bvals=range(-2, 4), dt=dt, wide=True)
        yield 'plain', dict(n=2, avals=range(-2, 3), bvals=range(-1, 3), dt=dt, wide=True)
        yield 'plain', dict(n=3, avals=(-1, 0, 1) if not th else (-1, 0, 1, 2), bvals=None, dt=dt, wide=True)
        yield 'plain', dict(n=3, avals=(0, 1), bvals=(0, 1, 2), dt=dt, wide=False)
    if th:
        yield 'plain', dict(n=3, avals=(-1, 0, 1), bvals=(-1, 0, 2), dt='d', wide=False)
        yield 'plain', dict(n=4, avals=(0, 1), bvals=None, dt='d', wide=True)
        yield 'plain', dict(n=4, avals=(-1, 0, 1), bvals=None, dt='d', wide=False)
    for m in sorted(S):
        for T, n, vals in ((2, 2, (-1, 0, 1)), (3, 2, (-1, 0, 2)), (2, 3, (-1, 0, 2)), (4, 2, (-1, 0, 1) if th else (0, 1)), (3, 3, (0, 1)), (4, 3, (0, 1)), (3, 4, (0, 1))):
            if T * n > 9 and not th and m in ('reg', 'svd'):
                continue
            for w in ((1, 1, 1, 1), (1, 3, .01, 2)):
                if w[1] == 3 and T * n > 8 and not th:
                    continue
                for center in (True, False):
                    if m == 'reg' and (not center or w[1] == 3) or T * n > 9 and not center and not th:
                        continue
                    k = 8 if T * n > 9 else 2
                    for part in range(k):
                        yield 'semidefinite', dict(method=m, T=T, n=n, values=vals, center=center, weights=w, part=part, parts=k)
        if th:
            for T, n, vals in ((4, 4, (0, 1)), (3, 3, (-1, 0, 1)), (5, 2, (-1, 0, 1)), (5, 3, (0, 1))):
                for part in range(16):
                    yield 'semidefinite', dict(method=m, T=T, n=n, values=vals, center=True, weights=(1, 1, 1, 1), part=part, parts=16)
