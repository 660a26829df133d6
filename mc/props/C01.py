"""C01: covariance estimators against the definitions, over every stream / split / update-and-read-out history."""
import itertools
import warnings
import numpy as np
import mdp
from mdp.utils import (CovarianceMatrix, DelayCovarianceMatrix, CrossCovarianceMatrix, VartimeCovarianceMatrix,
                       MultipleCovarianceMatrices, cov2)
from ..core import check

LEVEL = 'model_checking'
RULE = 'read-out after at least two updates, or operation sequence of at least two operations'
ASSUMPTIONS = ['data values are small, so that round-off is negligible (relative tolerance 1e-9, 1e-4 in single precision)',
               'unbiased moments are compared from two observations on (one observation has none)',
               'a full-length dt after the first chunk without time dependence is outside the documentation and not enumerated']


def worker_setup():
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')


def done(ctx, nontrivial=True):
    ctx.execution()
    if nontrivial:
        ctx.mark(ctx.executions)


def comps(n):
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for rest in comps(n - k):
            yield (k,) + rest


def close(a, b, tol):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=tol, atol=tol))


# ------------------------------------------------------------------ definitions
def d_cross(X, Y, bias, center=True):
    """mean, mean and second moment of paired rows, from the definition (sums over centred samples)"""
    T = len(X)
    mx = [sum(r[i] for r in X) / float(T) for i in range(len(X[0]))]
    my = [sum(r[i] for r in Y) / float(T) for i in range(len(Y[0]))]
    n = float(T if bias else T - 1)
    if n == 0:
        return None, np.array(mx), np.array(my)
    cx, cy = (mx, my) if center else ([0] * len(mx), [0] * len(my))
    C = [[sum((a[i] - cx[i]) * (b[j] - cy[j]) for a, b in zip(X, Y)) / n for j in range(len(cy))] for i in range(len(cx))]
    return np.array(C), np.array(mx), np.array(my)


def pairs(kind, blocks, dt):
    X, Y = [], []
    for b in blocks:
        if kind == 'cross':
            X += [r[:2] for r in b]
            Y += [r[2:] for r in b]
        elif kind == 'delay':
            X += b[:len(b) - dt]
            Y += b[dt:]
        else:
            X += b
            Y += b
    return X, Y


def arr(b, dtype):
    return np.array(b, dtype=dtype)


def make(kind, dt, bias, dtype):
    if kind == 'cov':
        return CovarianceMatrix(dtype=dtype, bias=bias)
    if kind == 'cross':
        return CrossCovarianceMatrix(dtype=dtype, bias=bias)
    return DelayCovarianceMatrix(dt, dtype=dtype, bias=bias)


def update(kind, est, b, data_dtype):
    x = arr(b, data_dtype)
    args = (x[:, :2].copy(), x[:, 2:].copy()) if kind == 'cross' else (x,)
    keep = [a.copy() for a in args]
    est.update(*args)
    check(all((a == k).all() for a, k in zip(args, keep)), 'update changed the data it was given', 'argument-changed')


def readout(kind, est, blocks, dt, bias, center, A, want_dtype, where):
    tol = 1e-4 if want_dtype == 'f' else 1e-9
    X, Y = pairs(kind, blocks, dt)
    C, mx, my = d_cross(X, Y, bias, center)
    if kind == 'cov':
        got = est.fix(center=center)
        check(len(got) == 3, where + 'fix returned %d values' % len(got), 'arity')
        gC, gx, n = got
        gy = gx
    elif kind == 'cross':
        got = est.fix()
        check(len(got) == 4, where + 'fix returned %d values' % len(got), 'arity')
        gC, gx, gy, n = got
    else:
        got = est.fix(A) if A is not None else est.fix()
        check(len(got) == 4, where + 'fix returned %d values' % len(got), 'arity')
        gC, gx, gy, n = got
        if A is not None and C is not None:
            C = A.dot(C).dot(A.T)
    check(n == len(X), where + 'count is %s for %d observations' % (n, len(X)), 'count')
    check(close(gx, mx, tol), where + 'mean %s instead of %s' % (gx, mx), 'mean')
    check(close(gy, my, tol), where + 'second mean %s instead of %s' % (gy, my), 'mean2')
    if C is not None:
        check(close(gC, C, tol), where + 'moments %s instead of %s' % (np.asarray(gC).tolist(), C.tolist()), 'moments')
    for v in (gC, gx, gy):
        check(A is not None or np.asarray(v).dtype == np.dtype(want_dtype), where + 'results have dtype %s' % np.asarray(v).dtype, 'dtype')
    return [np.array(gC), np.array(gx), np.array(gy)], [gC, gx, gy]


# ------------------------------------------------------------------ every stream, every split
def streams(ctx, kind, dim, T, values):
    dts = (0, 1, 2) if kind == 'delay' else (0,)
    n = 0
    for flat in itertools.product(values, repeat=dim * T):
        rows = [list(flat[i * dim:(i + 1) * dim]) for i in range(T)]
        if kind == 'cross':
            rows = [r[:1] * 2 + r[1:] for r in rows]       # 2 + (dim-1) columns
        for split in comps(T):
            for dt in dts:
                if min(split) <= dt:
                    continue
                blocks, p = [], 0
                for s in split:
                    blocks.append(rows[p:p + s])
                    p += s
                n += 1
                # the four read-out variants take turns over the streams; every (split, dt) meets all of them
                bias, center = bool(n & 1), kind != 'cov' or bool(n & 2)
                where = '%s dt=%d bias=%s center=%s blocks %s: ' % (kind, dt, bias, center, blocks)
                ctx.at(kind, blocks, dt, bias, center)
                est = make(kind, dt, bias, None)
                for b in blocks:
                    update(kind, est, b, 'd')
                    ctx.step()
                readout(kind, est, blocks, dt, bias, center, None, 'd', where)
                done(ctx, len(split) > 1)
    ctx.state((kind, dim, T))


# ------------------------------------------------------------------ update / read-out histories
BLK = {'a': [[1, 2, 0], [3, -1, 1]], 'b': [[0, 1, 2]], 'c': [[2, 2, -1], [1, 0, 1], [-1, 1, 3]], 'd': [[-2, 1, 1], [0, 0, 1], [4, 1, 0], [1, 1, 1]]}
AMAT = np.array([[1., 2., 0], [0, 1., -1.]])


def histories(ctx, kind, bias, dtype, depth):
    dts = (0, 1, 2) if kind == 'delay' else (0,)
    fixes = {'cov': ['F', 'G'], 'cross': ['F'], 'delay': ['F', 'A']}[kind]
    extra = {'cov': [], 'cross': ['mismatch'], 'delay': ['short']}[kind]
    datad = ['d', 'f'] if dtype is None else ['d']
    for dt in dts:
        ops = [u + t for u in 'abcd' for t in datad if len(BLK[u]) > dt] + fixes + (extra if kind != 'delay' or dt else [])
        for n in range(1, depth + 1):
            for hist in itertools.product(ops, repeat=n):
                if hist[-1] not in fixes or not any(o not in fixes + extra for o in hist):
                    continue
                est = make(kind, dt, bias, dtype)
                eff = dtype
                blocks, held = [], []
                ups = 0
                for op in hist:
                    ctx.at(kind, dt, bias, dtype, hist, op)
                    ctx.step()
                    where = '%s(dt=%d, bias=%s, dtype=%s) after %s: ' % (kind, dt, bias, dtype, hist)
                    if op in fixes:
                        if not blocks:
                            break
                        vals, refs = readout(kind, est, blocks, dt, bias, op != 'G', AMAT if op == 'A' else None, eff, where)
                        held.append((vals, refs))
                        blocks = []
                    elif op == 'mismatch':
                        refused(lambda: est.update(np.ones((2, 2)), np.ones((3, 1))), where)
                    elif op == 'short':
                        refused(lambda: est.update(np.full((dt, 3), 7., dtype='f')), where)
                    else:
                        b = BLK[op[0]]
                        if eff is None:
                            eff = op[1]
                        update(kind, est, b, op[1])
                        ups += 1
                        blocks.append(b)
                for vals, refs in held:
                    check(all((v == r).all() or not np.isfinite(v).all() for v, r in zip(vals, refs)),
                          '%s: a result that was read out was changed by later updates: %s' % (kind, hist), 'aliased')
                done(ctx, ups > 1)
        ctx.state((kind, dt, bias, dtype))


def refused(f, where):
    try:
        f()
    except mdp.MDPException:
        return
    check(False, where + 'an inconsistent block was accepted', 'accepted')


# ------------------------------------------------------------------ variable time steps
VROWS = [[1., 0], [2., -1], [0., 3], [-1., 1], [2., 2], [1., -2]]


def v_def(segs, center):
    T = float(sum(s[2] for s in segs))
    d = len(segs[0][0])
    avg = np.zeros(d)
    sec = np.zeros((d, d))
    for a, b, w in segs:
        a, b = np.array(a), np.array(b)
        avg += (a + b) / 2. * w
        sec += (np.outer(a, a) + np.outer(b, b)) / 2. * w
    avg /= T
    sec /= T
    return (sec - np.outer(avg, avg) if center else sec), avg, T


def vartime(ctx, maxrows, maxups, dtype):
    """every sequence of chunks (1..maxrows rows), each with every way of giving dt, then read out (centred or not), and
    the same again with the same estimator"""
    DT = [.5, 2., 1.5, 1., 3.]
    forms = ['none', 'const', 'array', 'array-int']
    ops = [(r, f, dep) for r in range(1, maxrows + 1) for f in forms for dep in (True, False)] + ['F', 'G', 'bad', 'full']
    tol = 1e-4 if dtype == 'f' else 1e-9
    for n in range(1, maxups + 1):
        for hist in itertools.product(ops, repeat=n):
            if hist[-1] not in ('F', 'G'):
                continue
            if hist.count('F') + hist.count('G') > 2 or hist.count('bad') + hist.count('full') > 1:
                continue
            est = VartimeCovarianceMatrix(dtype=dtype)
            segs, last, pos, ups = [], None, 0, 0
            for op in hist:
                ctx.at(hist, op)
                ctx.step()
                where = 'after %s: %s: ' % (hist, op)
                if op in ('F', 'G'):
                    if not segs:
                        break
                    C, avg, T = v_def(segs, op == 'F')
                    gC, ga, gT = est.fix(center=op == 'F')
                    check(close(gT, T, tol), where + 'length %s instead of %s' % (gT, T), 'v-length')
                    check(close(ga, avg, tol), where + 'mean %s instead of %s' % (ga, avg), 'v-mean')
                    check(close(gC, C, tol), where + 'moments %s instead of %s' % (gC.tolist(), C.tolist()), 'v-moments')
                    done(ctx, ups > 1)
                    segs, last, ups = [], None, 0
                    continue
                if op == 'bad':
                    for dt in (np.ones(5), -1., 0):
                        try:
                            est.update(np.array(VROWS[:3]), dt)
                        except Exception:
                            continue
                        check(False, where + 'dt=%s was accepted for three samples' % (dt,), 'v-accepted')
                    continue
                if op == 'full':
                    # a first chunk with a full-length dt: the first element is disregarded
                    if last is not None:
                        break
                    r, form, dep = 3, 'full', True
                else:
                    r, form, dep = op
                rows = [VROWS[(pos + i) % len(VROWS)] for i in range(r)]
                x = np.array(rows)
                pos += r
                gapped = last is not None and dep
                inner = [DT[(pos + i) % len(DT)] for i in range(r - 1)]
                gap = DT[(pos + 3) % len(DT)]
                if form == 'none':
                    inner, gap, dt = [1.] * (r - 1), 1., None
                elif form == 'const':
                    dt = gap
                    inner = [dt] * (r - 1)
                elif form == 'full':
                    dt = np.array([gap] + inner)
                else:
                    if form == 'array-int':
                        inner, gap = [int(2 * v) for v in inner], int(2 * gap)
                    dt = np.array(([gap] if gapped else []) + inner, dtype=int if form == 'array-int' else float)
                if gapped:
                    segs.append((last, rows[0], gap))
                segs += [(rows[i], rows[i + 1], inner[i]) for i in range(r - 1)]
                last = rows[-1]
                ups += 1
                if dt is None and dep:
                    est.update(x)
                else:
                    est.update(x, dt, time_dep=dep)
                check((x == np.array(rows)).all(), where + 'update changed the data it was given', 'argument-changed')
    ctx.state(('vartime', dtype))


# ------------------------------------------------------------------ collections
def base_covs(sym):
    out = [np.array([[2., 1, 0], [.5, 3, -1], [1, .25, 1]]), np.array([[1., -1, 2], [0, 2, .5], [3, 1, 4]]), np.array([[0., 2, 1], [1, 1, 1], [-2, 0, 2]]), np.eye(3) * 2]
    return [c + c.T for c in out] if sym else out


W = [2., -1., .5, 3.]
TM = np.array([[1., .5, 0], [0, 2, -1], [.25, 0, 1]])


def s_rot(c, ang, i, j):
    R = np.eye(len(c))
    R[i, i] = R[j, j] = np.cos(ang)
    R[i, j], R[j, i] = np.sin(ang), -np.sin(ang)
    return R.T.dot(c).dot(R)


def s_perm(c, i, j):
    p = list(range(len(c)))
    p[i], p[j] = p[j], p[i]
    return c[np.ix_(p, p)]


OPS = {'sym': (lambda m: m.symmetrize(), lambda c, k: .5 * (c + c.T)),
       'weight': (lambda m: m.weight(np.array(W[:m.ncovs])), lambda c, k: c * W[k]),
       'weight-list': (lambda m: m.weight(W[:m.ncovs]), lambda c, k: c * W[k]),
       'weight-one': (lambda m: m.weight(1.5), lambda c, k: c * 1.5),
       'rot01': (lambda m: m.rotate(.3, [0, 1]), lambda c, k: s_rot(c, .3, 0, 1)),
       'rot20': (lambda m: m.rotate(-1.1, [2, 0]), lambda c, k: s_rot(c, -1.1, 2, 0)),
       'rot12': (lambda m: m.rotate(2.5, (1, 2)), lambda c, k: s_rot(c, 2.5, 1, 2)),
       'perm01': (lambda m: m.permute([0, 1]), lambda c, k: s_perm(c, 0, 1)),
       'perm20': (lambda m: m.permute((2, 0)), lambda c, k: s_perm(c, 2, 0)),
       'trans': (lambda m: m.transform(TM), lambda c, k: TM.T.dot(c).dot(TM)),
       'copy': None}


def collections(ctx, count, sym, dtype, depth):
    tol = 1e-3 if dtype == 'f' else 1e-9
    for n in range(1, depth + 1):
        for hist in itertools.product(sorted(OPS), repeat=n):
            if hist.count('copy') > 2:
                continue
            given = [c.astype(dtype) for c in base_covs(sym)[:count]]
            m = MultipleCovarianceMatrices(given)
            ref = [np.array(c, dtype='d') for c in given]
            keep = []
            for op in hist:
                ctx.at(count, sym, dtype, hist, op)
                ctx.step()
                if op == 'copy':
                    keep.append((m, [r.copy() for r in ref]))
                    m = m.copy()
                else:
                    OPS[op][0](m)
                    ref = [OPS[op][1](c, k) for k, c in enumerate(ref)]
            keep.append((m, ref))
            for mm, rr in keep:
                check(mm.ncovs == count and mm.covs.shape == (3, 3, count), 'after %s: %s matrices of shape %s' % (hist, mm.ncovs, mm.covs.shape), 'm-shape')
                for k in range(count):
                    scale = max(1., np.abs(rr[k]).max())
                    check(np.abs(mm[k] - rr[k]).max() <= tol * scale, 'after %s: matrix %d is %s instead of %s' % (hist, k, mm[k].tolist(), rr[k].tolist()), 'm-value')
                    check(mm[k].dtype == np.dtype(dtype), 'after %s: dtype became %s' % (hist, mm[k].dtype), 'm-dtype')
            for c, g in zip(base_covs(sym), given):
                check((g == c.astype(dtype)).all(), 'after %s: the matrices given were changed' % (hist,), 'm-argument')
            done(ctx, len(hist) > 1)
    m = MultipleCovarianceMatrices(base_covs(sym)[:count])
    try:
        m.weight(np.ones(count + 1))
    except (AssertionError, mdp.MDPException, ValueError):
        pass
    else:
        check(False, 'a wrong number of weights was accepted', 'm-weights')
    ctx.state((count, sym, dtype))


def direct(ctx, T):
    """utils.cov2 on every pair of short streams"""
    for fx in itertools.product((-1, 0, 2), repeat=T):
        for fy in itertools.product((0, 1, 3), repeat=T):
            X = [[v, v * v] for v in fx]
            Y = [[v] for v in fy]
            ctx.at(fx, fy)
            C, mx, my = d_cross(X, Y, False)
            got = cov2(np.array(X, dtype='d'), np.array(Y, dtype='d'))
            ctx.step()
            check(close(got, C, 1e-9), 'cov2(%s, %s) = %s instead of %s' % (X, Y, got.tolist(), C.tolist()), 'cov2')
            done(ctx, T > 1)
    ctx.state(T)


SCENARIOS = {'streams': streams, 'histories': histories, 'vartime': vartime, 'collections': collections, 'direct': direct}


def cases(tier):
    th = tier == 'thorough'
    for kind in ('cov', 'delay'):
        for T in range(1, 7 if not th else 9):
            yield 'streams', dict(kind=kind, dim=1, T=T, values=(-1, 0, 2))
        for T in range(1, 4 if not th else 5):
            yield 'streams', dict(kind=kind, dim=2, T=T, values=(-1, 0, 2))
    for T in range(1, 4 if not th else 5):
        yield 'streams', dict(kind='cross', dim=2, T=T, values=(-1, 0, 2))
        yield 'streams', dict(kind='cross', dim=3, T=T, values=(0, 1) if not th else (-1, 0, 2)[:3 if T < 4 else 2])
    for kind in ('cov', 'cross', 'delay'):
        for bias in (False, True):
            for dtype in (None, 'd', 'f'):
                yield 'histories', dict(kind=kind, bias=bias, dtype=dtype, depth=(4 if dtype is None else 5) + th)
    for dtype in (None, 'f'):
        yield 'vartime', dict(maxrows=3, maxups=3, dtype=dtype)
        yield 'vartime', dict(maxrows=2, maxups=4 + th, dtype=dtype)
    for count in (1, 2, 4):
        for sym in (False, True):
            for dtype in 'df':
                yield 'collections', dict(count=count, sym=sym, dtype=dtype, depth=3 + th)
    for T in range(2, 5 + th):
        yield 'direct', dict(T=T)
