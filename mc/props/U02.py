"""U02: quadratic forms and numerical helper functions against their definitions, over all small arguments."""
import itertools
import math
import random
import warnings
from fractions import Fraction
import numpy as np
import mdp
from ..core import check

LEVEL = 'model_checking'
RULE = 'quadratic form with a linear term, or a helper on at least two elements'
ASSUMPTIONS = ['extrema of quadratic forms are compared with a grid on the sphere (half a degree in two dimensions, the lattice directions up to 5 or 6 in three), within a relative 1e-3; their norm within the given tolerance',
               'normal deviates are enumerated over a few values which are not zero',
               'with ties, the maxima of a covariance matrix may be those of any choice among equal entries',
               'weighted choices are compared away from the borders between two keys']
U = mdp.utils
HANG_S = 120


def worker_setup():
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')


def near(a, b, tol):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.isfinite(a).all()) and bool((abs(a - b) <= tol).all())


def sym(values, n):
    for v in itertools.product(values, repeat=n * (n + 1) // 2):
        M = np.zeros((n, n))
        M[np.triu_indices(n)] = v
        yield M + np.triu(M, 1).T


def done(ctx, nontrivial=True):
    ctx.step()
    ctx.execution()
    if nontrivial:
        ctx.mark(ctx.executions)


# ------------------------------------------------------------------ quadratic forms
def directions(n, fine):
    if n == 1:
        return np.array([[1.], [-1.]])
    if n == 2:
        t = np.arange(0, 2 * np.pi, np.pi / 360)
        return np.stack([np.cos(t), np.sin(t)], 1)
    g = np.array([v for v in itertools.product(range(-fine, fine + 1), repeat=n) if any(v)], 'd')
    return g / np.sqrt((g ** 2).sum(1))[:, None]


def value(H, f, c, X):
    return np.array([sum(.5 * x[i] * H[i][j] * x[j] for i in range(len(x)) for j in range(len(x))) + sum(a * b for a, b in zip(f, x)) + c for x in X])


def forms(ctx, n, hvals, fvals, norms, dt, fine=5, part=0, parts=1):
    U0 = directions(n, fine)
    UU = np.stack([np.outer(u, u).ravel() for u in U0])
    tol0 = 1e-9 if dt == 'd' else 1e-4
    for c, H in enumerate(sym(hvals, n)):
        if c % parts != part:
            continue
        E, W = np.linalg.eigh(H)
        for f in itertools.product(fvals, repeat=n):
            f = np.array(f, 'd')
            q = U.QuadraticForm(H.astype(dt), f.astype(dt) if f.any() else None, .5, dtype=dt)
            ctx.at(H.tolist(), f.tolist(), dt)
            X = np.vstack([np.zeros((1, n)), np.eye(n), np.arange(1., n + 1) / 2])
            check(near(q.apply(X.astype(dt)), value(H, f, .5, X), 1e-5), 'apply gives %s' % q.apply(X), 'apply')
            check(near(q.apply(X[-1].astype(dt)), value(H, f, .5, X[-1:]), 1e-5), 'apply of one vector', 'apply')
            for nrm in norms:
                done(ctx, f.any())
                ctx.at(H.tolist(), f.tolist(), nrm, dt)
                xs = q.get_extrema(nrm)
                check(xs[0] is q.xmax and xs[1] is q.xmin, 'extrema are not stored', 'stored')
                v = .5 * UU.dot(H.ravel()) * nrm ** 2 + U0.dot(f) * nrm + .5
                sc = 1e-3 * (abs(v - .5).max()) + 1e-6
                for s, x, name in ((1, xs[0], 'maximum'), (-1, xs[1], 'minimum')):
                    check(x.shape == (n,) and np.isfinite(x).all(), '%s is %s' % (name, x), 'finite')
                    check(x.dtype == np.dtype(dt), '%s of type %s' % (name, x.dtype), 'dtype')
                    x = x.astype('d')
                    free = bool((s * E < -1e-9).all()) and f.any()
                    n2 = (x * x).sum()
                    tol = 1.01e-4 + nrm ** 2 * (1e-9 if dt == 'd' else 1e-5)
                    check(abs(n2 - nrm ** 2) <= tol or free and n2 <= nrm ** 2 + tol, '%s has norm %s, should be %s' % (name, math.sqrt(n2), nrm), 'norm')
                    ctx.outcome(name, free and n2 < nrm ** 2 - 1e-3)
                    slack = sc + abs(H).sum() * 1e-4 + abs(f).sum() * (1e-4 / nrm if nrm > .01 else nrm)
                    best = (s * v).max()
                    mine = s * value(H, f, .5, [x])[0]
                    check(mine >= best - slack, '%s %s has value %s, but %s is possible' % (name, x, s * mine, s * best), 'value')
                    if nrm < .1 or n2 < nrm ** 2 - 1e-3:
                        continue
                    # second derivatives on the sphere
                    w, nu = q.get_invariances(xs[0] if s == 1 else xs[1])
                    check(w.shape == (n, n - 1) and nu.shape == (n - 1,), 'invariances of shape %s, %s' % (w.shape, nu.shape), 'shape')
                    big = (1e-6 if dt == 'd' else 2e-3) * (1 + abs(H).max() + abs(f).max() / nrm)
                    check(near(w.T.dot(w), np.eye(n - 1), big) and near(w.T.dot(x) / nrm, np.zeros(n - 1), big), 'directions of invariance are no basis of the tangent space', 'tangent')
                    lag = ((H.dot(x) * x).sum() + (f * x).sum()) / n2
                    Ht = w.T.dot(H).dot(w)
                    check(near(Ht, np.diag(nu + lag), 10 * big), 'second derivatives %s, should be %s' % (nu, np.diag(Ht) - lag), 'invariance')
                    check(all(abs(nu[i]) <= abs(nu[i + 1]) + big for i in range(n - 2)), 'invariances are not in order: %s' % nu, 'order')
    for bad in (np.array([[0., 1.], [0., 0.]]), np.array([[1., 1e-6], [0., 1.]])):
        try:
            U.QuadraticForm(bad)
        except U.QuadraticFormException:
            pass
        else:
            check(False, 'a form which is not symmetric is accepted', 'asymmetric')


# ------------------------------------------------------------------ rotations and permutations
def rotations(ctx, n):
    for rows in (1, 2):
        M = np.arange(1., rows * n + 1).reshape(rows, n) ** 1.5
        for i, j in itertools.permutations(range(n), 2):
            for k in range(-9, 10):
                done(ctx)
                ctx.at(i, j, k)
                a = k * math.pi / 4
                ref = M.copy()
                for r in range(rows):
                    ref[r][i] = math.cos(a) * M[r][i] - math.sin(a) * M[r][j]
                    ref[r][j] = math.sin(a) * M[r][i] + math.cos(a) * M[r][j]
                for kw in (dict(angle=a), dict(angle=45. * k, units='degrees')):
                    m = M.copy()
                    U.rotate(m, columns=[i, j], **kw)
                    check(near(m, ref, 1e-9), 'rotation by %s gives %s' % (kw, m.tolist()), 'rotate')
    m, ref = np.array([[1., 2.]]), np.array([[-2., 1.]])
    U.rotate(m, math.pi / 2)
    check(near(m, ref, 1e-12), 'default rotation', 'rotate')
    for dt in 'dfi':
        for i, j in itertools.product(range(n), repeat=2):
            for r, c in itertools.product((0, 1), repeat=2):
                done(ctx)
                M = np.arange(n * n).reshape(n, n).astype(dt)
                m = M.copy()
                U.permute(m, (i, j), rows=r, cols=c)
                p = list(range(n))
                p[i], p[j] = p[j], p[i]
                ref = M[p] if r else M
                ref = ref[:, p] if c else ref
                check((m == ref).all(), 'permutation %s of %s gives %s' % ((i, j), (r, c), m.tolist()), 'permute')


class Normals(object):
    """stands for the random module: delivers given numbers"""
    def __init__(self, vals):
        self.vals = list(vals)

    def take(self, n):
        out, self.vals = self.vals[:n], self.vals[n:]
        check(len(out) == n, 'more random numbers than expected', 'random numbers')
        return np.array(out)

    def normal(self, loc=0., scale=1., size=None):
        check(loc == 0. and scale == 1., 'other normal deviates than standard ones', 'random numbers')
        return self.take(int(np.prod(size))).reshape(size)

    def random(self, size=None):
        return self.take(int(np.prod(size))).reshape(size)


def matrices(ctx, n, dt, values):
    """random rotations and symmetric matrices for enumerated random numbers"""
    tol = 1e-9 if dt == 'd' else 1e-4
    count = n * (n + 1) // 2 - 1
    mods = [U.random_rot.__globals__, vars(mdp)]
    old = [m.get('numx_rand') for m in mods]
    seen = set()

    def use(source):
        for m in mods:
            m['numx_rand'] = source
    try:
        for v in itertools.product(values, repeat=count):
            done(ctx, n > 1)
            ctx.at(v)
            use(Normals(v))
            R = U.random_rot(n, dt)
            check(R.shape == (n, n) and R.dtype == np.dtype(dt), 'rotation of shape %s, %s' % (R.shape, R.dtype), 'shape')
            check(near(R.dot(R.T), np.eye(n), tol) and abs(np.linalg.det(R.astype('d')) - 1) < tol, 'not a rotation: %s' % R.tolist(), 'rotation')
            seen.add(tuple(np.round(R.ravel(), 4)))
            eig = [-.75, .5, .25, 2.][:n]
            for arg, first in ((np.array(eig), []), (n, [(e + 1) / 2 for e in eig])):
                use(Normals(first + list(v)))
                h = U.symrand(arg, dt)
                check(h.shape == (n, n) and h.dtype == np.dtype(dt) and (h == h.T).all(), 'not symmetric', 'symmetric')
                check(near(np.linalg.eigvalsh(h.astype('d')), sorted(eig), tol * 10), 'eigenvalues %s, should be %s' % (np.linalg.eigvalsh(h), sorted(eig)), 'eigenvalues')
    finally:
        for m, o in zip(mods, old):
            m['numx_rand'] = o
    ctx.outcome(n, len(seen))
    check(n < 2 or len(seen) > 1, 'the rotation does not depend on the random numbers', 'constant')


# ------------------------------------------------------------------ linear algebra helpers
def greedy(C, got):
    """is `got` a sequence of maxima, each of the matrix without the rows and columns of the former ones?"""
    n = len(C)
    if n == 0 or not len(got):
        return n == 0 and not len(got)
    top = max(abs(x) for r in C for x in r)
    if abs(got[0] - top) > 1e-12:
        return False
    return any(greedy([[C[a][b] for b in range(n) if b != j] for a in range(n) if a != i], got[1:])
               for i in range(n) for j in range(n) if abs(C[i][j]) == top)


def algebra(ctx, n, values):
    for v in itertools.product(values, repeat=n * n):
        done(ctx, n > 1)
        M = np.array(v, 'd').reshape(n, n)
        ctx.at(M.tolist())
        check(greedy(M.tolist(), U.cov_maxima(M.copy())), 'maxima %s' % U.cov_maxima(M), 'maxima')
        d = np.arange(2., n + 2)
        check(near(U.mult_diag(d, M), np.diag(d).dot(M), 0) and near(U.mult_diag(d, M, left=False), M.dot(np.diag(d)), 0), 'product with a diagonal matrix', 'mult_diag')
        check((U.hermitian(M + 1j * M.T) == M.T - 1j * M).all(), 'hermitian conjugate', 'hermitian')
        P = M.T.dot(M)
        w, Z = U.nongeneral_svd(P)
        ref = np.linalg.eigvalsh(P)
        check(near(w, ref, 1e-9 * (1 + ref.max())) and near(Z.T.dot(Z), np.eye(n), 1e-9), 'eigenvalues by svd: %s' % w, 'svd')
        check(near(P.dot(Z), Z * w, 1e-7 * (1 + ref.max())), 'eigenvectors by svd', 'svd')
        for lo in range(1, n + 1):
            for hi in range(lo, n + 1):
                w1, Z1 = U.nongeneral_svd(P, range=(lo, hi))
                check(near(w1, w[lo - 1:hi], 1e-12) and near(Z1, Z[:, lo - 1:hi], 1e-12), 'range of the svd', 'svd range')
        Q = P + np.eye(n)
        R = U.sqrtm(Q)
        check(near(R, R.T, 1e-9) and near(R.dot(R), Q, 1e-8 * (1 + Q.max())) and np.linalg.eigvalsh(R).min() > 0, 'matrix square root', 'sqrtm')
        x = M[0]
        check(abs(U.norm2(x) - math.sqrt(sum(a * a for a in x))) < 1e-12, 'norm', 'norm2')


def arrays(ctx, shape, n):
    x = np.arange(1., np.prod(shape) + 1).reshape(shape)
    done(ctx, n > 1)
    ctx.at(shape, n)
    l, r = U.lrep(x, n), U.rrep(x, n)
    check(l.shape == (n,) + shape and all((l[i] == x).all() for i in range(n)), 'lrep gives shape %s' % (l.shape,), 'lrep')
    check(r.shape == shape + (n,) and all((r[..., i] == x).all() for i in range(n)), 'rrep gives shape %s' % (r.shape,), 'rrep')
    for d in range(len(shape) + 1):
        a = U.irep(x, n, d)
        check(a.shape == shape[:d] + (n,) + shape[d:] and all((a.take(i, axis=d) == x).all() for i in range(n)), 'irep gives shape %s' % (a.shape,), 'irep')
    if shape[0] > 1:
        t = U.timediff(x)
        check(t.shape == (shape[0] - 1,) + shape[1:] and all((t[i] == x[i + 1] - x[i]).all() for i in range(shape[0] - 1)), 'time differences', 'timediff')
    for dt in 'dfi':
        y = U.refcast(x, dt)
        check(y.dtype == np.dtype(dt) and (y == x).all() and (y is x) == (dt == 'd'), 'refcast', 'refcast')
        s = U.scast(2, dt)
        check(s.dtype == np.dtype(dt) and s.shape == () and s == 2, 'scast', 'scast')
    b = (x.ravel() % 3 == 0).reshape(shape)
    check((U.bool_to_sign(b) == np.where(b, 1, -1)).all() and (U.sign_to_bool(U.bool_to_sign(b)) == b).all(), 'signs of truth values', 'signs')
    z = x - 3
    check((U.sign_to_bool(z) == (z >= 0)).all() and (U.sign_to_bool(z, zero=False) == (z > 0)).all() and (U.sign_to_bool(z.tolist()) == (z >= 0)).all(), 'truth values of signs', 'signs')


def numbers(ctx, top):
    for n in range(top):
        for k in range(0, n + 1):
            done(ctx, n > 1)
            f = 1
            for i in range(k):
                f = f * (n - i) // (i + 1)
            check(U.comb(n, k) == f, 'comb(%d, %d) is %s' % (n, k, U.comb(n, k)), 'comb')
    for keys in range(0, 4):
        for lens in itertools.product(range(0, 4), repeat=keys):
            done(ctx)
            d = dict((chr(97 + i), [10 * i + k for k in range(m)]) for i, m in enumerate(lens))
            got = [tuple(sorted(x.items())) for x in U.orthogonal_permutations(d)]
            ref = [tuple(zip(sorted(d), t)) for t in itertools.product(*[d[k] for k in sorted(d)])]
            check(sorted(got) == sorted(ref), 'combinations of %s: %s' % (d, got), 'combinations')
            check(d == dict((chr(97 + i), [10 * i + k for k in range(m)]) for i, m in enumerate(lens)), 'argument changed', 'changed')
    for count in range(1, 4):
        for pat in itertools.product((None, 0, 1, 2, 3), repeat=count):
            if all(p is None for p in pat):
                continue
            for form in (list, tuple, iter):
                done(ctx)
                args = [7 + i if p is None else form([10 * i + k for k in range(p)]) for i, p in enumerate(pat)]
                m = min(p for p in pat if p is not None)
                ref = [tuple(7 + i if p is None else 10 * i + k for i, p in enumerate(pat)) for k in range(m)]
                got = list(itertools.islice(U.izip_stretched(*args), 9))
                check(got == ref, 'stretched zip of %s: %s' % (pat, got), 'zip')
    check(list(U.izip_stretched()) == [], 'stretched zip of nothing', 'zip')
    check(list(itertools.islice(U.izip_stretched(1, 2), 3)) == [(1, 2)] * 3, 'stretched zip of constants', 'zip')


def choices(ctx, count, values):
    old = random.random
    try:
        for w in itertools.product(values, repeat=count):
            if not sum(w):
                continue
            keys = 'abcd'[:count]
            d = dict(zip(keys, w))
            for norm in (True, False):
                dd = d if norm else dict((k, x / float(sum(w))) for k, x in d.items())
                copy = dict(dd)
                size = dict.fromkeys(keys, Fraction(0))
                N = 2 * sum(w) * 3
                for i in range(1, N, 2):
                    done(ctx)
                    r = i / float(N)
                    random.random = lambda: r
                    k = U.weighted_choice(dd, normalize=norm)
                    ctx.at(w, norm, r)
                    check(k in d and d[k] > 0, 'chose %r from %s' % (k, d), 'choice')
                    size[k] += Fraction(2, N)
                check(dd == copy, 'the weights were changed', 'changed')
                for k in keys:
                    check(size[k] == Fraction(d[k], sum(w)), 'key %r of %s is chosen with probability %s' % (k, d, size[k]), 'probability')
    finally:
        random.random = old


def gabor(ctx, h, w):
    for center in [None] + [(a, b) for a in range(w) for b in range(h)]:
        for alpha in (0., .4, math.pi / 2, 2.5):
            for phi, freq, res, ampl in ((0., .05, 1, 1.), (.7, .2, 1, 2.), (0., .05, 3, .5)):
                for sg in ((1., 1.), (1., 3.)):
                    done(ctx)
                    ctx.at(center, alpha, phi, freq, res, ampl, sg)
                    im = U.gabor((h, w), alpha, phi, freq, sg, x0=center, res=res, ampl=ampl)
                    check(im.shape == (h, w), 'shape %s' % (im.shape,), 'shape')
                    cx, cy = (w // 2, h // 2) if center is None else center
                    ref = np.zeros((h, w))
                    for y in range(h):
                        for x in range(w):
                            a, b = y - cy, x - cx
                            u, v = a * math.cos(alpha) - b * math.sin(alpha), a * math.sin(alpha) + b * math.cos(alpha)
                            ref[y, x] = ampl * math.exp(-.5 * (u * u / sg[0] ** 2 + v * v / sg[1] ** 2)) * math.cos(-2 * math.pi * freq * res * v - phi)
                    check(near(im, ref, 1e-9), 'wavelet %s, should be %s' % (im.tolist(), ref.tolist()), 'wavelet')


def progress(ctx, count):
    """progressinfo hands on every item and shows growing percentages up to the end"""
    import contextlib
    import io
    import re
    import time
    items = [object() for _ in range(count)]
    clock = [0.]
    old = time.time
    try:
        for style in ('bar', 'timer'):
            for custom in (None, {'position': 'left'}, {'position': 'right', 'indent': '> ', 'delimiters': '()'}, {'speed': 'last'}) if style == 'timer' else (None, {'position': 'left'}, {'position': 'right', 'width': 40}, {'width': 30, 'char1': '#', 'indent': '  '}):
                for steps in itertools.product((0., 1.), repeat=min(count, 3)):
                    for form in range(3):
                        for stop in (count,) + tuple(range(1, count)):
                            ctx.at(count, style, custom, steps, form, stop)
                            done(ctx, count > 1)
                            time.time = lambda: clock[0]
                            c = None if custom is None else dict(custom)
                            out = io.StringIO()
                            got = []
                            expect = items
                            with contextlib.redirect_stdout(out):
                                if form == 0:
                                    it = U.progressinfo(items, style=style, custom=c)
                                elif form == 1:
                                    it = U.progressinfo(iter(items), count, style=style, custom=c)
                                    if not count:
                                        it = U.progressinfo(iter(items), 0, style, c)
                                else:
                                    expect = list(range(1, count + 1))
                                    it = U.progressinfo((i for i in expect), -max(count, 1), style, c)
                                for k, x in enumerate(it):
                                    clock[0] += steps[k % len(steps)] if steps else 0
                                    got.append(x)
                                    if k + 1 == stop:
                                        if stop < count:
                                            break
                            ctx.outcome(style, form, len(got))
                            check(len(got) == (stop if stop < count else count) and all(a is b or a == b for a, b in zip(got, expect)), '%d items of %d' % (len(got), count), 'items')
                            check(c == custom, 'the custom layout was changed: %s' % c, 'custom')
                            shown = [int(p) for p in re.findall(r'(\d+)%', out.getvalue())]
                            check(shown == sorted(shown) and (stop < count or shown and shown[-1] == 100), 'percentages %s' % shown, 'percentages')
                            if stop == count and count and form < 2:
                                ref = sorted(set(int(round(100. * k / count)) for k in range(count + 1)))
                                check(sorted(set(shown)) == ref, 'percentages %s, should be %s' % (shown, ref), 'percentages')
    finally:
        time.time = old
    for bad, err in ((lambda: list(U.progressinfo(iter(items))), Exception), (lambda: list(U.progressinfo(items, style='circle')), ValueError)):
        try:
            bad()
        except err:
            pass
        else:
            check(False, 'unknown length or style is accepted', 'accepted')


SCENARIOS = {'progress': progress, 'forms': forms, 'rotations': rotations, 'matrices': matrices, 'algebra': algebra, 'arrays': arrays, 'numbers': numbers, 'choices': choices, 'gabor': gabor}


def cases(tier):
    th = tier == 'thorough'
    for dt in 'df':
        yield 'forms', dict(n=1, hvals=range(-2, 3), fvals=range(-2, 3), norms=(.01, .5, 1, 3, 100), dt=dt)
        for part in range(4):
            yield 'forms', dict(n=2, hvals=(-1, 0, 1, 2), fvals=(-1, 0, 2), norms=(.01, .5, 1, 3, 100), dt=dt, part=part, parts=4)
    for part in range(8):
        yield 'forms', dict(n=3, hvals=(-1, 0, 1), fvals=(0, 1) if not th else (-1, 0, 1), norms=(2.,) if not th else (.5, 2.), dt='d', part=part, parts=8)
        if th:
            yield 'forms', dict(n=2, hvals=range(-3, 4), fvals=range(-2, 3), norms=(.01, .3, 1, 3, 100), dt='d', part=part, parts=8)
            yield 'forms', dict(n=3, hvals=(0, 1, 2), fvals=(-1, 0, 1), norms=(1.,), dt='f', part=part, parts=8)
    for n in (2, 3, 4):
        yield 'rotations', dict(n=n)
    for dt in 'df':
        yield 'matrices', dict(n=1, dt=dt, values=(0,))
        yield 'matrices', dict(n=2, dt=dt, values=(-2., -1., -.5, .25, 1., 3.))
        yield 'matrices', dict(n=3, dt=dt, values=(-2., -.5, .25, 1.))
        if th:
            yield 'matrices', dict(n=4, dt=dt, values=(-2., .25, 1.))
    yield 'algebra', dict(n=1, values=range(-3, 4))
    yield 'algebra', dict(n=2, values=(-2, -1, 0, 1, 3))
    yield 'algebra', dict(n=3, values=(-2, 1) if not th else (-2, 0, 1))
    for shape in ((1,), (2,), (4,), (1, 1), (2, 3), (3, 2), (2, 1, 3)):
        for n in (1, 2, 3):
            yield 'arrays', dict(shape=shape, n=n)
    yield 'numbers', dict(top=12 if not th else 40)
    for count in (1, 2, 3, 4):
        yield 'choices', dict(count=count, values=(0, 1, 2, 5))
    for count in range(0, 6 if th else 5):
        yield 'progress', dict(count=count)
    for h, w in itertools.product((1, 2, 3, 4), repeat=2):
        yield 'gabor', dict(h=h, w=w)
