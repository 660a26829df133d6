"""N07: graph-based SFA - every training mode against the explicit training graph it stands for; iGSFA against its parts."""
import contextlib
import io
import itertools
import os
import warnings
import numpy as np
import scipy.linalg
import mdp
from mdp import nodes as N
from ..core import check

LEVEL = 'model_checking'
RULE = 'the training graph has at least one edge with non-zero weight and the training succeeded'
ASSUMPTIONS = ['edges given as a dictionary or as an array are summed as they are: every entry (i, j) with weight w contributes w (x_i - x_j)(x_i - x_j)^T once',
               'the absolute scale of the edge weights of one training mode is immaterial as long as one mode is used (sliding windows count each edge once or twice)',
               'a graph whose sample covariance is singular, or whose total weight is not positive, may be refused']


def worker_setup():
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def done(ctx, nontrivial=True):
    ctx.execution()
    if nontrivial:
        ctx.mark(ctx.executions)


class Ref:
    """a training graph as explicit lists of weighted samples and weighted differences"""

    def __init__(self):
        self.v, self.e = [], []

    def node(self, x, w=1.):
        self.v.append((np.asarray(x, dtype='d'), float(w)))

    def edge(self, x, y, w=1.):
        self.e.append((np.asarray(x, dtype='d') - np.asarray(y, dtype='d'), float(w)))

    def moments(self):
        q = sum(w for _, w in self.v)
        avg = sum(w * x for x, w in self.v) / q
        cov = sum(w * np.outer(x - avg, x - avg) for x, w in self.v) / q
        r = sum(w for _, w in self.e)
        dcov = sum((w * np.outer(d, d) for d, w in self.e), np.zeros_like(cov))
        return q, avg, cov, r, dcov / r if r else dcov


# ------------------------------------------------------------------ the modes
def g_regular(g, x, **k):
    for a in x:
        g.node(a)
    for a, b in zip(x[1:], x[:-1]):
        g.edge(a, b)


def g_unlabeled(g, x, **k):
    for a in x:
        g.node(a)


def g_clusters(g, x, sizes, weight=1.):
    s = 0
    for n in sizes:
        c = x[s:s + n]
        s += n
        for a in c:
            g.node(a, weight)
        for a in c:
            for b in c:
                g.edge(a, b, weight / n)
    assert s == len(x)


def g_serial(g, x, b, weight=1.):
    nb = len(x) // b
    for i, a in enumerate(x):
        g.node(a, weight * (1. if i < b or i >= len(x) - b else 2.))
    for k in range(nb - 1):
        for a in x[k * b:(k + 1) * b]:
            for c in x[(k + 1) * b:(k + 2) * b]:
                g.edge(a, c, weight / b)
                g.edge(c, a, weight / b)


def g_mixed(g, x, b):
    nb = len(x) // b
    for k in range(nb):
        g_clusters(g, x[k * b:(k + 1) * b], [b], 2. if k in (0, nb - 1) else 1.)
    g_serial(g, x, b)


def g_window(g, x, w):
    n = len(x)
    for i in range(n):
        nbrs = [j for j in range(i - w, i + w + 1) if j != i and 0 <= j < n]
        g.node(x[i], len(nbrs) / (2. * w))
        for j in nbrs:
            g.edge(x[i], x[j])


def g_mirror(g, x, w):
    n = len(x)
    for i in range(n):
        g.node(x[i])
        for j in range(i - w, i + w + 1):
            if j != i:
                m = -1 - j if j < 0 else 2 * n - 1 - j if j >= n else j
                g.edge(x[i], x[m])


def g_compact(g, x, b, J):
    ncl = len(x) // b
    bits = ncl.bit_length() - 1
    assert 2 ** bits == ncl
    extra = J - bits
    cls = np.arange(len(x)) // b
    labels = [np.where((cls >> (bits - j - 1)) & 1, 1, -1) for j in range(bits)]
    w = [1.] * (bits - 1) + [1. - k / (extra + 1.) for k in range(extra + 1)]
    w = np.array(w) / sum(w)
    if extra:   # one more: the product of all others
        assert extra == 1 and bits > 1
        labels.append(np.prod(labels, axis=0))
    for j in range(J):
        for s in (-1, 1):
            c = x[labels[j] == s]
            g_clusters(g, c, [len(c)], w[j])
    return g


def g_graph(g, x, v, e):
    for i, a in enumerate(x):
        g.node(a, 1. if v is None else v[i])
    items = e.items() if isinstance(e, dict) else [((i, j), e[i, j]) for i in range(len(x)) for j in range(len(x)) if e[i, j]]
    for (i, j), w in items:
        g.edge(x[i], x[j], w)


def g_smart2(g, x):
    """unlabelled samples joined to the labelled ones (all with weight 1 each) and to each other"""
    lab = [a for a, _ in g.v]
    q1 = sum(w for _, w in g.v)
    assert all(w == 1. for _, w in g.v)
    r1 = sum(w for _, w in g.e)
    g.e = [(d, w * q1 / r1 * .8) for d, w in g.e]
    n2 = len(x)
    v2 = q1 * .2 / n2
    w12 = v2 / q1
    for a in x:
        g.node(a, v2)
    for a in x:
        for b in lab:
            g.edge(a, b, w12)
            g.edge(b, a, w12)
    g_clusters(g, x, [n2], -.025)


def g_smart3(g, x):
    lab = [a for a, _ in g.v]
    assert all(w == 1. for _, w in g.v)
    n1, n2 = float(len(lab)), len(x)
    v, c = 2. ** -9.5, 10.
    vn, nn = v / c, n1 / c
    adj = (nn - 1) / (nn - 1 + vn * n2)
    g.e = [(d, w * adj) for d, w in g.e]
    w22 = vn * vn / (nn + vn * (n2 - 1))
    comp = w22 * (n2 - 1) * c
    for a in x:
        g.node(a, v)
    for a in x:
        for b in x:
            g.edge(a, b, comp / n2)
    w12 = vn * (1 / (nn - 1 + vn * n2) + 1 / (nn + vn * (n2 - 1)))
    for a in x:
        for b in lab:
            g.edge(a, b, w12)
    # the edges count once for their weight, C * (N1/C) * N2 of them
    return g


# ------------------------------------------------------------------ oracle
def verify(ctx, node, g, info, sig='', k=None):
    """the outputs are the decorrelated, unit variance, weighted-zero-mean directions of the graph in order of slowness"""
    q, avg, cov, r, dcov = g.moments()
    d = np.asarray(node.d)
    sf = np.asarray(node.execute(np.eye(len(avg))) - node.execute(np.zeros((1, len(avg)))))
    kk = sf.shape[1]
    check(k is None or kk == k, info + 'gives %d outputs instead of %s' % (kk, k), sig='width' + sig)
    ev = scipy.linalg.eigh(dcov, cov, eigvals_only=True)[:kk]
    tol = 1e-6 * max(1., np.abs(ev).max())
    y0 = node.execute(avg.reshape(1, -1))
    check(np.allclose(y0, 0, atol=1e-6), info + 'the weighted mean of the samples is mapped to %s instead of 0' % (y0.round(6).tolist(),), sig='mean' + sig)
    c = sf.T.dot(cov).dot(sf)
    check(np.allclose(c, np.eye(kk), atol=1e-6), info + 'the weighted covariance of the outputs is %s instead of the identity' % (c.round(5).tolist(),), sig='cov' + sig)
    dd = sf.T.dot(dcov).dot(sf)
    check(np.allclose(dd, np.diag(ev), atol=tol), info + 'the outputs have delta values %s instead of %s' % (dd.round(5).tolist(), ev.round(5).tolist()), sig='delta' + sig)
    check(np.allclose(d, ev, atol=tol), info + 'reports the delta values %s instead of %s' % (d.round(6).tolist(), ev.round(6).tolist()), sig='d' + sig)


def defined(g):
    q, avg, cov, r, dcov = g.moments()
    if not q > 0 or not r > 0 or not np.isfinite(cov).all() or not np.isfinite(dcov).all():
        return False
    ev = np.linalg.eigvalsh(cov)
    sd = np.linalg.eigvalsh(dcov)
    return ev[0] > 1e-6 * max(1., ev[-1]) and sd[0] > -1e-9 * max(1., sd[-1])


def strictly(g):
    """no numerically zero delta value, which a rounding error could make negative"""
    q, avg, cov, r, dcov = g.moments()
    return scipy.linalg.eigh(dcov, cov, eigvals_only=True)[0] > 1e-9


def train_all(ctx, g, calls, info, sig='', out=None, verbose=False):
    node = N.GSFANode(output_dim=out, verbose=verbose)
    ok = defined(g)
    try:
        with quiet():
            for x, k in calls:
                x2 = x.copy()
                node.train(x2, **k)
                check(np.array_equal(x2, x), info + 'training changes the data', sig='data' + sig)
            node.stop_training()
    except Exception as e:
        check(not ok or (isinstance(e, mdp.NodeException) and not strictly(g)), info + 'training fails: %r' % (e,), sig='error' + sig)
        ctx.outcome('refused', sig)
        done(ctx, False)
        return None
    if not ok:
        ctx.outcome('undefined', sig)
        done(ctx, False)
        return None
    verify(ctx, node, g, info, sig, out)
    done(ctx)
    return node


# ------------------------------------------------------------------ explicit graphs
POINTS = {2: np.array([[0., 1.], [2., 1.], [1., -3.], [4., 2.], [-1., .5]]), 1: np.array([[0.], [2.], [-1.], [5.], [1.5]])}


def graph(ctx, n, dim, part, parts, nodes, loops):
    """all 0/1(/2) edge weight patterns on n samples, as a dictionary and as an array"""
    x = POINTS[dim][:n]
    pairs = [(i, j) for i in range(n) for j in range(n) if (i != j or loops)]
    sym = [(i, j) for i, j in pairs if i <= j]
    todo = []
    if n <= 3:
        for w in itertools.product((0, 1, 2), repeat=len(pairs)) if not loops else itertools.product((0, 1), repeat=len(pairs)):
            todo.append({p: float(v) for p, v in zip(pairs, w) if v})
    else:
        for w in itertools.product((0, 1, 2) if n == 4 else (0, 1), repeat=len(sym)):
            e = {}
            for (i, j), v in zip(sym, w):
                if v:
                    e[i, j] = float(v)
                    if i != j:
                        e[j, i] = float(v)
            todo.append(e)
    for ii, e in enumerate(todo):
        if ii % parts != part or not e:
            continue
        for v in nodes:
            vv = None if v is None else np.array(v[:n], dtype='d')
            g = Ref()
            g_graph(g, x, vv, e)
            ctx.state('graph', n, dim, str(v), str(sorted(e.items())))
            ctx.step(len(e))
            arr = np.zeros((n, n))
            for (i, j), w in e.items():
                arr[i, j] = w
            for mode in ('graph', 'graph_old'):
                for form in (e, arr):
                    info = 'train_mode %r, node weights %s, edges %s given as %s: ' % (mode, v, e, type(form).__name__)
                    ctx.at(n, dim, str(v), str(sorted(e.items())), mode, type(form).__name__)
                    train_all(ctx, g, [(x, dict(train_mode=mode, node_weights=None if vv is None else vv.copy(), edge_weights=form))], info,
                              sig='-%s-%s' % (mode, type(form).__name__))


# ------------------------------------------------------------------ named modes
def series(n, dim, shift=0, off=0.):
    t = np.arange(n, dtype='d') + shift
    cols = [np.cos(.7 * t) + .1 * t, np.sin(1.3 * t + 1), np.cos(2.9 * t), np.sin(.2 * t * t)]
    return np.stack(cols[:dim], 1) * np.array([1., 2., .5, 3.])[:dim] + off


def specs(n):
    """(name, training arguments, function adding the graph)"""
    yield 'regular', dict(train_mode='regular'), g_regular
    yield 'none', {}, g_regular
    for b in range(2, n + 1):
        if n % b == 0:
            yield 'clustered%d' % b, dict(train_mode='clustered', block_size=b), lambda g, x, b=b: g_clusters(g, x, [b] * (len(x) // b))
            if b < n:
                yield 'mixed%d' % b, dict(train_mode='mixed', block_size=b), lambda g, x, b=b: g_mixed(g, x, b)
    for b in range(1, n):
        if n % b == 0:
            yield 'serial%d' % b, dict(train_mode='serial', block_size=b), lambda g, x, b=b: g_serial(g, x, b)
            yield 'serial[%d]' % b, dict(train_mode='serial', block_size=[b] * (n // b)), lambda g, x, b=b: g_serial(g, x, b)
    for c in comps(n, 3):
        yield 'clustered%s' % (c,), dict(train_mode='clustered', block_size=list(c)), lambda g, x, c=c: g_clusters(g, x, c)
    yield 'clustered-array', dict(train_mode='clustered', block_size=np.array([n - 2, 2])), lambda g, x: g_clusters(g, x, [n - 2, 2])
    for w in range(1, n // 2 + 1):
        if 2 * w < n:
            for m in ('window', 'fwindow'):
                yield m, dict(train_mode='%s%d' % (m, w)), lambda g, x, w=w: g_window(g, x, w)
            for m in ('mirror_window', 'smirror_window'):
                yield m, dict(train_mode='%s%d' % (m, w)), lambda g, x, w=w: g_mirror(g, x, w)
    for b in (1, 2, 3):
        for J in (1, 2, 3):
            if n == b * 2 ** J:
                yield 'compact', dict(train_mode='compact_classes%d' % J, block_size=b), lambda g, x, b=b, J=J: g_compact(g, x, b, J)
                if J > 1:
                    yield 'compact+', dict(train_mode='compact_classes%d' % (J + 1), block_size=b), lambda g, x, b=b, J=J: g_compact(g, x, b, J + 1)
                yield 'compact[]', dict(train_mode='compact_classes%d' % J, block_size=[b] * 2 ** J), lambda g, x, b=b, J=J: g_compact(g, x, b, J)
    for lab in labelings(n):
        lab = np.array(lab)
        for w in (1., .5):
            yield 'classification', dict(train_mode=('classification', lab, w)), lambda g, x, lab=lab, w=w: \
                [g_clusters(g, x[lab == k], [int((lab == k).sum())], w) for k in sorted(set(lab))]
    for perm in ([list(range(n))[::-1], [(i * 5 + 2) % n for i in range(n)] if n % 5 else [(i * 3 + 1) % n for i in range(n)]]):
        p = np.array(perm, dtype='d')
        for b in range(1, n):
            if n % b == 0:
                for w in (1., 2.):
                    yield 'serial_regression', dict(train_mode=('serial_regression%d' % b, p, w)), lambda g, x, p=p, b=b, w=w: g_serial(g, x[np.argsort(p)], b, w)


def labelings(n):
    out = {tuple(i % 2 for i in range(n)), tuple([0] * (n - 2) + [1] * 2), tuple((i // 2) % 3 for i in range(n)), tuple([2, 2] + [0] * (n - 2)),
           tuple((-1, 7)[i * i % 3 == 1] for i in range(n))}
    return sorted(out)


def comps(n, kmax, lo=1):
    if kmax == 1:
        if n >= lo:
            yield (n,)
        return
    yield (n,)
    for k in range(lo, n - lo + 1):
        for rest in comps(n - k, kmax - 1, lo):
            yield (k,) + rest


def modes(ctx, n, dim, off):
    x = series(n, dim, off=off)
    seen = {}
    for name, kw, add in specs(n):
        for out in (None,) + tuple(range(1, dim + 1)) if name in ('regular', 'clustered2', 'serial1') else (None, 1):
            g = Ref()
            add(g, x)
            info = '%s on %d samples (output_dim %s): ' % ({k: v for k, v in kw.items()}, n, out)
            ctx.at(n, dim, off, name, str(kw), out)
            sig = '-' + name.rstrip('0123456789[](), ')
            node = train_all(ctx, g, [(x, kw)], info, sig=sig, out=out)
            if node is not None:
                y = node.execute(x)
                for m in range(1, y.shape[1] + 1):
                    check(np.array_equal(node.execute(x, m), y[:, :m]), info + 'execute with n=%d' % m, sig='n' + sig)
                if y.shape[1] == dim:
                    check(np.allclose(node.inverse(y), x, atol=1e-6 * (1 + abs(off))), info + 'the inverse is not the inverse', sig='inverse' + sig)
        ctx.state('mode', str(kw), n, dim, off)
        ctx.step(len(g.e))
    # parameters given to the constructor instead, and in verbose mode
    for name, kw, add in specs(n):
        if set(kw) <= {'train_mode', 'block_size'} and name in ('regular', 'clustered2', 'serial2', 'mixed2', 'fwindow', 'window', 'mirror_window', 'compact'):
            for verbose in (False, True):
                g = Ref()
                add(g, x)
                if not defined(g) or not strictly(g):
                    continue
                info = 'GSFANode(%s, verbose=%s): ' % (kw, verbose)
                ctx.at(n, dim, off, 'init-' + name, str(kw), verbose)
                try:
                    with quiet():
                        node = N.GSFANode(verbose=verbose, **kw)
                        node.train(x)
                        node.stop_training()
                except Exception as e:
                    check(False, info + 'training fails: %r' % (e,), sig='init-error' + '-verbose' * verbose)
                verify(ctx, node, g, info, '-init')
                done(ctx)


def histories(ctx, n, dim, pairs):
    """several calls, and several modes in one call: the graphs are united"""
    base = [('regular', dict(train_mode='regular'), g_regular, 3), ('clustered', dict(train_mode='clustered', block_size=3), lambda g, x: g_clusters(g, x, [3] * (len(x) // 3)), 3),
            ('serial', dict(train_mode='serial', block_size=2), lambda g, x: g_serial(g, x, 2), 2), ('mixed', dict(train_mode='mixed', block_size=2), lambda g, x: g_mixed(g, x, 2), 2),
            ('fwindow', dict(train_mode='fwindow2'), lambda g, x: g_window(g, x, 2), 1), ('mirror', dict(train_mode='mirror_window1'), lambda g, x: g_mirror(g, x, 1), 1),
            ('unlabeled', dict(train_mode='unlabeled'), g_unlabeled, 1), ('ignore', dict(train_mode='ignore_data'), lambda g, x: None, 1),
            ('classification', None, None, 1), ('graph', None, None, 1)]
    full = series(4 * n, dim)

    def make(b, x):
        name, kw, add, _ = b
        if name == 'classification':
            lab = np.arange(len(x)) % 2
            return dict(train_mode=('classification', lab, 1.)), lambda g, x: [g_clusters(g, x[lab == k], [int((lab == k).sum())]) for k in (0, 1)]
        if name == 'graph':
            e = {(i, i + 1): 1. + i for i in range(len(x) - 1)}
            return dict(train_mode='graph', edge_weights=e, node_weights=np.arange(1., len(x) + 1)), lambda g, x: g_graph(g, x, np.arange(1., len(x) + 1), e)
        return kw, add
    for combo in itertools.product(base, repeat=pairs):
        sizes = [n if n % b[3] == 0 else n + b[3] - n % b[3] for b in combo]
        g, calls, s = Ref(), [], 0
        for b, m in zip(combo, sizes):
            x = full[s:s + m]
            s += m
            kw, add = make(b, x)
            add(g, x)
            calls.append((x, kw))
        names = [b[0] for b in combo]
        if not g.v or not g.e:
            continue
        ctx.at(n, dim, str(names))
        ctx.state('history', *names)
        train_all(ctx, g, calls, 'calls %s: ' % names, sig='-calls')
    # a list of modes in one call is the union of the graphs on the same data
    m = 6
    x = full[:m]
    for combo in itertools.product([b for b in base if b[0] in ('regular', 'fwindow', 'mirror', 'unlabeled', 'ignore', 'classification', 'clustered', 'none')] + [('none', dict(train_mode=None), g_regular, 1)], repeat=2):
        g, ml, bs = Ref(), [], None
        for b in combo:
            kw, add = make(b, x)
            add(g, x)
            ml.append(kw['train_mode'])
            bs = kw.get('block_size', bs)
        if not g.v or not g.e:
            continue
        names = [b[0] for b in combo]
        ctx.at(m, dim, str(names))
        train_all(ctx, g, [(x, dict(train_mode=ml, block_size=bs))], 'list of modes %s: ' % names, sig='-list')


def smart(ctx, n1, n2, dim, off):
    """unlabelled data joined to a labelled graph"""
    for mode, add in (('smart_unlabeled2', g_smart2), ('smart_unlabeled3', g_smart3)):
        for lab in ('clustered', 'regular', 'serial-like'):
            x1, x2 = series(n1, dim, off=off), series(n2, dim, shift=50, off=off)
            g = Ref()
            if lab == 'clustered':
                g_clusters(g, x1, [n1 // 2] * 2)
                kw = dict(train_mode='clustered', block_size=n1 // 2)
            elif lab == 'regular':
                g_regular(g, x1)
                kw = dict(train_mode='regular')
            else:
                g_mirror(g, x1, 1)
                kw = dict(train_mode='mirror_window1')
            add(g, x2)
            ctx.at(mode, lab, n1, n2, dim, off)
            node = train_all(ctx, g, [(x1, kw), (x2, dict(train_mode=mode))], '%s after %s (%d and %d samples): ' % (mode, lab, n1, n2), sig='-' + mode)
            ctx.state('smart', mode, lab, n1, n2)


def errors(ctx, n):
    """inconsistent arguments are refused"""
    x = series(n, 2)
    for kw in (dict(train_mode='clustered', block_size=[n - 1]), dict(train_mode='clustered', block_size=[1, n]), dict(train_mode='clustered', block_size=n - 1), dict(train_mode='clustered'),
               dict(train_mode='serial', block_size=n - 1), dict(train_mode='serial'), dict(train_mode='serial', block_size=[1, n - 1]), dict(train_mode='graph'),
               dict(train_mode='graph', edge_weights=np.ones((n, n - 1))), dict(train_mode='graph', edge_weights=np.ones((n, n)), node_weights=np.ones(n + 1)),
               dict(train_mode='graph_old', edge_weights=np.ones((n - 1, n))), dict(train_mode='compact_classes1', block_size=n - 1),
               dict(train_mode='foo'), dict(train_mode=('foo', [1], 1.)), dict(train_mode=3), dict(train_mode='window%d' % n), dict(train_mode='fwindow%d' % (n // 2 + 1)),
               dict(train_mode='mirror_window%d' % n), dict(train_mode='smirror_window%d' % n)):
        ctx.at(n, str(kw))
        node = N.GSFANode()
        try:
            with quiet():
                node.train(x, **kw)
        except (ValueError, mdp.NodeException):
            done(ctx)
            continue
        except Exception as e:
            check(False, '%s: raises %r instead of a TrainingException or ValueError' % (kw, e), sig='error-type')
        check(False, '%s: the inconsistent arguments are accepted' % (kw,), sig='accepted')


# ------------------------------------------------------------------ iGSFA
def same_upto_sign(a, b, tol):
    return a.shape == b.shape and all(min(np.abs(a[:, i] - b[:, i]).max(), np.abs(a[:, i] + b[:, i]).max()) < tol for i in range(a.shape[1]))


def square(x):
    return x ** 2


def ident(x):
    return x


def absd(x):
    return np.abs(x - .3)


def igsfa(ctx, dim, chunks, expansion, rec):
    """slow part = GSFA of the (expanded) data, fast part = principal components of what is left"""
    n = 40
    x = series(n, dim, off=.5).dot(np.array([[1., .2, 0, .1], [-.3, 1., .4, 0], [0, .5, 2., .3], [.2, 0, -.1, .7]])[:dim, :dim])
    funcs = {'none': None, 'id': [ident], 'id-sq': [ident, square], 'id-abs': [ident, absd]}[expansion]
    dx = dim * (1 if funcs is None else len(funcs))
    for out in (None,) + tuple(range(1, dim + 1)):
        od = dim if out is None else out
        for mls in (None, 1, 2):
            for thr in (0, 1, 2, 3, .05, .3, .9, 1.999, 100.):
                for scal in (None, 'data_dependent', 'sensitivity_based', 'QR_decomposition'):
                    if not rec and scal in ('sensitivity_based', 'QR_decomposition'):
                        continue
                    for kw in (dict(train_mode='regular'), dict(train_mode='clustered', block_size=len(x) // len(chunks) // 2)):
                        ctx.at(dim, chunks, expansion, rec, out, mls, thr, scal, str(kw))
                        _igsfa(ctx, x, chunks, funcs, rec, out, od, mls, thr, scal, kw, dx, dim)
    ctx.state('igsfa', dim, chunks, expansion, rec)


def _igsfa(ctx, x, chunks, funcs, rec, out, od, mls, thr, scal, kw, dx, dim):
    info = 'iGSFANode(%s, output_dim=%s, max_length_slow_part=%s, delta_threshold=%s, reconstruct_with_sfa=%s, slow_feature_scaling_method=%s), %d calls with %s: ' % (
        'expansion x%d' % (dx // dim), out, mls, thr, rec, scal, len(chunks), kw)
    bad = isinstance(thr, int) and (thr > od or (mls is not None and thr > mls))
    parts, s = [], 0
    for c in chunks:
        parts.append(x[s:s + c])
        s += c
    node = N.iGSFANode(expansion_funcs=funcs, output_dim=out, max_length_slow_part=mls, delta_threshold=thr, reconstruct_with_sfa=rec, slow_feature_scaling_method=scal)
    try:
        with quiet():
            for p in parts:
                node.train(p.copy(), **kw)
            if node.is_training():
                node.stop_training()
    except Exception as e:
        # too many slow features asked for: refused (never more than the expanded data have)
        check(bad or (isinstance(thr, int) and thr > dx), info + 'training fails: %r' % (e,), sig='igsfa-error')
        ctx.outcome('refused')
        done(ctx, False)
        return
    check(not bad, info + 'the inconsistent sizes are accepted', sig='igsfa-accepted')
    # ------------ reference: the parts
    m = x.mean(0) if rec else np.zeros(x.shape[1])
    zm = [p - m for p in parts]
    exp = lambda a: a if funcs is None else np.concatenate([f(a) for f in funcs], 1)
    ns = min(dx, od) if mls is None else min(mls, dx, od)
    if isinstance(thr, int):
        ns = max(1, min(ns, thr))
    g = N.GSFANode(output_dim=ns)
    for p in zm:
        g.train(exp(p), **kw)
    g.stop_training()
    k = thr if isinstance(thr, int) else min(int((g.d <= thr).sum()), od)
    probe = np.concatenate([series(5, x.shape[1], shift=100, off=.5), x[:3]])
    slow = lambda a: g.execute(exp(a - m))[:, :k]
    if rec:
        sx = slow(x)
        mu, sd = sx.mean(0), sx.std(0)
        nrm = lambda a: (slow(a) - mu) / sd
        one = np.concatenate([np.ones((len(x), 1)), nrm(x)], 1)
        beta = np.linalg.lstsq(one, x - m, rcond=None)[0]
        rest = lambda a: (a - m) - np.concatenate([np.ones((len(a), 1)), nrm(a)], 1).dot(beta)
    else:
        nrm, rest = slow, (lambda a: a)
    left = np.concatenate([rest(p) for p in parts])
    lavg = left.mean(0)
    dd, vv = np.linalg.eigh(np.atleast_2d(np.cov(left.T)))
    dd, vv = dd[::-1], vv[:, ::-1]
    fast = lambda a: (rest(a) - lavg).dot(vv)
    if scal is None:
        mag = np.ones(k)
    elif scal == 'data_dependent':
        mag = np.ones(k) * (np.median(dd[:od - k]) ** .5 if od > k else 1.)
    elif scal == 'sensitivity_based':
        mag = (beta[1:] ** 2).sum(1) ** .5
    else:
        mag = None
    with quiet():
        y = node.execute(probe)
    check(y.shape == (len(probe), od), info + 'gives %d outputs instead of %d' % (y.shape[1], od), sig='igsfa-width')
    check(node.output_dim == od, info + 'output_dim is %s' % node.output_dim, sig='igsfa-width')
    scale = 1e-5 * (1 + np.abs(y).max())
    if k and mag is not None:
        want = nrm(probe) * mag
        check(same_upto_sign(y[:, :k], want, scale), info + 'the slow part is %s instead of %s' % (y[:2, :k].round(5).tolist(), want[:2].round(5).tolist()), sig='igsfa-slow')
    elif k:
        # rotated: the Gram matrix of the slow part equals that of its linear reconstruction
        lin = nrm(probe).dot(beta[1:])
        a, b = y[:, :k].dot(y[:, :k].T), lin.dot(lin.T)
        if k <= x.shape[1]:
            check(np.allclose(a, b, atol=scale * (1 + np.abs(b).max())), info + 'the QR-scaled slow part does not keep the geometry of the reconstruction', sig='igsfa-qr')
    # principal components whose variances are distinct and not zero
    for i in range(od - k):
        gap = min([abs(dd[i] - dd[j]) for j in range(len(dd)) if j != i] or [1.])
        if dd[i] > 1e-8 and gap > 1e-6:
            want = fast(probe)[:, i:i + 1]
            check(same_upto_sign(y[:, k + i:k + i + 1], want, scale), info + 'component %d of the fast part is %s instead of %s' % (i, y[:2, k + i].round(5).tolist(), want[:2, 0].round(5).tolist()), sig='igsfa-fast')
    with quiet():
        inv = node.inverse(y)
    check(inv.shape == probe.shape, info + 'inverse has shape %s' % (inv.shape,), sig='igsfa-inverse')
    # what the features kept reconstruct
    keep = [i for i in range(od - k)]
    if all(dd[i] > 1e-8 for i in keep) and (len(keep) == 0 or len(keep) == len(dd) or dd[len(keep) - 1] - dd[len(keep)] > 1e-6):
        rr = fast(probe)[:, :len(keep)].dot(vv[:, :len(keep)].T) + lavg if keep else np.zeros_like(probe)
        lin = np.concatenate([np.ones((len(probe), 1)), nrm(probe)], 1).dot(beta) if rec else 0.
        want = rr + lin + m
        if scal != 'QR_decomposition' or k <= x.shape[1]:
            check(np.allclose(inv, want, atol=scale * 10 * (1 + np.abs(want).max())), info + 'the linear inverse is %s instead of %s' % (inv[:2].round(5).tolist(), want[:2].round(5).tolist()), sig='igsfa-inverse')
        if rec and dim - len(keep) <= k and funcs is None:
            check(np.allclose(inv, probe, atol=scale * 10), info + 'the features keep all information but the inverse is %s instead of %s' % (inv[:2].round(5).tolist(), probe[:2].round(5).tolist()), sig='igsfa-lossless')
    done(ctx)


SCENARIOS = {'graph': graph, 'modes': modes, 'histories': histories, 'smart': smart, 'errors': errors, 'igsfa': igsfa}


def cases(tier):
    deep = tier == 'thorough'
    out = []
    NW = (None, (1, 2, 3, 1, 2), (.5, .5, 2, 1, 1))
    for dim in (1, 2):
        out.append(('graph', dict(n=3, dim=dim, part=0, parts=1, nodes=NW, loops=False)))
        out.append(('graph', dict(n=3, dim=dim, part=0, parts=1, nodes=NW[:2], loops=True)))
    for part in range(4 if deep else 2):
        out.append(('graph', dict(n=4, dim=2, part=part, parts=4 if deep else 2, nodes=NW if deep else NW[:2], loops=False)))
    if deep:
        for part in range(4):
            out.append(('graph', dict(n=5, dim=2, part=part, parts=4, nodes=NW[:2], loops=True)))
    for n in range(4, 13) if deep else (4, 5, 6, 8, 9):
        for dim in (1, 2, 3) if deep else (1, 2):
            for off in (0., 10.):
                out.append(('modes', dict(n=n, dim=dim, off=off)))
    for n in (6, 8) if deep else (6,):
        for dim in (1, 2):
            out.append(('histories', dict(n=n, dim=dim, pairs=2)))
    if deep:
        out.append(('histories', dict(n=6, dim=2, pairs=3)))
    for n1 in (20, 12, 40):
        for n2 in (3, 6):
            for off in (0., 4.):
                out.append(('smart', dict(n1=n1, n2=n2, dim=2, off=off)))
    for n in (4, 5, 6):
        out.append(('errors', dict(n=n)))
    for dim in (2, 3, 4) if deep else (2, 3):
        for chunks in ((40,), (20, 20)) + (((8, 32), (12, 20, 8)) if deep else ()):
            for e in ('none', 'id-sq') + (('id', 'id-abs') if deep else ()):
                for rec in (False, True):
                    if rec and len(chunks) > 1:
                        continue
                    out.append(('igsfa', dict(dim=dim, chunks=chunks, expansion=e, rec=rec)))
    return out
