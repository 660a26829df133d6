"""N04: row-locality of execution over every split / selection / history of a batch; time embeddings over every parameter tuple."""
import itertools
import warnings
import numpy as np
import mdp
import mdp.hinet as H
from mdp import nodes as N
from .. import catalog as cat
from ..core import check

LEVEL = 'model_checking'
RULE = 'the batch was split, permuted or selected from, or a window was longer than one frame'
ASSUMPTIONS = ['results of different batch sizes may differ in the last bits (relative tolerance 1e-9, 1e-4 in single precision)',
               'nodes that draw random numbers while executing are excluded (N02 covers them)',
               'a signal shorter than one window may be refused, or give no rows']


def worker_setup():
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')


def done(ctx, nontrivial=True):
    ctx.execution()
    if nontrivial:
        ctx.mark(ctx.executions)


def comps(n, lo=1):
    if n == 0:
        yield ()
        return
    for k in range(lo, n + 1):
        for rest in comps(n - k, lo):
            yield (k,) + rest


# ------------------------------------------------------------------ row-locality
SINGLE = [(lambda d, x: d.execute(x)), (lambda d, x: d(x))]


def structures():
    x = cat.data(12)
    lab = (np.array([0, 1, 1, 0, 2, 1, 2, 0] * 4)[:12],)

    def trained(n, xx=None, *a):
        xx = x if xx is None else xx
        while n.is_training():
            n.train(xx.copy(), *a)
            n.stop_training()
        return n

    def flow(*ns):
        f = mdp.Flow(list(ns))
        f.train([None if not n.is_trainable() else [x.copy()] for n in ns])
        return f
    return {
        'Flow/pca-poly': (lambda: flow(N.PCANode(output_dim=2), N.PolynomialExpansionNode(2)), 3),
        'Flow/poly-sfa': (lambda: flow(N.QuadraticExpansionNode(), N.PCANode(svd=True, output_dim=4)), 3),
        'FlowNode': (lambda: trained(H.FlowNode(mdp.Flow([N.PCANode(output_dim=2), N.CutoffNode(-1, 1)]))), 3),
        'Layer': (lambda: trained(H.Layer([N.PCANode(input_dim=2, output_dim=1), N.IdentityNode(input_dim=1)])), 3),
        'CloneLayer': (lambda: trained(H.CloneLayer(N.WhiteningNode(input_dim=1), 3)), 3),
        'SameInputLayer': (lambda: trained(H.SameInputLayer([N.PCANode(output_dim=2, input_dim=3), N.NormalizeNode(input_dim=3)])), 3),
        'Switchboard': (lambda: H.Switchboard(3, [2, 0, 0, 1]), 3),
        'MeanInverseSwitchboard': (lambda: H.MeanInverseSwitchboard(3, [2, 0, 1, 1]), 3),
        'ChannelSwitchboard': (lambda: H.ChannelSwitchboard(6, [4, 5, 0, 1], out_channel_dim=2, in_channel_dim=2), 6),
        'Rectangular2dSwitchboard': (lambda: H.Rectangular2dSwitchboard((3, 2), (2, 2), 1), 6),
        'Flow/switch-layer': (lambda: flow(H.Switchboard(3, [0, 1, 1, 2]), H.CloneLayer(N.QuadraticExpansionNode(input_dim=2), 2)), 3),
        'BiFlow': (lambda: bi(x), 3),
        'Conv/full': (lambda: conv('full'), 6), 'Conv/valid': (lambda: conv('valid', 'linear'), 6), 'Conv/same': (lambda: conv('same', 'linear', 'symm'), 6),
    }


def bi(x):
    import bimdp
    f = bimdp.BiFlow([bimdp.nodes.PCABiNode(output_dim=2), bimdp.nodes.QuadraticExpansionBiNode()])
    f.train([[x.copy()], None])
    return f


def conv(mode, approach='fft', boundary='fill'):
    from mdp.nodes.convolution_nodes import Convolution2DNode
    return Convolution2DNode(np.array([[[1., 2.], [-1., .5]], [[0., 1.], [1., 0.]]]), input_shape=(2, 3), approach=approach, mode=mode, boundary=boundary)


def subject(name, how):
    """(list of executors x -> dict of arrays, probe) of the trained object"""
    if name in cat.E:
        e = cat.E[name]
        cat._seed()
        if how == 'bi':
            node = cat.bimake(e)
            while node.is_training():
                msg = {'labels': e.extra(0, len(e.x))[0]} if e.classifier else None
                node.train(e.x.copy(), msg)
                node.stop_training()
        else:
            node = e.make() if how in ('node', 'repeat') else e.make(dtype=how)
        if how != 'bi':
            cat.train(node, e)
        if node.is_trainable() and node.is_training():
            node.stop_training()

        def run(x):
            y = node.execute(x.copy())
            if how == 'bi' and isinstance(y, tuple):
                y = y[0]
            out = {'execute': y, 'call': node(x.copy())}
            if how == 'bi' and isinstance(out['call'], tuple):
                out['call'] = out['call'][0]
            if e.classifier and how != 'bi' and e.cls != 'SimpleMarkovClassifier':
                out['label'] = node.label(x.copy())
                if not e.sk and e.cls in ('GaussianClassifier', 'NearestMeanClassifier', 'SignumClassifier') and hasattr(node, '_prob'):
                    try:
                        out['prob'] = np.array([sorted((str(k), round(float(v), 9)) for k, v in p.items()) for p in node.prob(x.copy())])
                    except (NotImplementedError, AttributeError):
                        pass
            if isinstance(node, N.PCANode) and how != 'bi':
                out['n=1'] = node.execute(x.copy(), 1)
            return out
        return run, e.probe
    make, dim = structures()[name]
    obj = make()

    def run(x):
        y = obj.execute(x.copy())
        if isinstance(y, tuple):
            y = y[0]
        return {'execute': y}
    return run, cat.data(7, dim, shift=2)


def layouts(x):
    yield 'C', x
    yield 'F', np.asfortranarray(x)
    big = np.zeros((2 * len(x), x.shape[1] + 1), dtype=x.dtype)
    big[::2, 1:] = x
    yield 'strided', big[::2, 1:]
    yield 'reversed', x[::-1].copy()[::-1]


def cmp_rows(out, want, rows, tol, info, sig):
    for k in want:
        w = np.asarray(want[k])[list(rows)]
        g = np.asarray(out[k])
        check(g.shape[:1] == (len(rows),) and cat.close(g, w, tol), '%s: %s gives\n%s\ninstead of the rows\n%s of the whole batch' % (info, k, g, w), sig=sig)


def s_rows(ctx, name, how, n, kind):
    """every split / selection / order of an n-row batch, in any memory layout, after any other executions"""
    run, probe = subject(name, how)
    probe = probe[:n]
    n = len(probe)
    tol = 1e-4 if how == 'f' else 1e-9
    want = run(probe)
    check(all(len(np.asarray(v)) == n for v in want.values()), '%s: %d rows in, %s out' % (name, n, [np.asarray(v).shape for v in want.values()]), sig='rows')
    if kind == 'split':
        for sizes in comps(n):
            ctx.at(name, how, 'split', sizes)
            a = 0
            for s in sizes:
                rows = list(range(a, a + s))
                cmp_rows(run(probe[rows]), want, rows, tol, '%s (%s), batch split %s, rows %s' % (name, how, sizes, rows), 'split')
                a += s
                ctx.step()
            done(ctx, len(sizes) > 1)
    elif kind == 'select':
        for k in range(1, n + 1):
            for rows in itertools.product(range(n), repeat=k) if k <= 3 else itertools.permutations(range(n), k):
                ctx.at(name, how, 'select', rows)
                cmp_rows(run(probe[list(rows)]), want, rows, tol, '%s (%s), rows %s selected' % (name, how, rows), 'select')
                ctx.step()
                done(ctx)
    else:
        for lname, x in layouts(probe):
            for k in range(1, n + 1):
                cmp_rows(run(x[:k]) if lname != 'C' else run(x[:k]), want, range(k), tol, '%s (%s), %s array' % (name, how, lname), 'layout')
                done(ctx)
        again = run(probe)
        cmp_rows(again, want, range(n), tol, '%s (%s), the same batch again' % (name, how), 'repeat')
        if how == 'node' and np.issubdtype(probe.dtype, np.floating):
            xi = np.round(probe)
            w = run(xi)
            cmp_rows(run(xi.astype('i')), w, range(n), 1e-4, '%s, the same numbers as integers' % name, 'int')
            done(ctx)
    ctx.state(name, how, kind)


# ------------------------------------------------------------------ time embedding
def signal(t, d, dtype):
    x = np.arange(1, t * d + 1).reshape(t, d)
    if dtype == 'S1':
        return np.array([[chr(97 + int(v) % 26) for v in r] for r in x], dtype='c')
    return x.astype(dtype)


def frames_def(x, f, gap):
    t = len(x) - (f - 1) * gap
    if t <= 0:
        return np.zeros((0, x.shape[1] * f), x.dtype)
    return np.array([np.concatenate([x[r + k * gap] for k in range(f)]) for r in range(t)])


def delay_def(x, f, gap):
    z = np.zeros(x.shape[1], x.dtype)
    return np.array([np.concatenate([x[r - k * gap] if r >= k * gap else z for k in range(f)]) for r in range(len(x))])


def s_frames(ctx, f, gap, dim, tmax, dtype):
    """TimeFramesNode and TimeDelayNode for every signal length; one node for several signals"""
    fr, dl = N.TimeFramesNode(f, gap), N.TimeDelayNode(f, gap)
    for t in list(range(1, tmax + 1)) + list(range(tmax, 0, -1)):
        x = signal(t, dim, dtype)
        for node in (fr, N.TimeFramesNode(f, gap, input_dim=dim)):
            ctx.at('frames', f, gap, dim, t, dtype)
            w = frames_def(x, f, gap)
            info = 'TimeFramesNode(%d, gap=%d) on %d rows of %d: ' % (f, gap, t, dim)
            try:
                y = node.execute(x.copy())
            except Exception as ex:
                check(len(w) == 0, info + '%s: %s' % (type(ex).__name__, ex), sig='frames-raise')
                ctx.outcome('refused')
            else:
                check(y.shape == w.shape and (y == w).all(), info + '%s instead of %s' % (y.tolist(), w.tolist()), sig='frames')
                check(node.output_dim == dim * f and y.dtype == x.dtype, info + 'output_dim %s dtype %s' % (node.output_dim, y.dtype), sig='frames-dim')
                if len(w) and dtype != 'S1':
                    try:
                        back = node.pseudo_inverse(y.copy())
                    except mdp.NodeException as ex:
                        check(False, info + 'pseudo_inverse refused: %s' % ex, sig='pinv-raise')
                    check(back.shape == x.shape, info + 'pseudo_inverse has shape %s' % (back.shape,), sig='pinv-shape')
                    seen = set(r + k * gap for r in range(len(w)) for k in range(f))
                    for r in range(t):
                        ok = (back[r] == x[r]).all() if r in seen else (back[r] == 0).all()
                        check(ok, info + 'pseudo_inverse row %d is %s, the signal %s (%s)' % (r, back[r], x[r], 'determined' if r in seen else 'not determined'),
                              sig='pinv')
                    done(ctx, f > 1)
            done(ctx, f > 1)
        if dtype == 'S1':
            continue
        w = delay_def(x, f, gap)
        for node in (dl, N.TimeDelayNode(f, gap, input_dim=dim)):
            ctx.at('delay', f, gap, dim, t, dtype)
            info = 'TimeDelayNode(%d, gap=%d) on %d rows of %d: ' % (f, gap, t, dim)
            try:
                y = node.execute(x.copy())
            except Exception as ex:
                check(False, info + '%s: %s' % (type(ex).__name__, ex), sig='delay-raise')
            check(y.shape == w.shape and (y == w).all() and y.dtype == x.dtype, info + '%s instead of %s' % (y.tolist(), w.tolist()), sig='delay')
            done(ctx, f > 1)
        for node in (N.TimeDelaySlidingWindowNode(f, gap), N.TimeDelaySlidingWindowNode(f, gap, input_dim=dim)):
            ctx.at('sliding', f, gap, dim, t, dtype)
            info = 'TimeDelaySlidingWindowNode(%d, gap=%d), %d rows of %d: ' % (f, gap, t, dim)
            rows = []
            for r in range(t):
                y = node.execute(x[r:r + 1].copy())
                check(y.shape == (1, f * dim), info + 'shape %s' % (y.shape,), sig='sliding-shape')
                rows.append(y[0].copy())
                ctx.step()
            check((np.array(rows) == w).all(), info + '%s instead of %s' % (np.array(rows).tolist(), w.tolist()), sig='sliding')
            done(ctx, f > 1)
    ctx.state('frames', f, gap, dim, dtype)


# ------------------------------------------------------------------ convolution
def s_conv(ctx, shape, fshape, mode):
    from mdp.nodes.convolution_nodes import Convolution2DNode
    from scipy import signal as ss
    nim = 2
    x = (np.arange(nim * shape[0] * shape[1]) * 7 % 11 - 4.).reshape(nim, -1)
    flt = (np.arange(2 * fshape[0] * fshape[1]) * 5 % 7 - 3.).reshape((2,) + fshape)
    fill = mode != 'valid' or (shape[0] >= fshape[0] and shape[1] >= fshape[1])
    if not fill:
        return
    for approach, boundary, value in [('fft', 'fill', 0)] + [('linear', b, v) for b in ('fill', 'wrap', 'symm') for v in (0, 2) if b == 'fill' or v == 0]:
        if mode != 'full' and approach == 'linear' and boundary != 'fill' and (fshape[0] > shape[0] or fshape[1] > shape[1]):
            continue
        want = np.array([np.concatenate([ss.convolve2d(im.reshape(shape), f, mode=mode, boundary=boundary, fillvalue=value).ravel() for f in flt]) for im in x])
        for rank3, out2d in itertools.product((False, True), repeat=2):
            ctx.at('conv', shape, fshape, mode, approach, boundary, rank3)
            node = Convolution2DNode(flt.copy(), input_shape=None if rank3 else shape, approach=approach, mode=mode, boundary=boundary, fillvalue=value, output_2d=out2d)
            try:
                y = node.execute(x.reshape((nim,) + shape) if rank3 else x.copy())
            except mdp.NodeException as ex:
                check(not out2d, 'Convolution2DNode refused: %s' % ex, sig='conv-raise')
                continue
            if not out2d:
                check(y.ndim == 4 and y.shape[:2] == (nim, 2) and y.shape[2:] == node.output_shape, 'Convolution2DNode: shape %s' % (y.shape,), sig='conv-shape')
                y = y.reshape(nim, -1)
            check(cat.close(y, want, 1e-8) and node.output_dim == want.shape[1],
                  'Convolution2DNode(%s, %s, %s, fillvalue=%s) on %s with filters of %s gives\n%s\ninstead of\n%s' % (mode, approach, boundary, value, shape, fshape, y, want),
                  sig='conv')
            done(ctx)
    ctx.state('conv', shape, fshape, mode)


SCENARIOS = dict(rows=s_rows, frames=s_frames, conv=s_conv)


def cases(tier):
    thorough = tier == 'thorough'
    subj = [(n, ['node']) for n, e in sorted(cat.E.items()) if e.rowlocal]
    for n, hows in subj:
        e = cat.E[n]
        if not e.intype and not e.sk:
            if e.cls not in ('LibSVMClassifier', 'NeuralGasNode', 'GrowingNeuralGasNode', 'GrowingNeuralGasExpansionNode', 'HLLENode', 'LLENode', 'ISFANode', 'TDSEPNode',
                             'XSFANode', 'GSFANode', 'iGSFANode', 'FANode', 'CuBICANode', 'FastICANode', 'JADENode', 'RBMNode', 'DiscreteHopfieldClassifier'):
                hows.append('f')
        if e.cls in ('PCANode', 'SFANode', 'QuadraticExpansionNode', 'NearestMeanClassifier', 'KNNClassifier') and '/' not in n:
            hows.append('bi')
    subj += [(n, ['node']) for n in sorted(structures())]
    for n, hows in subj:
        slow = n in cat.E and (cat.E[n].sk or cat.E[n].cls in ('XSFANode', 'ISFANode', 'iGSFANode', 'GSFANode', 'LibSVMClassifier', 'HLLENode', 'LLENode', 'KNNClassifier'))
        for how in hows:
            rows = 7 if thorough or not slow else 5
            yield 'rows', dict(name=n, how=how, n=rows, kind='split')
            yield 'rows', dict(name=n, how=how, n=(6 if thorough else 5) if not slow else (5 if thorough else 4), kind='select')
            yield 'rows', dict(name=n, how=how, n=rows, kind='layout')
    F, G, D, T = (7, 6, 3, 24) if thorough else (5, 4, 2, 14)
    for f, g, d in itertools.product(range(1, F + 1), range(1, G + 1), range(1, D + 1)):
        for dt in ('d', 'f', 'i', 'l', 'S1') if thorough or d == 1 else ('d',):
            yield 'frames', dict(f=f, gap=g, dim=d, tmax=T, dtype=dt)
    S = (1, 2, 3, 4, 5) if thorough else (1, 2, 3, 4)
    for shape in itertools.product(S, repeat=2):
        for fs in itertools.product((1, 2, 3), repeat=2):
            for mode in ('full', 'same', 'valid'):
                yield 'conv', dict(shape=shape, fshape=fs, mode=mode)
