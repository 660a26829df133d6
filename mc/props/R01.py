"""R01: restricted Boltzmann machines against the Boltzmann distribution, by enumeration of all states."""
import itertools
import warnings
import numpy as np
import mdp
from ..core import check

LEVEL = 'model_checking'
RULE = 'machines with at least two units in one layer, or training with at least two updates'
ASSUMPTIONS = ['a sample is drawn with the probability that is reported with it: decided over every seed of a fixed set, with a tolerance of six standard deviations',
               'a training step may use any of the hidden and visible states that can be sampled, unless the weights make them certain',
               'labels are one-hot']
N = mdp.nodes


def worker_setup():
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')


def done(ctx, nontrivial=True):
    ctx.execution()
    if nontrivial:
        ctx.mark(ctx.executions)


def states(n):
    return np.array(list(itertools.product((0., 1.), repeat=n))).reshape(-1, n)


def sig(a):
    return 1. / (1. + np.exp(-a))


def E(v, h, w, bv, bh):
    return -sum(v[i] * w[i, j] * h[j] for i in range(len(v)) for j in range(len(h))) - np.dot(v, bv) - np.dot(h, bh)


def make(w, bv, bh, dtype='d', labels=0):
    """a trained or trainable node with the given (documented, public) parameters"""
    vd, hd = w.shape
    if labels:
        n = N.RBMWithLabelsNode(hd, labels, visible_dim=vd - labels, dtype=dtype)
        n.train(np.zeros((1, vd - labels), dtype), np.eye(labels, dtype=dtype)[:1], epsilon=0.)
    else:
        n = N.RBMNode(hd, vd, dtype=dtype)
        n.train(np.zeros((1, vd), dtype), epsilon=0.)
    for name, val in (('w', w), ('bv', bv), ('bh', bh)):
        old = getattr(n, name)
        check(old.shape == val.shape and old.dtype == np.dtype(dtype), '%s has shape %s, dtype %s' % (name, old.shape, old.dtype), 'parameters')
        setattr(n, name, np.array(val, dtype=dtype))
    return n


def params(vd, hd, values):
    for flat in itertools.product(values, repeat=vd * hd + vd + hd):
        a = np.array(flat)
        yield a[:vd * hd].reshape(vd, hd), a[vd * hd:vd * hd + vd], a[vd * hd + vd:]


def near(a, b, dtype='d'):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-4 if dtype == 'f' else 1e-9, atol=1e-6 if dtype == 'f' else 1e-12))


def is_sample(s, p, dtype):
    """values 0 and 1, and the certain ones are right"""
    s, p = np.asarray(s), np.asarray(p)
    return s.shape == p.shape and s.dtype == np.dtype(dtype) and bool(np.isin(s, (0, 1)).all() and (s[p > 1 - 1e-12] == 1).all() and (s[p < 1e-12] == 0).all())


def laws(ctx, vd, hd, values, dtype='d'):
    """conditional probabilities and energies of every machine over the values, for every state"""
    V, H = states(vd).astype(dtype), states(hd).astype(dtype)
    for w, bv, bh in params(vd, hd, values):
        ctx.at(w.tolist(), bv.tolist(), bh.tolist())
        n = make(w, bv, bh, dtype)
        n.stop_training()
        e = np.array([[E(v, h, w, bv, bh) for h in H] for v in V])
        p = np.exp(-e)
        where = 'w=%s bv=%s bh=%s: ' % (w.tolist(), bv.tolist(), bh.tolist())
        for i, v in enumerate(V):
            got = n.energy(np.repeat(V[i:i + 1], len(H), axis=0), H)
            check(near(got, e[i], dtype), where + 'energies of %s are %s instead of %s' % (v, got, e[i]), 'energy')
            ctx.step()
        ph = (p @ H) / p.sum(1)[:, None]
        pv = (p.T @ V) / p.sum(0)[:, None]
        keep = V.copy()
        for what, got in (('execute', n.execute(V)), ('sample_h', n.sample_h(V)[0])):
            check(near(got, ph, dtype) and got.dtype == np.dtype(dtype), where + '%s gave P(h=1|v) %s instead of %s' % (what, got.tolist(), ph.tolist()), 'ph')
        for what, got in (('execute', n.execute(V, return_probs=False)), ('sample_h', n.sample_h(V)[1])):
            check(is_sample(got, ph, dtype), where + '%s sampled %s (%s) from %s' % (what, got.tolist(), got.dtype, ph.tolist()), 'sample-h')
        got, s = n.sample_v(H)
        check(near(got, pv, dtype) and got.dtype == np.dtype(dtype), where + 'P(v=1|h) %s instead of %s' % (got.tolist(), pv.tolist()), 'pv')
        check(is_sample(s, pv, dtype), where + 'sampled %s from %s' % (s.tolist(), pv.tolist()), 'sample-v')
        check((V == keep).all() and all((getattr(n, k) == np.array(x, dtype)).all() for k, x in (('w', w), ('bv', bv), ('bh', bh))), where + 'execution changed the data or the machine', 'side-effect')
        rows = np.vstack([n.execute(V[i:i + 1]) for i in range(len(V))])
        check(near(rows, ph, dtype), where + 'single rows differ', 'rows')
        done(ctx, vd > 1 or hd > 1)
    ctx.state(vd, hd)


def label_laws(ctx, vd, ld, hd, values, dtype='d'):
    V, L, H = states(vd).astype(dtype), np.eye(ld, dtype=dtype), states(hd).astype(dtype)
    VL = [(v, l) for v in V for l in L]
    X, Y = np.array([v for v, l in VL]), np.array([l for v, l in VL])
    for w, bv, bh in params(vd + ld, hd, values):
        ctx.at(w.tolist(), bv.tolist(), bh.tolist())
        n = make(w, bv, bh, dtype, labels=ld)
        n.stop_training()
        e = np.array([[E(np.r_[v, l], h, w, bv, bh) for h in H] for v, l in VL])
        p = np.exp(-e)
        where = 'labels, w=%s bv=%s bh=%s: ' % (w.tolist(), bv.tolist(), bh.tolist())
        for j, h in enumerate(H):
            got = n.energy(X, np.repeat(H[j:j + 1], len(X), axis=0), Y)
            check(near(got, e[:, j], dtype), where + 'energies with %s are %s instead of %s' % (h, got, e[:, j]), 'energy')
            ctx.step()
        ph = (p @ H) / p.sum(1)[:, None]
        pv = (p.T @ X) / p.sum(0)[:, None]
        pl = (p.T @ Y) / p.sum(0)[:, None]
        for what, got in (('execute', n.execute(X, Y)), ('sample_h', n.sample_h(X, Y)[0])):
            check(near(got, ph, dtype) and got.dtype == np.dtype(dtype), where + '%s gave P(h=1|v,l) %s instead of %s' % (what, got.tolist(), ph.tolist()), 'ph')
        for what, got in (('execute', n.execute(X, Y, return_probs=False)), ('sample_h', n.sample_h(X, Y)[1])):
            check(is_sample(got, ph, dtype), where + '%s sampled %s from %s' % (what, got.tolist(), ph.tolist()), 'sample-h')
        gv, gl, sv, sl = n.sample_v(H)
        check(near(gv, pv, dtype), where + 'P(v=1|h) %s instead of %s' % (gv.tolist(), pv.tolist()), 'pv')
        check(near(gl, pl, dtype), where + 'P(l|h) %s instead of %s' % (gl.tolist(), pl.tolist()), 'pl')
        check(is_sample(sv, pv, sv.dtype) and is_sample(sl, pl, sl.dtype) and (sl.sum(1) == 1).all(), where + 'sampled %s, labels %s' % (sv.tolist(), sl.tolist()), 'sample-v')
        check(gv.dtype == gl.dtype == sv.dtype == sl.dtype == np.dtype(dtype), where + 'data types %s' % [a.dtype for a in (gv, gl, sv, sl)], 'dtype')
        done(ctx)
    ctx.state(vd, ld, hd)


# ------------------------------------------------------------------ contrastive divergence
def candidates(v, w, bv, bh, delta, labels, eps, decay, mom, with_ph, n_updates):
    """every result that one update can have: (w, bv, bh, delta)"""
    n, vd = v.shape
    hd = w.shape[1]
    free = vd - labels
    phd = sig(v @ w + bh)

    def options(p):
        """all samples that have a positive probability"""
        return [np.array(s).reshape(p.shape) for s in itertools.product(*[(1.,) if q > 1 - 1e-12 else (0.,) if q < 1e-12 else (0., 1.) for q in p.ravel()])]

    def visible(h):
        a = bv + h @ w.T
        pl = np.exp(a[:, free:] - a[:, free:].max(1)[:, None]) if labels else a[:, free:]
        pl = pl / pl.sum(1)[:, None] if labels else pl
        return [np.hstack([s, pl]) for s in options(sig(a[:, :free]))]
    out = []
    for hs in options(phd):
        chain = [(hs, None)]
        for u in range(n_updates):
            nxt = {}
            for h, _ in chain:
                for vm in visible(h):
                    for hm in options(sig(vm @ w + bh)):
                        nxt[(hm.tobytes(), vm.tobytes())] = (hm, vm)
            chain = list(nxt.values())
        for hm, vm in chain:
            phm = sig(vm @ w + bh)
            dw = mom * delta[0] + eps * ((v.T @ phd - vm.T @ phm) / n - decay * w)
            dv = mom * delta[1] + eps * (v.sum(0) - vm.sum(0)) / n
            dh = mom * delta[2] + eps * ((phd.sum(0) - phm.sum(0)) if with_ph else (hs.sum(0) - hm.sum(0))) / n
            out.append((w + dw, bv + dv, bh + dh, (dw, dv, dh)))
    return out


def cd(ctx, vd, hd, labels, scale, rows, kw, chunks):
    """every data set: each training call is one of the possible contrastive divergence updates (exactly one if the weights are large)"""
    g = np.array([[1., -.5, .75], [-.5, 1., -1.25], [.25, -1., .5], [1.5, .5, -.75]])
    tot = vd + labels
    w0 = scale * g[:tot, :hd]
    bv0, bh0 = scale * np.array([.3, -.2, .1, -.4])[:tot], scale * np.array([-.35, .15, .2])[:hd]
    S = states(vd)
    if labels:
        S = np.array([np.r_[s, l] for s in S for l in np.eye(labels)])
    eps, decay, mom, ph, nu = kw.get('epsilon', .1), kw.get('decay', 0.), kw.get('momentum', 0.), kw.get('update_with_ph', True), kw.get('n_updates', 1)
    for pick in itertools.product(range(len(S)), repeat=rows * chunks):
        data = S[list(pick)].reshape(chunks, rows, tot)
        ctx.at(data.tolist())
        n = make(w0, bv0, bh0, labels=labels)
        w, bv, bh, delta = w0, bv0, bh0, (0., 0., 0.)
        for c, v in enumerate(data):
            keep = v.copy()
            if labels:
                n.train(v[:, :vd].copy(), v[:, vd:].copy(), **kw)
            else:
                n.train(v, **kw)
            ctx.step()
            check((v == keep).all(), 'training changed the data', 'argument-changed')
            cand = candidates(v, w, bv, bh, delta, labels, eps, decay, mom, ph, nu)
            # equal candidates with other differences have other continuations only through delta, which is equal then
            fit = [x for x in cand if near(n.w, x[0]) and near(n.bv, x[1]) and near(n.bh, x[2])]
            check(fit, 'update %d with %s (%s) from w=%s bv=%s bh=%s gave w=%s bv=%s bh=%s, none of the %d possible results'
                  % (c, v.tolist(), kw, w.tolist(), bv.tolist(), bh.tolist(), n.w.tolist(), n.bv.tolist(), n.bh.tolist(), len(cand)), 'update')
            w, bv, bh, delta = fit[0]
            ctx.note_max('possible results of an update', len(cand))
        done(ctx, chunks > 1 or rows > 1)
    ctx.state(vd, hd, labels, scale)


def sampling(ctx, p, dtype, which):
    """the frequency of ones over all seeds of a set is the probability"""
    rows, seeds = 64, range(64)
    b = np.log(p / (1 - p))
    count = 0
    for s in seeds:
        ctx.at(p, s)
        np.random.seed(s)
        if which == 'label':
            n = make(np.zeros((3, 1)), np.array([0., b, 0.]), np.zeros(1), dtype, labels=2)
            n.stop_training()
            out = n.sample_v(np.zeros((rows, 1), dtype))[3][:, 0]
        else:
            n = make(np.zeros((1, 1)), np.array([b]), np.array([b]), dtype)
            n.stop_training()
            z = np.zeros((rows, 1), dtype)
            out = n.sample_h(z)[1][:, 0] if which == 'h' else n.sample_v(z)[1][:, 0] if which == 'v' else n.execute(z, return_probs=False)[:, 0]
        count += int(out.sum())
        ctx.step()
        done(ctx)
    total = rows * len(seeds)
    check(abs(count / total - p) < 6 * (p * (1 - p) / total) ** .5, 'sampled %d ones of %d with probability %s' % (count, total, p), 'frequency')
    ctx.state(p, which)


def protocol(ctx):
    """training calls are refused after the end of the training, with wrong dimensions, and sampling ends an open training"""
    for labels in (0, 2):
        for stop in (True, False):
            n = make(np.array([[1., 2.], [.5, -1.], [0., .3], [.2, .1]])[:2 + labels], np.zeros(2 + labels), np.zeros(2), labels=labels)
            if stop:
                n.stop_training()
            X, L = np.array([[0., 1.]]), np.array([[1., 0.]])
            a = (X, L) if labels else (X,)
            for call in ('sample_h', 'sample_v', 'execute'):
                m = n.copy()
                r = m.sample_v(np.zeros((1, 2))) if call == 'sample_v' else getattr(m, call)(*a)
                ctx.step()
                check(not m.is_training(), '%s left the training open' % call, 'training-open')
                try:
                    m.train(*a)
                    ok = True
                except mdp.TrainingFinishedException:
                    ok = False
                check(not ok, 'training after %s accepted' % call, 'trained-again')
                for bad in ((np.zeros((1, 3)), L), (np.zeros((1, 1)), L)) if labels else ((np.zeros((1, 3)),), (np.zeros((1, 1)),)):
                    for f in ('sample_h', 'execute') + (() if stop else ('train',)):
                        k = n.copy()
                        try:
                            getattr(k, f)(*bad)
                            ok = True
                        except mdp.NodeException:
                            ok = False
                        check(not ok, '%s accepted data of width %d' % (f, bad[0].shape[1]), 'width')
                try:
                    n.copy().sample_v(np.zeros((1, 3)))
                    ok = True
                except mdp.NodeException:
                    ok = False
                check(not ok, 'sample_v accepted hidden states of width 3', 'width')
                done(ctx)
    ctx.state('protocol')


SCENARIOS = {f.__name__: f for f in (laws, label_laws, cd, sampling, protocol)}


def cases(tier):
    th = tier == 'thorough'
    for dtype in 'df':
        yield 'laws', dict(vd=1, hd=1, values=(-2., -.5, 0., .5, 1., 60.), dtype=dtype)
        yield 'laws', dict(vd=1, hd=2, values=(-1., .5, 2.), dtype=dtype)
        yield 'laws', dict(vd=2, hd=1, values=(-1., .5, 2.), dtype=dtype)
        yield 'laws', dict(vd=2, hd=2, values=(-1., .5) if not th else (-1., .5, 2.), dtype=dtype)
        yield 'label_laws', dict(vd=1, ld=2, hd=1, values=(-1., .5, 2.), dtype=dtype)
        yield 'label_laws', dict(vd=1, ld=1, hd=1, values=(-1., .5, 2.), dtype=dtype)
        yield 'label_laws', dict(vd=2, ld=2, hd=1, values=(-1., .5), dtype=dtype)
        yield 'label_laws', dict(vd=1, ld=3, hd=1, values=(-1., .5), dtype=dtype)
    yield 'laws', dict(vd=3, hd=1, values=(-1., 1.5))
    yield 'laws', dict(vd=1, hd=3, values=(-1., 1.5))
    if th:
        yield 'laws', dict(vd=3, hd=2, values=(-1., 1.5))
        yield 'label_laws', dict(vd=1, ld=2, hd=2, values=(-1., .5))
    for labels in (0, 2):
        for vd, hd in ((1, 1), (2, 1), (1, 2)) + (((2, 2),) if th or not labels else ()):
            for scale in (1., 400.):
                for kw in ({}, dict(epsilon=.5, decay=.25), dict(momentum=.5), dict(momentum=.9, decay=.1, epsilon=.3), dict(n_updates=2), dict(n_updates=3, momentum=.5), dict(update_with_ph=False), dict(update_with_ph=False, momentum=.5)):
                    if labels and 'update_with_ph' in kw:
                        continue
                    for rows, chunks in ((1, 1), (2, 1), (1, 2), (2, 2)) if vd + hd + labels < 5 else ((1, 1), (1, 2)):
                        # data sets times possible results of an update
                        cost = (2 ** vd * max(labels, 1)) ** (rows * chunks) * (4 ** (rows * hd) * 2 ** (rows * vd) if scale == 1. else 1)
                        if cost > (2 ** 13 if not th else 2 ** 14):
                            continue
                        yield 'cd', dict(vd=vd, hd=hd, labels=labels, scale=scale, rows=rows, kw=kw, chunks=chunks)
    for p in (.1, .25, .5, .75, .9):
        for dtype in 'df':
            for which in ('h', 'v', 'execute', 'label'):
                yield 'sampling', dict(p=p, dtype=dtype, which=which)
    yield 'protocol', {}
