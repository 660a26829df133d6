"""N05: inverse undoes execute, for every node class x output width, every chain and layer of up to three parts."""
import itertools
import warnings
import numpy as np
import mdp
import mdp.hinet as H
from mdp import nodes as N
from .. import catalog as cat
from ..core import check

LEVEL = 'model_checking'
RULE = 'an object with at least two parts, a discarded dimension, or a non-trivial node was inverted or refused'
ASSUMPTIONS = ['CCIPCA, CCIPCA whitening and MCA nodes have components that are orthonormal only in the limit, and iGSFA documents an approximate '
               'inverse: they are excluded',
               'a part whose image is not the whole output space (MeanInverseSwitchboard with repeated connections) reproduces the outputs of '
               'executions, so behind it only parts without loss are enumerated',
               'round-off: relative tolerance 1e-6 (1e-3 in single precision)',
               'zero-variance directions: ill-conditioned problems are not enumerated']

APPROX = ('CCIPCANode', 'CCIPCAWhiteningNode', 'MCANode', 'iGSFANode')


def worker_setup():
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')


def done(ctx, nontrivial=True):
    ctx.execution()
    if nontrivial:
        ctx.mark(ctx.executions)


def build(e, out=None, dtype=None):
    k = {}
    if out is not None:
        k['output_dim'] = out
    if dtype is not None:
        k['dtype'] = dtype
    return e.make(**k)


def feed(node, e, stop=True):
    """train the node of the entry; optionally leave the last phase open"""
    cat._seed()
    while node.is_trainable() and node.get_remaining_train_phase() > 0:
        node.train(e.x.copy(), *e.extra(0, len(e.x)))
        cat._seed()
        if node.get_remaining_train_phase() == 1 and not stop:
            return node
        node.stop_training()
    return node


def refused(f, info, sig='not-refused'):
    try:
        r = f()
    except mdp.IsNotInvertibleException:
        return
    except Exception as ex:
        check(False, info + 'refused with %s: %s instead of IsNotInvertibleException' % (type(ex).__name__, ex), sig=sig + '-type')
    check(False, info + 'inversion gives %s although the object is not invertible' % (r,), sig=sig)


def judge(info, ex, inv, x, exact, tol, sig, ys=()):
    """ex/inv: execute and inverse; exact: nothing was discarded"""
    y = ex(x.copy())
    z = inv(y.copy())
    check(np.asarray(z).shape == x.shape, info + 'the inverse has shape %s, the input %s' % (np.shape(z), x.shape), sig=sig + '-shape')
    check(cat.close(ex(np.array(z)), y, tol), info + 'executing the inverse of an output gives\n%s\ninstead of\n%s' % (ex(np.array(z)), y), sig=sig + '-reproduce')
    if exact:
        check(cat.close(z, x, tol), info + 'inverting an output gives\n%s\ninstead of\n%s' % (z, x), sig=sig + '-exact')
    # row by row
    rows = np.vstack([inv(r[None, :].copy()) for r in y])
    check(cat.close(rows, z, tol), info + 'inverted row by row the result is different', sig=sig + '-rows')
    for yy in ys:
        check(cat.close(ex(np.array(inv(yy.copy()))), yy, tol), info + 'executing the inverse of the output %s gives another one' % (yy,), sig=sig + '-any')


def s_node(ctx, entry, out, dtype, when):
    """one node class at every output width; inverted after training, or while the last training phase is still open"""
    e = cat.E[entry]
    tol = 5e-3 if dtype == 'f' else 1e-6
    ctx.at(entry, out, dtype, when)
    node = build(e, out, dtype)
    info = '%s(output_dim=%s, dtype=%s), %s: ' % (entry, out, dtype, when)
    claimed = node.is_invertible()
    if when == 'untrained':
        if not claimed:
            y = np.ones((2, node.output_dim or 3))
            refused(lambda: node.inverse(y), info)
            check(node.is_training() == node.is_trainable(), info + 'the refused inversion closed the training', sig='refused-state')
            done(ctx)
        return
    feed(node, e, stop=when != 'open')
    check(node.is_invertible() == claimed, info + 'is_invertible() changed by training', sig='claim-changed')
    x = e.x[:8] if not e.intype else e.x
    if not claimed:
        was = node.is_training()
        y = np.ones((2, node.output_dim or 3))
        refused(lambda: node.inverse(y), info)
        check(node.is_training() == was, info + 'the refused inversion closed the training', sig='refused-state')
        done(ctx)
        return
    check(e.inv or e.cls in ('AdaptiveCutoffNode', 'GSFANode', 'GrowingNeuralGasNode', 'NeuralGasNode', 'IncSFANode'), info + 'claims to be invertible', sig='claim')
    if when == 'open':
        # inverting first, before anything was executed
        twin = feed(build(e, out, dtype), e)
        cat._seed()
        y = cat.execute(twin, e, x)
        cat._seed()
        z = node.inverse(y.copy())
        check(not node.is_training() or e.online, info + 'inversion leaves the node in training', sig='open')
        check(cat.close(z, twin.inverse(y.copy()), tol), info + 'inversion with the training still open gives\n%s\ninstead of\n%s' % (z, twin.inverse(y)), sig='open-value')
        if e.online:
            return
    lossless = node.output_dim is None or node.output_dim >= node.input_dim
    exact = lossless and e.cls != 'AdaptiveCutoffNode'
    ys = []
    if not e.intype and e.cls != 'AdaptiveCutoffNode' and not (isinstance(node, mdp.ClassifierNode)):
        ys = [cat.data(5, node.output_dim or x.shape[1], shift=3)]
    judge(info, lambda v: cat.execute(node, e, v), node.inverse, x, exact, tol, 'node', ys)
    judge(info + '(probe) ', lambda v: cat.execute(node, e, v), node.inverse, e.probe, exact, tol, 'node', ())
    if isinstance(node, N.PCANode):
        for q in range(1, node.output_dim + 1):
            y = node.execute(x, n=q)
            check(cat.close(node.execute(node.inverse(y), n=q), y, tol), info + 'the first %d components are not reproduced' % q, sig='partial')
            done(ctx, q < node.output_dim)
        wide = np.ones((2, node.output_dim + 1))
        try:
            r = node.inverse(wide)
        except mdp.NodeException:
            pass
        else:
            check(False, info + 'accepted %d columns: %s' % (wide.shape[1], r), sig='wide')
    ctx.state(entry, out, dtype, when)
    done(ctx)


# ------------------------------------------------------------------ chains
X3 = cat.data(14, 3)


def parts3():
    """alphabet of parts with three inputs: name -> (make, invertible, lossless, image is everything, output width)"""
    return {
        'id': (lambda d: N.IdentityNode(), 1, 1, 1, 0),
        'pca': (lambda d: N.PCANode(), 1, 1, 1, 0),
        'pca-1': (lambda d: N.PCANode(output_dim=d - 1), 1, 0, 1, -1),
        'white': (lambda d: N.WhiteningNode(), 1, 1, 1, 0),
        'white-1': (lambda d: N.WhiteningNode(output_dim=d - 1), 1, 0, 1, -1),
        'sfa': (lambda d: N.SFANode(), 1, 1, 1, 0),
        'norm': (lambda d: N.NormalizeNode(), 1, 1, 1, 0),
        'perm': (lambda d: H.Switchboard(d, list(range(1, d)) + [0]), 1, 1, 1, 0),
        'mean': (lambda d: H.MeanInverseSwitchboard(d, list(range(d)) + [0]), 1, 1, 0, 1),
        'drop': (lambda d: H.Switchboard(d, list(range(d - 1))), 0, 0, 1, -1),
        'poly': (lambda d: N.PolynomialExpansionNode(2), 0, 0, 0, None),
        'cut': (lambda d: N.CutoffNode(-1., 1.), 0, 0, 0, 0),
        'layer': (lambda d: H.Layer([N.PCANode(input_dim=1, output_dim=1)] + [N.IdentityNode(input_dim=d - 1)] if d > 1 else [N.IdentityNode(input_dim=1)]), 1, 1, 1, 0),
        'layer-cut': (lambda d: H.Layer(([N.IdentityNode(input_dim=d - 1)] if d > 1 else []) + [N.CutoffNode(-1, 1, input_dim=1)]), 0, 0, 0, 0),
        'clone': (lambda d: H.CloneLayer(N.NormalizeNode(input_dim=1), d), 1, 1, 1, 0),
        'same': (lambda d: H.SameInputLayer([N.IdentityNode(input_dim=d), N.PCANode(input_dim=d, output_dim=1)]), 0, 0, 0, 1),
        'fnode': (lambda d: H.FlowNode(mdp.Flow([N.PCANode(input_dim=d, output_dim=d), N.NormalizeNode(input_dim=d)])), 1, 1, 1, 0),
        'fnode-cut': (lambda d: H.FlowNode(mdp.Flow([N.CutoffNode(-1, 1, input_dim=d), N.PCANode(input_dim=d, output_dim=d)])), 0, 0, 0, 0),
    }


def chain_cases(letters, depth):
    for k in range(1, depth + 1):
        for seq in itertools.product(letters, repeat=k):
            yield seq


def train_chain(nodes, x):
    cur = x
    for n in nodes:
        while n.is_trainable() and n.is_training():
            n.train(cur.copy())
            n.stop_training()
        cur = n.execute(cur)
    return cur


def s_chain(ctx, letters, depth, lo, hi):
    P = parts3()
    for seq in list(chain_cases(letters, depth))[lo:hi]:
        d, nodes, ok = 3, [], True
        for l in seq:
            if d < 2 and P[l][4] == -1:
                ok = False
                break
            n = P[l][0](d)
            nodes.append(n)
            d = d + P[l][4] if P[l][4] is not None else d + d * (d + 1) // 2
            if d > 9:
                ok = False
                break
        if not ok:
            continue
        # ill-conditioned: whitening or slow features of redundant columns
        wide = [i for i, l in enumerate(seq) if l in ('mean', 'same', 'poly')]
        if any(seq[j] in ('white', 'sfa', 'pca', 'fnode', 'fnode-cut', 'white-1', 'pca-1') for i in wide for j in range(i + 1, len(seq))):
            continue
        ctx.at('chain', seq)
        train_chain(nodes, X3)
        inv = all(P[l][1] for l in seq)
        exact = inv and all(P[l][2] for l in seq)
        info = 'chain %s: ' % (seq,)
        for l, n in zip(seq, nodes):
            check(bool(n.is_invertible()) == bool(P[l][1]), info + '%s.is_invertible() is %s' % (l, n.is_invertible()), sig='part-claim')
        flow = mdp.Flow(nodes)
        fnode = H.FlowNode(mdp.Flow([n.copy() for n in nodes]))
        check(bool(fnode.is_invertible()) == inv, info + 'FlowNode.is_invertible() is %s' % fnode.is_invertible(), sig='claim')
        y = flow.execute(X3[:6].copy())
        if not inv:
            try:
                r = flow.inverse(y)
            except mdp.IsNotInvertibleException:
                pass
            except mdp.FlowException as ex:
                check('invertible' in str(ex), info + 'flow refused with %s' % str(ex)[:200], sig='flow-type')
            except Exception as ex:
                check(False, info + 'flow inversion fails with %s: %s' % (type(ex).__name__, ex), sig='flow-type')
            else:
                check(False, info + 'the flow was inverted: %s' % r, sig='flow-not-refused')
            refused(lambda: fnode.inverse(y), info + 'FlowNode: ')
            done(ctx)
            continue
        # parts whose image is not everything may only be followed by lossless ones
        if any(not P[seq[i]][3] and not all(P[l][2] and P[l][3] for l in seq[i + 1:]) for i in range(len(seq))):
            done(ctx)
            continue
        allfull = all(P[l][3] for l in seq)
        ys = [cat.data(4, y.shape[1], shift=5)] if allfull else []
        judge(info + 'Flow: ', flow.execute, flow.inverse, X3[:6], exact, 1e-6, 'flow', ys)
        judge(info + 'FlowNode: ', fnode.execute, fnode.inverse, X3[:6], exact, 1e-6, 'fnode', ys)
        it = flow.inverse([y[:2], y[2:3], y[3:]])
        check(cat.close(it, flow.inverse(y.copy()), 1e-9), info + 'inverting an iterable of chunks gives another result', sig='flow-iter')
        done(ctx)
    ctx.state('chain', lo)


# ------------------------------------------------------------------ layers
def lparts():
    """alphabet of layer parts: name -> (make, inputs, invertible, lossless)"""
    return {
        'id1': (lambda: N.IdentityNode(input_dim=1), 1, 1, 1),
        'pca2': (lambda: N.PCANode(input_dim=2), 2, 1, 1),
        'pca2-1': (lambda: N.PCANode(input_dim=2, output_dim=1), 2, 1, 0),
        'white2-1': (lambda: N.WhiteningNode(input_dim=2, output_dim=1), 2, 1, 0),
        'perm3': (lambda: H.Switchboard(3, [2, 0, 1]), 3, 1, 1),
        'norm1': (lambda: N.NormalizeNode(input_dim=1), 1, 1, 1),
        'cut1': (lambda: N.CutoffNode(-1, 1, input_dim=1), 1, 0, 0),
        'poly1': (lambda: N.PolynomialExpansionNode(2, input_dim=1), 1, 0, 0),
        'lay3': (lambda: H.Layer([N.PCANode(input_dim=2, output_dim=1), N.IdentityNode(input_dim=1)]), 3, 1, 0),
        'fn2': (lambda: H.FlowNode(mdp.Flow([N.WhiteningNode(input_dim=2, output_dim=2), H.Switchboard(2, [1, 0])])), 2, 1, 1),
        'mean2': (lambda: H.MeanInverseSwitchboard(2, [0, 1, 1]), 2, 1, 1),
    }


def s_layer(ctx, depth, lo, hi):
    P = lparts()
    for seq in list(chain_cases(sorted(P), depth))[lo:hi]:
        ctx.at('layer', seq)
        d = sum(P[l][1] for l in seq)
        x = cat.data(16, 3)
        x = np.hstack([x, x[:, [1, 2, 0]] * x + .5, np.roll(x, 3, axis=0)])[:, :d]
        inv = all(P[l][2] for l in seq)
        exact = inv and all(P[l][3] for l in seq)
        layer = H.Layer([P[l][0]() for l in seq])
        info = 'Layer %s: ' % (seq,)
        check(bool(layer.is_invertible()) == inv, info + 'is_invertible() is %s' % layer.is_invertible(), sig='layer-claim')
        while layer.is_trainable() and layer.is_training():
            layer.train(x.copy())
            layer.stop_training()
        y = layer.execute(x[:5].copy())
        if not inv:
            refused(lambda: layer.inverse(y), info)
            done(ctx)
            continue
        full = 'mean2' not in seq
        judge(info, layer.execute, layer.inverse, x[:6], exact, 1e-6, 'layer', [cat.data(4, y.shape[1] if y.shape[1] < 10 else 9, shift=5)] if full and y.shape[1] < 10 else [])
        # the layer is the side-by-side combination of its parts
        z = layer.inverse(y.copy())
        a = b = 0
        for n in layer:
            check(cat.close(z[:, a:a + n.input_dim], n.inverse(y[:, b:b + n.output_dim].copy()), 1e-9), info + 'the inverse is not the inverse of the parts', sig='layer-parts')
            a += n.input_dim
            b += n.output_dim
        done(ctx)
    if depth > 1 and lo == 0:
        for l, (make, d, inv, exact) in sorted(P.items()):
            for k in (1, 2, 3, 4):
                ctx.at('clone', l, k)
                layer = H.CloneLayer(make(), k)
                x = np.hstack([np.roll(cat.data(16, 3), i, axis=0) for i in range((d * k + 2) // 3)])[:, :d * k]
                info = 'CloneLayer(%s, %d): ' % (l, k)
                check(bool(layer.is_invertible()) == bool(inv), info + 'is_invertible() is %s' % layer.is_invertible(), sig='clone-claim')
                while layer.is_trainable() and layer.is_training():
                    layer.train(x.copy())
                    layer.stop_training()
                y = layer.execute(x[:5].copy())
                if not inv:
                    refused(lambda: layer.inverse(y), info)
                else:
                    judge(info, layer.execute, layer.inverse, x[:6], exact, 1e-6, 'clone')
                done(ctx)
                same = H.SameInputLayer([make() for _ in range(k)])
                check(not same.is_invertible(), 'SameInputLayer claims to be invertible', sig='same-claim')
                xs = x[:, :d]
                while same.is_trainable() and same.is_training():
                    same.train(xs.copy())
                    same.stop_training()
                ys = same.execute(xs[:4].copy())
                refused(lambda: same.inverse(ys), 'SameInputLayer(%s x %d): ' % (l, k))
                done(ctx)
    ctx.state('layer', lo)


def s_switch(ctx, din, dout):
    """every connection list: plain, mean-inverse"""
    for con in itertools.product(range(din), repeat=dout):
        ctx.at('switch', din, con)
        perm = din == dout and len(set(con)) == din
        sb = H.Switchboard(din, list(con))
        x = cat.data(4, din)
        check(bool(sb.is_invertible()) == perm, 'Switchboard(%d, %s).is_invertible() is %s' % (din, con, sb.is_invertible()), sig='switch-claim')
        y = sb.execute(x.copy())
        check(cat.close(y, x[:, list(con)]), 'Switchboard(%d, %s) gives %s' % (din, con, y), sig='switch-exec')
        if perm:
            judge('Switchboard(%d, %s): ' % (din, con), sb.execute, sb.inverse, x, True, 1e-12, 'switch', [cat.data(4, dout, shift=1)])
        else:
            refused(lambda: sb.inverse(y), 'Switchboard(%d, %s): ' % (din, con))
        ms = H.MeanInverseSwitchboard(din, list(con))
        yy = cat.data(4, dout, shift=1)
        want = np.zeros((4, din))
        for i in range(din):
            idx = [j for j in range(dout) if con[j] == i]
            if idx:
                want[:, i] = yy[:, idx].mean(axis=1)
        check(ms.is_invertible() and cat.close(ms.inverse(yy), want), 'MeanInverseSwitchboard(%d, %s): the inverse of %s is %s instead of %s'
              % (din, con, yy, ms.inverse(yy), want), sig='mean')
        judge('MeanInverseSwitchboard(%d, %s): ' % (din, con), ms.execute, ms.inverse, x, set(con) == set(range(din)), 1e-9, 'mean')
        done(ctx, dout > 1)
    ctx.state('switch', din, dout)


SCENARIOS = dict(node=s_node, chain=s_chain, layer=s_layer, switch=s_switch)

OUTS = ('PCANode', 'PCANode/svd', 'WhiteningNode', 'SFANode', 'SFANode/bias', 'VartimeSFANode', 'FDANode', 'NIPALSNode', 'GSFANode', 'CuBICANode', 'FastICANode',
        'JADENode', 'TDSEPNode', 'ISFANode')


def cases(tier):
    thorough = tier == 'thorough'
    for n, e in sorted(cat.E.items()):
        if e.cls in APPROX:
            continue
        outs = [None]
        if n in OUTS:
            outs += [1, 2, 3] if e.cls not in ('CuBICANode', 'FastICANode', 'JADENode', 'TDSEPNode', 'ISFANode') else []
        for out in outs:
            for when in ('untrained', 'open', 'trained'):
                if when == 'open' and (e.needs_exec_arg or e.dynphases or not e.make().is_trainable()):
                    continue
                for dt in (None, 'f') if (n in OUTS or e.cls in ('NormalizeNode',)) and e.cls not in ('GSFANode', 'ISFANode', 'TDSEPNode') else (None,):
                    yield 'node', dict(entry=n, out=out, dtype=dt, when=when)
    letters = sorted(parts3())
    n3 = letters
    tot = sum(len(letters) ** k for k in (1, 2))
    for lo in range(0, tot, 40):
        yield 'chain', dict(letters=letters, depth=2, lo=lo, hi=lo + 40)
    tot = sum(len(n3) ** k for k in (1, 2, 3))
    for lo in range(len(n3) + len(n3) ** 2, tot, 60):
        yield 'chain', dict(letters=n3, depth=3, lo=lo, hi=lo + 60)
    n4 = ['pca-1', 'norm', 'perm', 'mean', 'layer', 'clone', 'fnode', 'drop'] if not thorough else [l for l in letters if l != 'poly']
    tot = sum(len(n4) ** k for k in (1, 2, 3, 4))
    for lo in range(len(n4) + len(n4) ** 2 + len(n4) ** 3, tot, 60):
        yield 'chain', dict(letters=n4, depth=4, lo=lo, hi=lo + 60)
    L = len(lparts())
    D = 4 if thorough else 3
    for lo in range(0, sum(L ** k for k in range(1, D + 1)), 60):
        yield 'layer', dict(depth=D, lo=lo, hi=lo + 60)
    M = 5 if thorough else 4
    for a in range(1, M + 1):
        for b in range(1, M + 1):
            if a ** b <= (3200 if thorough else 300):
                yield 'switch', dict(din=a, dout=b)
