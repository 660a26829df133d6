"""D01: gradients of bidirectional networks against exact differences (all maps are polynomials)."""
import itertools
import warnings
import numpy as np
import mdp
import bimdp
from ..core import check

LEVEL = 'model_checking'
RULE = 'networks of at least two parts, or with a quadratic part'
ASSUMPTIONS = ['the networks are polynomials of degree up to eight, for which the nine-point difference formula is exact (relative tolerance 1e-6)',
               'ordinary nodes in a bidirectional flow do not take part in messages (documented), so every part is bidirectional']
H = bimdp.hinet
B = bimdp.nodes


def worker_setup():
    warnings.simplefilter('ignore')


def data(w):
    n = 30 + 4 * w * (w + 3)
    t = np.arange(1., n + 1)
    return np.stack([np.sin(t * (.3 + .37 * i)) + .2 * np.cos(t * (1.1 + i)) for i in range(w)], 1)


def trained(node, w):
    node.train(data(w))
    while node.is_training():
        node.stop_training()
    return node


def fitted(flow, w):
    flow.train([data(w) if n.is_training() else None for n in flow])
    return flow


def part(c, w):
    """a bidirectional node for w inputs"""
    if c == 'I':
        return B.IdentityBiNode(input_dim=w)
    if c == 'S':
        return trained(B.SFABiNode(input_dim=w, output_dim=max(w - 1, 1)), w)
    if c == 's':
        return trained(B.SFABiNode(input_dim=w), w)
    if c == 'Q':
        return B.QuadraticExpansionBiNode(input_dim=w)
    if c == '2':
        return trained(B.SFA2BiNode(input_dim=w, output_dim=min(w, 2)), w)
    if c == 'B':
        return H.BiSwitchboard(input_dim=w, connections=[w - 1] + list(range(w)) + [0])
    if c == 'b':
        return H.BiSwitchboard(input_dim=w, connections=[w - 1])
    if c in 'Cc':
        n = 2 if w % 2 == 0 else 3 if w % 3 == 0 else 1
        return trained(H.CloneBiLayer(B.SFA2BiNode(input_dim=w // n, output_dim=1) if c == 'C' else B.SFABiNode(input_dim=w // n), n, use_copies=c == 'c'), w)
    if c == 'F':
        return H.BiFlowNode(fitted(bimdp.BiFlow([B.SFABiNode(input_dim=w), B.IdentityBiNode(), B.QuadraticExpansionBiNode()]), w), input_dim=w, output_dim=w * (w + 3) // 2)
    if c == 'G':
        n = 2 if w % 2 == 0 else 3 if w % 3 == 0 else 1
        inner = H.BiFlowNode(fitted(bimdp.BiFlow([B.SFABiNode(input_dim=w // n), B.SFA2BiNode(output_dim=1)]), w // n), input_dim=w // n, output_dim=1)
        return H.CloneBiLayer(inner, n)
    raise KeyError(c)


# weights of the central difference of order eight
STENCIL = ((1, 4. / 5), (2, -1. / 5), (3, 4. / 105), (4, -1. / 280))


def jacobian(f, x, h=.25):
    cols = []
    for j in range(x.shape[1]):
        e = np.zeros(x.shape[1])
        e[j] = h
        cols.append(sum(c * (f(x + k * e) - f(x - k * e)) for k, c in STENCIL) / h)
    return np.stack(cols, 2)


def near(a, b):
    return a.shape == b.shape and bool((abs(a - b) <= 1e-6 * max(1, abs(b).max() if b.size else 1)).all())


def points(w, n):
    return np.array([[((3 * i + 5 * j + i * j) % 7 - 3) / 4. for j in range(w)] for i in range(n)])


def only_y(r):
    return r[0] if isinstance(r, tuple) else r


def build(kinds, w):
    nodes = []
    for c in kinds:
        nodes.append(part(c, w))
        w = only_y(nodes[-1].execute(points(w, 1))).shape[1]
    return nodes


def chains(ctx, kinds, w):
    """the gradient of every chain, for batches of every size, requested and continued in every way"""
    nodes = build(kinds, w)
    flow = bimdp.BiFlow(nodes)
    f = lambda v: only_y(flow.execute(v))
    for rows in (1, 2, 3):
        ctx.at(kinds, w, rows)
        x = points(w, rows)
        y = f(x)
        exact = jacobian(f, x)
        where = 'chain %s of %d inputs, %d rows: ' % (kinds, w, rows)
        with mdp.extension('gradient'):
            keep = x.copy()
            r = flow.execute(x, {'method': 'gradient'})
            check(isinstance(r, tuple) and len(r) == 2 and 'grad' in r[1], lambda: where + 'result %r' % (r,), 'no-gradient')
            check(np.allclose(r[0], y), where + 'the data result differs', 'data')
            check((x == keep).all(), where + 'the data was changed', 'argument')
            check(near(r[1]['grad'], exact), lambda: where + 'gradient %s instead of %s' % (r[1]['grad'].tolist(), exact.tolist()), 'gradient')
            ctx.step()
            # continued from an earlier gradient
            g0 = np.array([[[(i + 2 * j + k) % 5 - 2. for k in range(2)] for j in range(w)] for i in range(rows)])
            r = flow.execute(x, {'method': 'gradient', 'grad': g0.copy()})
            check(near(r[1]['grad'], exact @ g0), lambda: where + 'continued gradient %s instead of %s' % (r[1]['grad'].tolist(), (exact @ g0).tolist()), 'continued')
            # node by node
            v, g = x, None
            for n in nodes:
                m = {'method': 'gradient'}
                if g is not None:
                    m['grad'] = g
                v, m = n.execute(v, m)
                g = m['grad']
                ctx.step()
            check(near(g, exact) and np.allclose(v, y), where + 'the product of the gradients of the nodes differs', 'product')
            # the nodes still do what they did
            check(np.allclose(f(x), y), where + 'execution differs while gradients are available', 'execute-active')
        check(np.allclose(f(x), y), where + 'execution differs afterwards', 'execute-after')
        try:
            flow.execute(x, {'method': 'gradient'})
            bad = True
        except mdp.MDPException:
            bad = False
        check(not bad, where + 'gradient without the extension', 'not-active')
        ctx.execution()
        ctx.outcome(exact.shape)
        if len(kinds) > 1 or kinds in 'Q2CF':
            ctx.mark(kinds, w, rows)
    ctx.state(kinds, w)


LP = [lambda w: mdp.nodes.IdentityNode(input_dim=w), lambda w: trained(mdp.nodes.SFANode(input_dim=w), w), lambda w: trained(mdp.nodes.SFA2Node(input_dim=w, output_dim=min(2, w)), w), lambda w: mdp.nodes.QuadraticExpansionNode(input_dim=w)]


def layers(ctx, widths, nested):
    """layers of all combinations of nodes (block gradients)"""
    for pick in itertools.product(range(len(LP)), repeat=len(widths)):
        ctx.at(widths, pick)
        nodes = [LP[i](w) for i, w in zip(pick, widths)]
        for n in nodes:
            n.execute(points(n.input_dim, 1))
        if nested:
            nodes = [mdp.hinet.Layer(nodes[:2])] + nodes[2:]
        layer = mdp.hinet.Layer(nodes)
        x = points(sum(widths), 3)
        y = layer.execute(x)
        exact = jacobian(layer.execute, x)
        with mdp.extension('gradient'):
            v, m = layer._gradient(x)
            check(np.allclose(v, y) and near(m['grad'], exact), lambda: 'layer of %s, widths %s, nested %s: gradient %s instead of %s' % (pick, widths, nested, m['grad'].tolist(), exact.tolist()), 'layer')
        ctx.step()
        ctx.execution()
        if len(widths) > 1:
            ctx.mark(pick, widths)
    ctx.state(widths, nested)


def switchboards(ctx, w, n):
    """every list of connections"""
    for con in itertools.product(range(w), repeat=n):
        ctx.at(w, con)
        s = H.BiSwitchboard(input_dim=w, connections=list(con))
        q = B.QuadraticExpansionBiNode(input_dim=w)
        x = points(w, 2)
        for front in (False, True):
            flow = bimdp.BiFlow([q, H.BiSwitchboard(input_dim=w * (w + 3) // 2, connections=list(con))] if front else [s])
            exact = jacobian(lambda v: only_y(flow.execute(v)), x)
            with mdp.extension('gradient'):
                v, m = flow.execute(x, {'method': 'gradient'})
            check(near(m['grad'], exact), lambda: 'connections %s of %d inputs: gradient %s instead of %s' % (con, w, m['grad'].tolist(), exact.tolist()), 'switchboard')
            ctx.step()
        ctx.execution()
        if n > 1:
            ctx.mark(w, con)
    ctx.state(w, n)


def refused(ctx):
    """nodes in training, and nodes whose gradient is not known"""
    x = points(2, 2)
    for cls in (B.SFABiNode, B.SFA2BiNode):
        for fed in (False, True):
            n = cls(input_dim=2)
            if fed:
                n.train(data(2))
            with mdp.extension('gradient'):
                try:
                    n.execute(x, {'method': 'gradient'})
                    bad = True
                except mdp.TrainingException:
                    bad = False
            check(not bad and n.is_training(), '%s in training, fed %s: gradient given or training closed' % (cls.__name__, fed), 'training')
            ctx.step()
    for cls, k in ((B.PCABiNode, {}), (B.PolynomialExpansionBiNode, dict(degree=3)), (B.TimeFramesBiNode, dict(time_frames=2)), (B.CutoffBiNode, dict(lower_bound=0))):
        n = cls(input_dim=2, **k)
        if n.is_trainable():
            trained(n, 2)
        with mdp.extension('gradient'):
            try:
                r = n.execute(x, {'method': 'gradient'})
                f = lambda v: only_y(n.execute(v))
                ok = near(r[1]['grad'], jacobian(f, x))
            except (NotImplementedError, mdp.MDPException):
                ok = True
        check(ok, '%s: wrong gradient instead of a refusal' % cls.__name__, 'unknown')
        ctx.step()
        ctx.execution()
        ctx.mark(cls.__name__)
    ctx.state('refused')


SCENARIOS = dict(chains=chains, layers=layers, switchboards=switchboards, refused=refused)


def degree(kinds):
    d = 1
    for c in kinds:
        d *= 2 if c in 'Q2CFG' else 1
    return d


def cases(tier):
    th = tier == 'thorough'
    letters = 'ISsQ2BbCcFG'
    for n in (1, 2, 3) if not th else (1, 2, 3, 4):
        for kinds in itertools.product(letters if n < 4 else 'IS2BCF', repeat=n):
            k = ''.join(kinds)
            if degree(k) > (8 if n < 4 else 4) or sum(c in 'QF' for c in k) > 1:
                continue
            for w in (2, 3, 4) if n < 3 else (2, 3) if th else (3,):
                yield 'chains', dict(kinds=k, w=w)
    for widths in ((1,), (2,), (3,), (1, 2), (2, 1), (2, 2), (3, 1), (1, 1, 2), (2, 1, 1), (1, 2, 1)) + (((2, 2, 2), (1, 3, 2)) if th else ()):
        for nested in (False, True):
            yield 'layers', dict(widths=widths, nested=nested)
    for w in (1, 2, 3, 4):
        for n in range(1, 5 if th or w < 4 else 4):
            yield 'switchboards', dict(w=w, n=n)
    yield 'refused', {}
