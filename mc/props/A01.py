"""A01: iterative learning nodes (growing neural gas, neural gas, factor analysis) against reference models of their rules,
for every data stream, presentation order and chunking in the bounds."""
import itertools
import math
import warnings
import numpy as np
import mdp
from ..core import check

LEVEL = 'model_checking'
RULE = 'training with at least two samples'
ASSUMPTIONS = ['start positions are in general position, so that distances do not tie',
               'equal errors of units: any of them may be the one that is split',
               'factor analysis starts from one draw of normal deviates of the seeded generator with the documented scale',
               'an EM cycle whose gain is within 1e-9 of the stopping criterion may be the last one or not']
N = mdp.nodes
STARTS = {1: [.137, -.711, 1.319, .463], 2: [(.137, -.311), (-.711, .173), (1.319, .291), (.463, -1.177)]}


def worker_setup():
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')


def near(a, b, tol):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.isfinite(a).all()) and bool((abs(a - b) <= tol).all())


def done(ctx, nontrivial=True):
    ctx.execution()
    if nontrivial:
        ctx.mark(ctx.executions)


def comps(n):
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for rest in comps(n - k):
            yield (k,) + rest


def starts(dim, count):
    return [np.array(np.atleast_1d(s), 'd') for s in STARTS[dim][:count]]


class State(object):
    """units (position, error) by number, edges (age) by pair"""
    def __init__(self, units, edges):
        self.units, self.edges = units, edges

    def copy(self):
        return State(dict((k, [p.copy(), e]) for k, (p, e) in self.units.items()), dict(self.edges))

    def neighbours(self, a):
        return [x for e in self.edges if a in e for x in e if x != a]

    def ranked(self, x):
        return sorted(self.units, key=lambda k: ((self.units[k][0] - x) ** 2).sum())


def gng_step(s, x, t, p):
    """one sample of growing neural gas; several successors if errors tie"""
    s = s.copy()
    a, b = s.ranked(x)[:2]
    for e in s.edges:
        if a in e:
            s.edges[e] += 1
    s.units[a][1] += math.sqrt(((s.units[a][0] - x) ** 2).sum())
    near_a = s.neighbours(a)
    s.units[a][0] += p['eps_b'] * (x - s.units[a][0])
    for k in near_a:
        s.units[k][0] += p['eps_n'] * (x - s.units[k][0])
    s.edges[frozenset((a, b))] = 0
    for e in [e for e in s.edges if a in e and s.edges[e] > p['max_age']]:
        del s.edges[e]
        for k in e:
            if not s.neighbours(k):
                del s.units[k]
    out = [s]
    if t % p['lambda_'] == 0 and len(s.units) < p['max_nodes']:
        out = []
        top = max(e for _, e in s.units.values())
        for q in [k for k in s.units if s.units[k][1] >= top - 1e-12]:
            ns = s.neighbours(q)
            best = max(s.units[k][1] for k in ns)
            for f in [k for k in ns if s.units[k][1] >= best - 1e-12]:
                n = s.copy()
                new = 1 + max(n.units)
                del n.edges[frozenset((q, f))]
                n.edges[frozenset((q, new))] = n.edges[frozenset((f, new))] = 0
                n.units[q][1] *= p['alpha']
                n.units[f][1] *= p['alpha']
                n.units[new] = [.5 * (n.units[q][0] + n.units[f][0]), .5 * (n.units[q][1] + n.units[f][1])]
                out.append(n)
    for n in out:
        for k in n.units:
            n.units[k][1] *= p['d']
    return out


def observed(node):
    """units and edges of the graph of the node, units identified by position"""
    g = node.graph
    ids = dict((id(u), i) for i, u in enumerate(g.nodes))
    units = [(u.data.pos, u.data.cum_error) for u in g.nodes]
    edges = {}
    for e in g.edges:
        k = frozenset((ids[id(e.head)], ids[id(e.tail)]))
        check(k not in edges and len(k) == 2, 'more than one edge between two units', 'edges')
        edges[k] = e.data.age
    return units, edges


def matches(s, units, edges, tol, errors=True):
    if len(units) != len(s.units) or len(edges) != len(s.edges):
        return False
    left = dict(s.units)
    to = {}
    for i, (p, e) in enumerate(units):
        k = min(left, key=lambda k: abs(left[k][0] - p).max())
        if abs(left[k][0] - p).max() > tol or errors and abs(left[k][1] - e) > tol:
            return False
        to[i] = k
        del left[k]
    return all(s.edges.get(frozenset(to[i] for i in e)) == age for e, age in edges.items())


def show(s):
    return [sorted((k, v[0].tolist(), v[1]) for k, v in s.units.items()), sorted((sorted(e), a) for e, a in s.edges.items())]


def gng(ctx, dim, T, values, params, dtype='d', given=True):
    tol = 1e-8 if dtype == 'd' else 1e-4
    p = dict(eps_b=.2, eps_n=.006, max_age=50, lambda_=100, alpha=.5, d=.995, max_nodes=2147483647)
    p.update(params)
    for v in itertools.product(itertools.product(values, repeat=dim), repeat=T):
        X = np.array(v, 'd')
        for split in comps(T):
            done(ctx, T > 1)
            ctx.at(X.tolist(), split)
            if given:
                S = [s.astype(dtype) for s in starts(dim, 2)]
                orig = [s.copy() for s in S]
                node = N.GrowingNeuralGasNode(start_poss=S, dtype=dtype, **params)
                s = State(dict((i, [o.astype('d'), 0.]) for i, o in enumerate(orig)), {frozenset((0, 1)): 0})
            else:
                np.random.seed(7)
                first = np.random.normal(0., 1., (2, dim))
                np.random.seed(7)
                node = N.GrowingNeuralGasNode(dtype=dtype, **params)
                s = State(dict((i, [o, 0.]) for i, o in enumerate(first)), {})
            states = [s]
            data = X.astype(dtype)
            t = 0
            for k in split:
                chunk = data[t:t + k].copy()
                node.train(chunk)
                check((chunk == data[t:t + k]).all(), 'the training data was changed', 'data')
                for x in X[t:t + k]:
                    t += 1
                    states = [n for s in states for n in gng_step(s, x, t, p)]
                ctx.step()
                units, edges = observed(node)
                states = [s for s in states if matches(s, units, edges, tol)]
                check(states, 'after %d samples the graph is %s %s' % (t, [(u.tolist(), e) for u, e in units], [(sorted(k), a) for k, a in edges.items()]), 'graph')
            ctx.outcome(len(units), len(edges))
            s = states[0]
            check(node.tlen == T, '%s samples counted, should be %d' % (node.tlen, T), 'count')
            if given:
                check(all((a == b).all() for a, b in zip(S, orig)), 'the given start positions were changed', 'start positions')
            pos = node.get_nodes_position()
            check(pos.dtype == np.dtype(dtype) and near(pos, [u for u, _ in units], 0), 'positions %s' % pos, 'positions')
            check(all(u.dtype == np.dtype(dtype) for u, _ in units), 'positions are not of the dtype of the node', 'dtype')
            P = np.array(list(itertools.product((-.61, .7), repeat=dim)))
            near_nodes, dists = node.nearest_neighbor(P.astype(dtype))
            for x, u, dist in zip(P, near_nodes, dists):
                best = min(math.sqrt(((q[0] - x) ** 2).sum()) for q in s.units.values())
                check(any(u is w for w in node.graph.nodes) and abs(dist - best) < 10 * tol and abs(math.sqrt(((u.data.pos - x) ** 2).sum()) - best) < 10 * tol,
                      'nearest unit of %s at distance %s, should be %s' % (x, dist, best), 'nearest')
            check(not node.is_training(), 'still in training', 'closed')


def ng_epoch(s, X, epoch, p):
    f = min(epoch / float(p['max_epochs']), 1.)
    eps = p['epsilon_i'] * (p['epsilon_f'] / float(p['epsilon_i'])) ** f
    lam = p['lambda_i'] * (p['lambda_f'] / float(p['lambda_i'])) ** f
    age = p['max_age_i'] * (p['max_age_f'] / float(p['max_age_i'])) ** f
    for x in X:
        order = s.ranked(x)
        for rank, k in enumerate(order):
            s.units[k][0] += eps * math.exp(-rank / lam) * (x - s.units[k][0])
        for e in s.edges:
            s.edges[e] += 1
        s.edges[frozenset(order[:2])] = 0
        for e in [e for e in s.edges if s.edges[e] > age + 1e-9]:
            del s.edges[e]
    return s


def ng(ctx, dim, T, values, count, params, calls=1, given=True, dtype='d'):
    tol = 1e-8 if dtype == 'd' else 1e-4
    p = dict(epsilon_i=.3, epsilon_f=.05, lambda_i=30., lambda_f=.01, max_age_i=20, max_age_f=200, max_epochs=100)
    p.update(params)
    epochs = p.get('n_epochs_to_train') or p['max_epochs']
    orders = list(itertools.permutations(range(T)))
    old = np.random.permutation
    for v in itertools.product(itertools.product(values, repeat=dim), repeat=T):
        X = np.array(v, 'd')
        data = X.astype(dtype)
        for shown in itertools.product(orders, repeat=epochs * calls):
            done(ctx, T > 1)
            ctx.at(X.tolist(), shown)
            queue = list(shown)

            def permutation(x):
                check(queue, 'the data is presented more often than there are epochs', 'epochs')
                o = list(queue.pop(0))
                if np.ndim(x) == 0:
                    check(x == len(o), 'a permutation of %s' % x, 'epochs')
                    return np.array(o)
                return np.array(x)[o]
            if given:
                S = [s.astype(dtype) for s in starts(dim, count)]
                orig = [s.copy() for s in S]
                node = N.NeuralGasNode(start_poss=S, dtype=dtype, **params)
            else:
                np.random.seed(11)
                orig = [np.random.normal(0., 1., dim) for i in range(count)]
                np.random.seed(11)
                node = N.NeuralGasNode(num_nodes=count, dtype=dtype, **params)
            s = State(dict((i, [o.astype('d'), 0.]) for i, o in enumerate(orig)), {})
            ok = True
            try:
                np.random.permutation = permutation
                for c in range(calls):
                    node.train(data.copy())
                    for e in range(epochs):
                        o = shown[c * epochs + e]
                        s = ng_epoch(s, X[list(o)], c * epochs + e, p)
                    ctx.step()
                    units, edges = observed(node)
                    check(matches(s, units, edges, tol, errors=False), 'after call %d the graph is %s %s, should be %s' % (c, [u.tolist() for u, e in units], [(sorted(k), a) for k, a in edges.items()], show(s)), 'graph')
            finally:
                np.random.permutation = old
            check(not queue, '%d epochs were not trained' % len(queue), 'epochs')
            check(node.epoch == epochs * calls, '%s epochs counted' % node.epoch, 'count')
            ctx.outcome(len(edges))
            if given:
                check(all((a == b).all() for a, b in zip(S, orig)), 'the given start positions were changed', 'start positions')
            pos = node.get_nodes_position()
            check(pos.dtype == np.dtype(dtype) and near(pos, [u for u, _ in units], 0), 'positions %s' % pos, 'positions')


# ------------------------------------------------------------------ factor analysis
def em(X, A, sigma):
    """one cycle of EM, from the posterior of every sample; also the mean log-likelihood before it"""
    T, d = X.shape
    k = A.shape[1]
    M = A.dot(A.T) + np.diag(sigma)
    B = np.linalg.inv(M)
    lh = sum(-.5 * (d * math.log(2 * math.pi) + np.linalg.slogdet(M)[1] + x.dot(B).dot(x)) for x in X) / T
    G = A.T.dot(B)
    V = np.eye(k) - G.dot(A)
    Sxy, Syy = np.zeros((d, k)), np.zeros((k, k))
    for x in X:
        y = G.dot(x)
        Sxy += np.outer(x, y)
        Syy += V + np.outer(y, y)
    A2 = Sxy.dot(np.linalg.inv(Syy))
    s2 = np.diag(X.T.dot(X) - A2.dot(Sxy.T)) / T
    return lh, A2, s2


def factor(ctx, T, d, k, values, cycles, tol, part=0, parts=1, seeds=(1, 5)):
    for c, v in enumerate(itertools.product(values, repeat=T * d)):
        if c % parts != part:
            continue
        X = np.array(v, 'd').reshape(T, d)
        m = X.mean(0)
        C = (X - m).T.dot(X - m) / T
        det = np.linalg.det(C)
        if det < 1e-9:
            node = N.FANode(output_dim=k, max_cycles=1)
            node.train(X)
            try:
                node.stop_training()
            except Exception:
                pass
            continue
        for seed in seeds:
            for n in cycles:
                done(ctx)
                ctx.step()
                ctx.at(X.tolist(), seed, n)
                out = d if k is None else k
                np.random.seed(seed)
                A = np.random.normal(0., math.sqrt(det ** (1. / d) / out), size=(d, out))
                s = np.diag(C).copy()
                curve, ends = [], []
                Xc = X - m
                for t in range(n):
                    lh, A, s = em(Xc, A, s)
                    if t:
                        margin = (lh - curve[0]) - (1 + tol) * ((curve[-1] if t > 1 else curve[0]) - curve[0])
                        if margin < 1e-9:
                            ends.append((list(curve), A, s))
                        if margin < -1e-9:
                            break
                    curve.append(lh)
                else:
                    ends.append((curve, A, s))
                if any(x[2].min() < 1e-7 for x in ends) or s.min() < 1e-7:
                    # noise vanishes: the next cycle is not well conditioned
                    continue
                node = N.FANode(tol=tol, max_cycles=n, output_dim=k)
                j = 1 + ctx.executions % T
                node.train(X[:j].copy())
                if j < T:
                    node.train(X[j:].copy())
                np.random.seed(seed)
                node.stop_training()
                hit = [e for e in ends if near(node.A, e[1], 1e-5 * (1 + abs(e[1]).max())) and near(node.sigma, e[2], 1e-5) and near(node.lhood, e[0], 1e-6)]
                check(hit, 'after %d cycles A=%s sigma=%s lhood=%s, should be %s' % (n, node.A.tolist(), node.sigma, node.lhood, [(e[1].tolist(), e[2], e[0]) for e in ends]), 'em')
                ctx.outcome(n, len(node.lhood))
                check(all(b >= a - 1e-9 for a, b in zip(node.lhood, node.lhood[1:])), 'the likelihood decreases: %s' % node.lhood, 'likelihood')
                A, s = node.A, node.sigma
                check(near(np.ravel(node.mu), m, 1e-9) and node.tlen == T and node.output_dim == out, 'mean %s, %s samples' % (node.mu, node.tlen), 'mean')
                P = np.vstack([X, np.arange(1., d + 1)])
                y = node.execute(P)
                ref = np.linalg.solve(A.T.dot(A / s[:, None]) + np.eye(out), A.T.dot((P - m).T / s[:, None])).T
                check(near(y, ref, 1e-4 * (1 + abs(ref).max())), 'output is not the most probable cause', 'output')
                gen = node.generate_input(y)
                check(near(gen, y.dot(A.T) + m, 1e-9 * (1 + abs(gen).max())), 'generated data', 'generate')
                np.random.seed(3)
                z = np.random.normal(size=(2, out))
                e = np.random.normal(size=(2, d))
                np.random.seed(3)
                gen = node.generate_input(2, noise=True)
                check(near(gen, z.dot(A.T) + m + e * np.sqrt(s), 1e-9), 'generated noisy data', 'generate')


# ------------------------------------------------------------------ independent slow features
def contrast(covs, R, b, wica, wsfa):
    """of symmetric matrices, after Blaschke et al."""
    bsfa, bica = (-b[0] / R, b[1] / (R * (R - 1.))) if R > 1 else (-b[0], 0.)
    sfa = sum(w * (np.diag(C)[:R] ** 2).sum() for w, C in zip(wsfa, covs))
    off = sum(w * ((C[:R, :R] ** 2).sum() - (np.diag(C)[:R] ** 2).sum()) for w, C in zip(wica, covs))
    return bsfa * sfa, bica * off


def turned(covs, i, j, angle):
    n = len(covs[0])
    Q = np.eye(n)
    c, s = math.cos(angle), math.sin(angle)
    Q[i, i] = Q[j, j] = c
    Q[i, j], Q[j, i] = s, -s
    return [Q.T.dot(C).dot(Q) for C in covs]


def isfa(ctx, n, R, values, lags, coeff, weights=(None, None), form='covs', part=0, parts=1, T=None):
    """form covs: surrogate matrices; data: white data; plain: data which are whitened"""
    L = lags if isinstance(lags, int) else len(lags)
    shifts = list(range(1, L + 1)) if isinstance(lags, int) else list(lags)
    tri = n * (n + 1) // 2
    wica = [1.] * L if weights[0] is None else [float(weights[0])] * L if np.ndim(weights[0]) == 0 else [float(w) for w in weights[0]]
    wsfa = [1.] + [0.] * (L - 1) if weights[1] is None else [float(weights[1])] * L if np.ndim(weights[1]) == 0 else [float(w) for w in weights[1]]
    angles = [k * math.pi / 36 for k in range(1, 36)]
    for count, v in enumerate(itertools.product(values, repeat=tri * L if form == 'covs' else T * n)):
        if count % parts != part:
            continue
        white = None
        if form == 'covs':
            covs = []
            for t in range(L):
                C = np.zeros((n, n))
                C[np.triu_indices(n)] = v[t * tri:(t + 1) * tri]
                covs.append((C + np.triu(C, 1).T) / 4.)
            X = np.eye(max(n, max(shifts) + 3))[:, :n].copy()
        else:
            X = np.array(v, 'd').reshape(T, n)
            M = X - X.mean(0)
            l, W = np.linalg.eigh(M.T.dot(M) / (T - 1))
            if l.min() < 1e-9 or form == 'plain' and (np.diff(l) < 1e-6).any():
                continue
            W = (W / np.sqrt(l))[:, ::-1]
            if form == 'data':
                X = M.dot(W)
                W = np.eye(n)
            covs = []
            for s in shifts:
                a, b = X[:-s], X[s:]
                C = W.T.dot((a - a.mean(0)).T.dot(b - b.mean(0)) / (len(a) - 1)).dot(W)
                covs.append((C + C.T) / 2)
        b = [float(c) for c in coeff]
        start = contrast(covs, R, b, wica, wsfa)
        if abs(sum(start)) < 1e-9:
            continue
        done(ctx, n > 1)
        ctx.at(v, lags, coeff)
        kw = {} if form == 'plain' else dict(whitened=True)
        RP = None
        if form != 'plain' and ctx.executions % 3 == 0:
            RP = np.eye(n)[::-1].copy()
            start = contrast([C[::-1, ::-1] for C in covs], R, b, wica, wsfa)
            if abs(sum(start)) < 1e-9:
                continue
        node = N.ISFANode(lags=lags, sfa_ica_coeff=coeff, icaweights=weights[0], sfaweights=weights[1], output_dim=R, RP=RP, max_iter=2000, **kw)
        np.random.seed(5)
        node.train(X.copy())
        if form == 'covs':
            given = mdp.utils.MultipleCovarianceMatrices([C.copy() for C in covs])
            kept = given.covs.copy()
            node.stop_training(covs=given)
            check((given.covs == kept).all(), 'the given matrices were changed', 'changed')
        elif form == 'data' and ctx.executions % 2:
            mats = [mdp.utils.DelayCovarianceMatrix(s, dtype='d') for s in shifts]
            for m in mats:
                m.update(X.copy())
            node.stop_training(covs=mats)
        else:
            node.stop_training()
        Q = node.RPC
        ctx.state(n, R, tuple(np.round(Q, 3).ravel()) if n < 3 else len(set(np.round(abs(Q), 3).ravel())))
        check(Q.shape == (n, n) and near(Q.T.dot(Q), np.eye(n), 1e-8), 'no rotation: %s' % Q.tolist(), 'orthogonal')
        check(node.RP.shape == (n, R) and node.output_dim == R and sorted(map(tuple, np.round(node.RP.T, 9))) == sorted(map(tuple, np.round(Q[:, :R].T, 9))), 'filters are not the first columns of the rotation', 'filters')
        new = [Q.T.dot(C).dot(Q) for C in covs]
        end = contrast(new, R, b, wica, wsfa)
        for name, ref in (('initial_contrast', start), ('final_contrast', end)):
            got = getattr(node, name)
            check(near([got['SFA'], got['ICA'], got['TOT']], [ref[0], ref[1], sum(ref)], 1e-7), '%s %s, should be %s' % (name, got, ref), name)
        check(near(node.covs.covs, np.array(new).transpose(1, 2, 0), 1e-7), 'matrices after the rotation', 'covariances')
        check(sum(end) <= sum(start) + 1e-9, 'the contrast rises from %s to %s' % (sum(start), sum(end)), 'rises')
        ctx.outcome(n, R, sum(end) < sum(start) - 1e-6)
        d = [p.dot(covs[0]).dot(p) for p in node.RP.T]
        check(all(x >= y - 1e-8 for x, y in zip(d, d[1:])), 'components are not ordered by slowness: %s' % d, 'order')
        margin = 1e-3 * abs(sum(end)) + 1e-6
        if abs(sum(end)) > 1e-6:
            for i in range(R):
                for j in range(i + 1, n):
                    for a in angles:
                        c = sum(contrast(turned(new, i, j, a), R, b, wica, wsfa))
                        check(c >= sum(end) - margin, 'a rotation of components %d and %d by %.3f improves the contrast from %s to %s' % (i, j, a, sum(end), c), 'optimum')
        y = node.execute(X)
        ref = (X - X.mean(0)).dot(W).dot(node.RP) if form == 'plain' else X.dot(node.RP)
        if form == 'plain':
            # signs of the whitened components are arbitrary
            C = y.T.dot(y) / (T - 1)
            check(near(C, np.eye(R), 1e-6) and near(y, (X - X.mean(0)).dot(node.white.get_projmatrix()).dot(node.RP), 1e-8), 'output', 'output')
        else:
            check(near(y, ref, 1e-9), 'output', 'output')
        if R == n:
            check(near(node.inverse(y), X, 1e-6), 'the inverse does not give the data back', 'inverse')


SCENARIOS = {'isfa': isfa, 'gng': gng, 'ng': ng, 'factor': factor}


def cases(tier):
    th = tier == 'thorough'
    for coeff in ((1., 1.), (1, 1), (1., 0.), (0., 1.), (1., 3.)):
        for n, R, vals, lags in ((2, 1, (-1, 0, 1, 2), 1), (2, 2, (-1, 0, 1, 2), 1), (2, 2, (-1, 0, 2), 2), (3, 1, (-1, 0, 1), 1), (3, 2, (-1, 0, 1), 1), (3, 3, (-1, 0, 1), 1)):
            if coeff[0] == 0 and R == 1:
                continue
            k = 8 if n == 3 else 1
            for part in range(k if th else 1):
                yield 'isfa', dict(n=n, R=R, values=vals, lags=lags, coeff=coeff, part=part, parts=k)
        yield 'isfa', dict(n=2, R=2, values=(-1, 0, 2), lags=[1, 3], coeff=coeff, weights=((1., 2.), (1, .5)), part=0, parts=1 if th else 2)
        yield 'isfa', dict(n=2, R=2, values=(-1, 0, 2), lags=(1, 2), coeff=coeff, weights=(1, 1), part=0, parts=1 if th else 2)
        yield 'isfa', dict(n=2, R=2, values=(0, 1), lags=2, coeff=coeff, form='data', T=5)
        yield 'isfa', dict(n=2, R=2, values=(0, 1), lags=1, coeff=coeff, form='plain', T=5)
        if coeff[0]:
            yield 'isfa', dict(n=2, R=1, values=(0, 1), lags=1, coeff=coeff, form='data', T=5)
    fast = dict(lambda_=2, max_age=2, eps_b=.3, eps_n=.1)
    for par in (dict(), fast, dict(fast, max_age=1), dict(fast, max_age=0), dict(fast, lambda_=3, max_nodes=3), dict(fast, alpha=.25, d=.5), dict(fast, lambda_=1, max_nodes=4), dict(fast, eps_b=.9, eps_n=.5, lambda_=1, max_age=1)):
        yield 'gng', dict(dim=1, T=4, values=(-1., 0., 1.5), params=par)
        yield 'gng', dict(dim=2, T=3, values=(-1., 1.5), params=par)
        yield 'gng', dict(dim=1, T=6 + th, values=(-1., 1.5) if not th else (-1., 0., 1.5)[::2], params=par)
        yield 'gng', dict(dim=1, T=3, values=(-1., 0., 1.5), params=par, given=False)
        yield 'gng', dict(dim=1, T=3, values=(-1., 0., 1.5), params=par, dtype='f')
        if th:
            yield 'gng', dict(dim=1, T=5, values=(-1., 0., 1.5), params=par)
            yield 'gng', dict(dim=2, T=4, values=(-1., 1.5), params=par)
    for par in (dict(max_epochs=2), dict(max_epochs=2, lambda_i=2, lambda_f=1, max_age_i=1, max_age_f=3), dict(max_epochs=2, max_age_i=2, max_age_f=1, epsilon_i=1, epsilon_f=.5),
                dict(max_epochs=2, lambda_i=3., lambda_f=.5, max_age_i=1, max_age_f=1)):
        for count in (2, 3, 4):
            yield 'ng', dict(dim=1, T=2, values=(-1., 0., 1.5), count=count, params=par)
            yield 'ng', dict(dim=1, T=3, values=(-1., 1.5), count=count, params=par)
            yield 'ng', dict(dim=2, T=2, values=(-1., 1.5), count=count, params=par)
            yield 'ng', dict(dim=1, T=2, values=(-1., 1.5), count=count, params=dict(par, max_epochs=4, n_epochs_to_train=1), calls=6 if th else 5)
            yield 'ng', dict(dim=1, T=2, values=(-1., 1.5), count=count, params=par, given=False)
            yield 'ng', dict(dim=1, T=2, values=(-1., 1.5), count=count, params=par, dtype='f')
            if th:
                yield 'ng', dict(dim=1, T=3, values=(-1., 0., 1.5), count=count, params=dict(par, max_epochs=3))
                yield 'ng', dict(dim=1, T=4, values=(-1., 1.5), count=count, params=dict(par, max_epochs=2))
    for T, d, k, vals in ((3, 1, 1, (-1, 0, 2)), (4, 2, 1, (0, 1, 3)), (3, 2, None, (-1, 0, 2)), (3, 2, 1, (-1, 0, 2)), (4, 3, 2, (0, 1)), (4, 3, 1, (0, 1))):
        big = 16 if len(vals) ** (T * d) > 4000 else 1
        for tol in (1e-4, .5):
            for part in range(2 if big > 1 and not th else big):
                yield 'factor', dict(T=T, d=d, k=k, values=vals, cycles=(1, 2, 3, 6) if tol < .1 else (4,), tol=tol, part=part * (7 if big > 1 and not th else 1), parts=big)
