"""C02: classifiers against their rules, for every labelling, order, chunking and container of the labels."""
import itertools
import random
import warnings
import numpy as np
import mdp
import bimdp
from ..core import check, Violation

LEVEL = 'model_checking'
RULE = 'training set with at least two labels, or history with at least two training calls'
ASSUMPTIONS = ['where the rule leaves ties (equal distances, equal votes, equal probabilities) every tied label is accepted',
               'classifiers without probabilities refuse prob, rank and the corresponding execution modes with NotImplementedError',
               'the label of LibSVMClassifier is the one of the library, which need not be the most probable one; its probabilities come from a randomised cross-validation and are only checked to be a distribution over the (integer) labels',
               'labels in one training set are of one kind (numbers or strings)']
N = mdp.nodes


def worker_setup():
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')


def done(ctx, nontrivial=True):
    ctx.execution()
    if nontrivial:
        ctx.mark(ctx.executions)


def comps(n):
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for rest in comps(n - k):
            yield (k,) + rest


# ------------------------------------------------------------------ rules (written from the definitions)
def dist2(a, b):
    return sum((u - v) ** 2 for u, v in zip(a, b))


def mean(rows):
    return [sum(c) / float(len(rows)) for c in zip(*rows)]


def rule_nearest(rows, labels, q):
    d = {}
    for l in set(labels):
        d[l] = dist2(q, mean([r for r, m in zip(rows, labels) if m == l]))
    m = min(d.values())
    return {l for l in d if d[l] <= m + 1e-9}


def rule_knn(k, rows, labels, q):
    ds = sorted((dist2(q, r), l) for r, l in zip(rows, labels))
    if k >= len(ds):
        sets = [[l for _, l in ds]]
    else:
        dk = ds[k - 1][0]
        sure = [l for d, l in ds if d < dk - 1e-9]
        tied = [l for d, l in ds if abs(d - dk) <= 1e-9]
        sets = [sure + list(c) for c in set(itertools.combinations(tied, k - len(sure)))]
    out = set()
    for s in sets:
        m = max(s.count(l) for l in s)
        out |= {l for l in s if s.count(l) == m}
    return out


def rule_gauss(rows, labels, q):
    """posterior of every label, in logarithms"""
    logp = {}
    for l in set(labels):
        X = np.array([r for r, m in zip(rows, labels) if m == l], dtype='d')
        mu = X.mean(0)
        S = (X - mu).T.dot(X - mu) / (len(X) - 1)
        dlt = np.array(q) - mu
        logp[l] = np.log(len(X) / float(len(rows))) - .5 * np.log(np.linalg.det(S)) - .5 * dlt.dot(np.linalg.solve(S, dlt))
    m = max(logp.values())
    tot = sum(np.exp(v - m) for v in logp.values())
    return {l: np.exp(v - m) / tot for l, v in logp.items()}


def rule_markov(rows, labels, q):
    same = [l for r, l in zip(rows, labels) if tuple(r) == tuple(q)]
    if not same:
        return {}
    return {l: same.count(l) / float(len(same)) for l in set(labels)}


def rule_perceptron(rows, labels, dim):
    w, b = [1.] * dim, 0.
    for r, l in zip(rows, labels):
        s = sum(u * v for u, v in zip(w, r)) + b
        rate = .1 * (l - np.sign(s))
        w = [u + rate * v for u, v in zip(w, r)]
        b += rate
    return w, b


# ------------------------------------------------------------------ presenting a training set
CONT = {'list': list, 'tuple': tuple, 'array': np.array}


def plans(n, labels, limit_containers):
    """every chunking, and for every chunk a container; single labels where the chunk has one label"""
    for split in comps(n):
        opts, p = [], 0
        for s in split:
            o = ['list', 'tuple', 'array']
            if len(set(labels[p:p + s])) == 1:
                o.append('single')
            opts.append(o)
            p += s
        if limit_containers:
            # the first chunk meets all containers, the others follow in turn
            for i in range(max(map(len, opts))):
                yield split, tuple(o[(i + j) % len(o)] for j, o in enumerate(opts))
        else:
            for c in itertools.product(*opts):
                yield split, c


def feed(node, rows, labels, split, conts, dtype='d', cyc=0):
    p = 0
    for s, c in zip(split, conts):
        x = np.array(rows[p:p + s], dtype=dtype)
        ls = list(labels[p:p + s])
        arg = ls[0] if c == 'single' else CONT[c](ls)
        keep = x.copy()
        node.train(x, arg)
        check((x == keep).all() and (c == 'single' or list(arg) == ls), 'training changed its arguments', 'argument-changed')
        p += s


def norm(l):
    """a label as a plain Python value"""
    return l.item() if isinstance(l, np.generic) else l


def labels_of(node, X):
    return [norm(l) for l in np.asarray(node.label(X), dtype=object).ravel()] if not isinstance(node.label(X), list) else [norm(l) for l in node.label(X)]


def check_probs(where, probs, want, tol=1e-7):
    for i, (p, w) in enumerate(zip(probs, want)):
        p = {norm(k): v for k, v in p.items()}
        check(set(p) == set(w), where + 'probabilities for the labels %s, expected %s' % (sorted(p), sorted(w)), 'prob-labels')
        check(all(abs(p[l] - w[l]) <= tol for l in w), where + 'probabilities %s instead of %s' % (p, w), 'prob')
        if w:
            check(abs(sum(p.values()) - 1) < max(tol, 1e-9), where + 'probabilities sum to %r' % sum(p.values()), 'prob-sum')
    check(len(probs) == len(want), where + '%d probability tables for %d points' % (len(probs), len(want)), 'prob-count')


def check_rank(where, node, X, probs):
    for thr in (None, 0, .3, .5, 1.):
        rank = node.rank(X) if thr is None else node.rank(X, threshold=thr)
        check(len(rank) == len(probs), where + '%d rankings for %d points' % (len(rank), len(probs)), 'rank-count')
        for r, p in zip(rank, probs):
            want = sorted((v for v in p.values() if thr is None or v > thr), reverse=True)
            check(sorted(map(str, r)) == sorted(str(k) for k, v in p.items() if thr is None or v > thr), where + 'ranking %s (threshold %s) of %s' % (r, thr, p), 'rank-labels')
            check([p[k] for k in r] == want, where + 'ranking %s of %s is not ordered' % (r, p), 'rank-order')


LABELSETS = {'int': [0, 1, 2], 'neg': [-3, 5, 10], 'str': ['b', 'a', 'longer'], 'float': [1.5, -.5, 2.], 'bool': [True, False, True]}
POINTS = {'line': [[0.], [1.], [3.], [4.], [8.]], 'plane': [[0., 0], [2, 0], [0, 2], [3, 3], [1, -1]], 'dup': [[0., 1], [0., 1], [2, 2], [2, 2], [-1, 0]]}
QUERY = {1: [[-1.], [.5], [2.], [3.5], [6.], [9.]], 2: [[0., 0], [1, 1], [2.5, 1], [-1, 2], [3, -1], [0, 1]]}


def trainingsets(points, kind, n, orders):
    rows0 = POINTS[points][:n]
    ls = LABELSETS[kind]
    m = 2 if kind == 'bool' else 3
    for lab in itertools.product(range(m), repeat=n):
        perms = list(itertools.permutations(range(n))) if orders == 'all' else [tuple(range(n)), tuple(range(n))[::-1], tuple(range(1, n)) + (0,)]
        for perm in sorted(set(perms)):
            yield [rows0[i] for i in perm], [ls[lab[i]] for i in perm]


def supervised(ctx, clf, points, kind, n, orders, k=None):
    """nearest mean, k nearest neighbours and Markov classifiers"""
    dim = len(POINTS[points][0])
    for rows, labels in trainingsets(points, kind, n, orders):
        Q = QUERY[dim] + rows
        if clf == 'nearest':
            want = [rule_nearest(rows, labels, q) for q in Q]
            make = N.NearestMeanClassifier
        elif clf == 'knn':
            want = [rule_knn(k, rows, labels, q) for q in Q]
            make = lambda: N.KNNClassifier(k=k)
        else:
            want = [rule_markov(rows, labels, q) for q in Q]
            make = N.SimpleMarkovClassifier
        for split, conts in plans(n, labels, n > 3):
            ctx.at(clf, rows, labels, split, conts)
            where = '%s rows %s labels %s chunks %s as %s: ' % (clf, rows, labels, split, conts)
            node = make()
            feed(node, rows, labels, split, conts)
            node.stop_training()
            X = np.array(Q)
            ctx.step(len(split))
            if clf == 'markov':
                probs = node.prob(X)
                check_probs(where, probs, want)
                check_rank(where, node, X, probs)
            else:
                got = node.label(X)
                check(len(got) == len(Q), where + '%d labels for %d points' % (len(got), len(Q)), 'label-count')
                for q, g, w in zip(Q, got, want):
                    check(norm(g) in w, where + 'label of %s is %r instead of %s' % (q, g, sorted(w)), 'label')
                if len(split) == 1:
                    one = [node.label(X[i:i + 1])[0] for i in range(len(X))]
                    check(all(norm(a) in w for a, w in zip(one, want)), where + 'labels differ point by point', 'label-single')
            done(ctx, len(set(labels)) > 1 or len(split) > 1)
        ctx.state((clf, points, tuple(labels)))


GROWS = {0: [[0., 0], [1, 0], [0, 1], [1, 2]], 1: [[4., 4], [5, 4], [4, 6], [6, 5]], 2: [[-3., 1], [-4, 1], [-3, 3]]}


def gaussian(ctx, kind, sizes, first, dtype):
    """every interleaving of the classes, every chunking"""
    ls = LABELSETS[kind]
    rows0 = [(r, c) for c, s in enumerate(sizes) for r in GROWS[c][:s]]
    total = len(rows0)
    Q = [[0., 0], [1, 1], [4, 4], [-3, 2], [2, 2], [.5, .5], [50., 50.], [-60., 40], [400., -300.]]
    for order in sorted(set(itertools.permutations([c for _, c in rows0]))):
        if order[0] != first:
            continue
        idx = {c: 0 for c in range(3)}
        rows, labels = [], []
        for c in order:
            rows.append(GROWS[c][idx[c]])
            labels.append(ls[c])
            idx[c] += 1
        want = [rule_gauss(rows, labels, q) for q in Q]
        for split, conts in plans(total, labels, True):
            if conts[0] not in ('list', 'single') and len(split) not in (1, 2, total):
                continue
            ctx.at(rows, labels, split, conts)
            where = 'gaussian rows %s labels %s chunks %s as %s: ' % (rows, labels, split, conts)
            node = N.GaussianClassifier(dtype=dtype)
            feed(node, rows, labels, split, conts)
            node.stop_training()
            ctx.step(len(split))
            X = np.array(Q)
            probs = node.prob(X)
            check_probs(where, probs, want, 1e-3 if dtype == 'f' else 1e-7)
            lab = node.label(X)
            for l, p, w in zip(lab, probs, want):
                check(p[l] == max(p.values()), where + 'label %r is not the most probable one in %s' % (l, p), 'label-prob')
                check(w[norm(l)] >= max(w.values()) - 1e-3, where + 'label %r for posterior %s' % (l, w), 'label')
            check(len(lab) == len(Q), where + 'number of labels', 'label-count')
            if len(split) == 1:
                check_rank(where, node, X, probs)
                cp = node.class_probabilities(X)
                check(cp.shape == (len(Q), len(set(labels))) and all(abs(cp[i, j] - probs[i][l]) < 1e-12 for i in range(len(Q)) for j, l in enumerate(node.labels)), where + 'class_probabilities and prob differ', 'class-probs')
            done(ctx)
        ctx.state(order)


def perceptron(ctx, n, first):
    """every sequence of samples and labels"""
    S = [[0., 1], [1, 0], [-1, 1], [2, -1], [0, 0]]
    cases = [(s, l) for s in range(len(S)) for l in (1, -1)]
    Q = np.array([[0., 0], [1, 1], [-1, 0], [0, -2], [3, 1], [-.5, -.25]])
    for seq in itertools.product(cases, repeat=n - 1):
        seq = (cases[first],) + seq
        rows, labels = [S[s] for s, _ in seq], [l for _, l in seq]
        w, b = rule_perceptron(rows, labels, 2)
        vals = [q[0] * w[0] + q[1] * w[1] + b for q in Q]
        for split, conts in plans(n, labels, True):
            if conts[0] not in ('list', 'single') and len(split) != 1:
                continue
            ctx.at(rows, labels, split, conts)
            node = N.PerceptronClassifier()
            feed(node, rows, labels, split, conts)
            node.stop_training()
            ctx.step(n)
            got = node.label(Q)
            where = 'perceptron rows %s labels %s chunks %s as %s: ' % (rows, labels, split, conts)
            check(len(got) == len(Q), where + 'number of labels', 'label-count')
            for g, v in zip(got, vals):
                check(abs(v) < 1e-9 or g == np.sign(v), where + 'label %r where the activation is %r' % (g, v), 'label')
            check(np.allclose(node.weights, w) and abs(node.offset_weight - b) < 1e-9, where + 'weights %s, %s instead of %s, %s' % (node.weights, node.offset_weight, w, b), 'weights')
            done(ctx, n > 1)
    ctx.state(n)


def signum(ctx, dim):
    n = N.SignumClassifier()
    rows = list(itertools.product((-2., -1., 0., 1., 3.), repeat=dim))
    for dtype in 'dfil':
        X = np.array(rows, dtype=dtype)
        got = N.SignumClassifier().label(X)
        ctx.at(dim, dtype)
        for r, g in zip(rows, got):
            s = sum(r)
            check(g == (s > 0) - (s < 0), 'signum of %s is %r' % (r, g), 'label')
            ctx.step()
            done(ctx)
    ctx.state(dim)


# ------------------------------------------------------------------ Hopfield
def hop_weights(pats, dim):
    W = [[0.] * dim for _ in range(dim)]
    for p in pats:
        s = [1 if v else -1 for v in p]
        for i in range(dim):
            for j in range(dim):
                if i != j:
                    W[i][j] += s[i] * s[j] / float(dim)
    return W


def hop_run(W, x, thr, orders):
    s = [1 if v else -1 for v in x]
    k = 0
    while True:
        changed = False
        for row in orders[min(k, len(orders) - 1)]:
            a = sum(w * v for w, v in zip(W[row], s)) - thr[row]
            new = (a > 1e-12) - (a < -1e-12)
            if new and new != s[row]:
                s[row] = new
                changed = True
        k += 1
        if not changed:
            return tuple(v > 0 for v in s), k


def hopfield(ctx, dim, npat, sweeps):
    """every pattern set, every input, every update order of the first sweeps"""
    states = list(itertools.product((False, True), repeat=dim))
    perms = list(itertools.permutations(range(dim)))
    for pats in itertools.combinations_with_replacement(states, npat):
        for order in sorted(set(itertools.permutations(pats))):
            W = hop_weights(order, dim)
            for split in comps(npat):
                node = N.DiscreteHopfieldClassifier()
                p = 0
                for s in split:
                    node.train(np.array(order[p:p + s]))
                    p += s
                node.stop_training()
                check(node.load_parameter == npat / float(dim) and node.memory_size == dim, 'load parameter', 'load')
                if order == pats and len(split) == 1:
                    for thr in (0, .3, np.linspace(-.5, .5, dim)):
                        t = [float(v) for v in (np.zeros(dim) + thr)]
                        node._shuffled_update = False
                        got = node.label(np.array(states), threshold=thr)
                        for x, g in zip(states, got):
                            ctx.at(order, x, str(thr))
                            want, _ = hop_run(W, x, t, [perms[0]])
                            check(tuple(g) == want, 'patterns %s, input %s, threshold %s: %s instead of %s' % (pats, x, thr, tuple(g), want), 'hop-label')
                            ctx.step()
                        node._shuffled_update = True
                        # every order of the first sweeps
                        for orders in itertools.product(perms, repeat=sweeps):
                            for x in states:
                                it = [0]

                                def shuffle(lst, it=it):
                                    lst[:] = orders[min(it[0], sweeps - 1)]
                                    it[0] += 1
                                def permutation(a):
                                    lst = list(range(a)) if isinstance(a, int) else list(a)
                                    shuffle(lst)
                                    return np.array(lst)
                                old = np.random.shuffle, np.random.permutation
                                np.random.shuffle, np.random.permutation = shuffle, permutation
                                try:
                                    g = tuple(node.label(np.array([x]), threshold=thr)[0])
                                finally:
                                    np.random.shuffle, np.random.permutation = old
                                if not it[0]:
                                    ctx.note('update order not controlled', 1)
                                    continue
                                want, k = hop_run(W, x, t, orders)
                                check(g == want, 'patterns %s, input %s, orders %s: %s instead of %s' % (pats, x, orders, g, want), 'hop-order')
                                ctx.step()
                                done(ctx, k > 1)
                else:
                    node._shuffled_update = False
                    got = node.label(np.array(states))
                    for x, g in zip(states, got):
                        want, _ = hop_run(W, x, [0] * dim, [perms[0]])
                        check(tuple(g) == want, 'patterns %s in chunks %s, input %s: %s instead of %s' % (order, split, x, tuple(g), want), 'hop-chunks')
                    done(ctx, len(split) > 1)
        ctx.state(pats)


# ------------------------------------------------------------------ k-means
def lloyd(rows, cents, iters):
    for it in range(iters):
        groups = [[] for _ in cents]
        for r in rows:
            d = [dist2(r, c) for c in cents]
            groups[d.index(min(d))].append(r)
        new = [mean(g) if g else c for g, c in zip(groups, cents)]
        if all(dist2(a, b) < 1e-24 for a, b in zip(new, cents)):
            return cents
        cents = new
    return cents


def kmeans(ctx, points, k, n, max_iter):
    rows0 = POINTS[points][:n]
    dim = len(rows0[0])
    for perm in itertools.permutations(range(n)):
        rows = [rows0[i] for i in perm]
        for init in itertools.permutations(range(n), k):
            want = lloyd(rows, [rows[i] for i in init], max_iter)
            for split in (comps(n) if perm == tuple(range(n)) else [(n,), (1,) * n]):
                ctx.at(rows, init, split, max_iter)
                node = N.KMeansClassifier(k, max_iter)
                p = 0
                for s in split:
                    node.train(np.array(rows[p:p + s], dtype='d'))
                    p += s
                old = random.sample
                seen = []

                def sample(pop, cnt, **kw):
                    seen.append((len(pop), cnt))
                    return list(init)
                random.sample = sample
                try:
                    node.stop_training()
                finally:
                    random.sample = old
                if seen:
                    check(seen == [(n, k)], 'initial centroids drawn as %s' % seen, 'km-init')
                    Q = QUERY[dim] + rows
                    got = node.label(np.array(Q, dtype='d'))
                    where = 'kmeans rows %s, first centroids %s, %d iterations: ' % (rows, init, max_iter)
                    check(len(got) == len(Q), where + 'number of labels', 'label-count')
                    for q, g in zip(Q, got):
                        d = [dist2(q, c) for c in want]
                        check(d[int(g)] <= min(d) + 1e-9, where + 'cluster of %s is %s, centroids %s' % (q, g, want), 'km-label')
                ctx.note('initialisations not controlled', 0 if seen else 1)
                ctx.step(len(split))
                done(ctx)
    ctx.state((points, k, n, max_iter))


# ------------------------------------------------------------------ wrapped classifiers
SK = ['GaussianNB', 'KNeighborsClassifier', 'DecisionTreeClassifier', 'LinearDiscriminantAnalysis', 'NearestCentroid', 'RidgeClassifier']
WROWS = [[0., 0], [1, 0], [5, 5], [0, 1.5], [6, 4], [4.5, 6]]
WQ = np.array([[0., .5], [5, 5.5], [2, 2], [1, 1], [7, 7], [3, 2.75]])


def wrapped(ctx, name, kind):
    """training sets in every chunking and container against the wrapped algorithm itself"""
    ls = LABELSETS[kind]
    for lab in itertools.product((0, 1), repeat=4):
        labels = [ls[0], ls[lab[0]], ls[1], ls[lab[1]], ls[lab[2]], ls[lab[3]]]
        rows = WROWS
        if labels.count(ls[0]) < 2 or labels.count(ls[1]) < 2 or (kind != 'str' and list(lab) not in ([0, 0, 1, 1], [1, 0, 0, 1], [1, 1, 0, 0])):
            continue
        if kind == 'str' and sum(lab) != 2 and name != 'GaussianNB':
            continue
        ref = None
        for split, conts in plans(6, labels, True):
            ctx.at(name, labels, split, conts)
            where = '%s labels %s chunks %s as %s: ' % (name, labels, split, conts)
            if name == 'LibSVM':
                node = N.LibSVMClassifier('LINEAR', 'C_SVC', probability=len(split) == 1 and conts[0] == 'list' and kind != 'float')
            else:
                node = getattr(N, name + 'ScikitsLearnNode')(**({'n_neighbors': 2} if name.startswith('KN') else {'random_state': 0} if name.startswith('Dec') else {}))
            feed(node, rows, labels, split, conts)
            node.stop_training()
            ctx.step(len(split))
            if ref is None:
                if name == 'LibSVM':
                    from mdp.nodes.libsvm_classifier import libsvmutil as lu
                    par = lu.svm_parameter('-q')
                    par.kernel_type, par.svm_type = lu.LINEAR, lu.C_SVC
                    mod = lu.svm_train(lu.svm_problem(list(labels), rows), par)
                    ref = lu.svm_predict([0] * len(WQ), WQ.tolist(), mod, '-q')[0]
                else:
                    alg = type(node.scikits_alg)(**node.scikits_alg.get_params())
                    alg.fit(np.array(rows), np.array(labels))
                    ref = [norm(v) for v in alg.predict(WQ)]
            got = [norm(v) for v in np.asarray(node.label(WQ)).ravel()]
            check(got == list(ref), where + 'labels %s instead of %s' % (got, list(ref)), 'label')
            if name == 'LibSVM' and node.parameter.probability:
                probs = node.prob(WQ)
                for p in probs:
                    check(set(p) == set(labels) and abs(sum(p.values()) - 1) < 1e-6, where + 'probabilities %s' % p, 'prob-sum')
                check([set(r) for r in node.rank(WQ)] == [set(labels)] * len(WQ), where + 'ranks', 'rank-labels')
            done(ctx)
        ctx.state(tuple(labels))


# ------------------------------------------------------------------ modes and refusals
def trained(name, **kw):
    C = getattr(N, name)
    rows = [[0., 0], [1, 0], [0, 1], [4, 4], [5, 4], [4, 6], [1, 2]]
    labels = [1, 1, 1, -1, -1, -1, 1]
    if name == 'SignumClassifier':
        return C(**kw), True
    if name == 'KMeansClassifier':
        n = C(2, 20, **kw)
        n.train(np.array(rows))
    elif name == 'DiscreteHopfieldClassifier':
        n = C(**kw)
        n._shuffled_update = False
        n.train(np.array([[True, False], [True, True]]))
    elif name == 'LibSVMClassifier':
        n = C('LINEAR', 'C_SVC', probability=False)
        n.train(np.array(rows), labels)
    elif name == 'KNNClassifier':
        n = C(k=2, **kw)
        n.train(np.array(rows), labels)
    else:
        n = C(**kw)
        n.train(np.array(rows), np.array(labels))
    n.stop_training()
    return n, False


CLFS = ['SignumClassifier', 'PerceptronClassifier', 'SimpleMarkovClassifier', 'DiscreteHopfieldClassifier', 'KMeansClassifier', 'GaussianClassifier', 'NearestMeanClassifier', 'KNNClassifier', 'LibSVMClassifier', 'GaussianNBScikitsLearnNode']
HASPROB = {'SimpleMarkovClassifier', 'GaussianClassifier'}
NOLABEL = {'SimpleMarkovClassifier'}


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and a.dtype == b.dtype and bool((a == b).all())
    return type(a) == type(b) and a == b


def outcome(f):
    try:
        return 'value', f()
    except Exception as e:
        return 'error', type(e).__name__


def modes(ctx, name, bi):
    """every sequence of mode settings: constructor, attribute, in a flow, bidirectional"""
    ctor_ok = not (name.startswith('LibSVM') or name.startswith('GaussianNB'))
    X = np.array([[0., 1], [4, 4], [2, 2], [1, 0]])
    if name == 'DiscreteHopfieldClassifier':
        X = np.array([[True, False], [False, False], [True, True]])
    for mode in [None, 'label', 'rank', 'prob']:
        for how in ['ctor', 'attr', 'flow', 'flow2', 'switch']:
            if how == 'flow2' and name.startswith('Discrete'):
                continue        # boolean data
            if how == 'ctor' and not ctor_ok:
                continue
            ctx.at(name, mode, how)
            ctx.step()
            node, _ = trained(name, **({'execute_method': mode} if how == 'ctor' else {}))
            if how == 'switch':
                for m2 in ('label', 'prob', None, 'rank'):
                    node.execute_method = m2
                    outcome(lambda: node.execute(X))
            if how != 'ctor':
                node.execute_method = mode
            f = {None: lambda: node._refcast(X), 'label': lambda: node.label(X), 'rank': lambda: node.rank(X), 'prob': lambda: node.prob(X)}[mode]
            np.random.seed(0)
            want = outcome(f)
            np.random.seed(0)
            if how == 'flow':
                got = outcome(lambda: mdp.Flow([node])(X))
            elif how == 'flow2':
                pre = N.IdentityNode()
                got = outcome(lambda: mdp.Flow([pre, node]).execute(X))
            else:
                got = outcome(lambda: node.execute(X))
            where = '%s in mode %s (%s): ' % (name, mode, how)
            if got[0] == 'error' and 'Flow' in str(got[1]):
                check(want[0] == 'error', where + 'failed in a flow', 'mode-error')
            else:
                check(got[0] == want[0], where + '%s, method itself %s' % (got, want), 'mode-kind')
                check(same(got[1], want[1]), where + '%s instead of %s' % (got[1], want[1]), 'mode-value')
            if mode == 'label' and name not in NOLABEL or mode in ('rank', 'prob') and name in HASPROB or mode is None:
                check(want[0] == 'value', where + 'refused with %s' % (want[1],), 'mode-refused')
            elif name != 'LibSVMClassifier':
                check(want == ('error', 'NotImplementedError'), where + 'gave %s' % (want,), 'mode-notrefused')
            done(ctx)
    if bi:
        binode_modes(ctx, name, X)
    ctx.state(name)


def binode_modes(ctx, name, X):
    bname = name.replace('Classifier', 'BiClassifier') if name.endswith('Classifier') else None
    cls = getattr(bimdp.nodes, bname)
    node, _ = trained(name)
    b = cls.__new__(cls)
    b.__dict__.update(mdp.Node.copy(node).__dict__ if name != 'LibSVMClassifier' else node.__dict__)
    b.__dict__.setdefault('_node_id', None)
    b.__dict__.setdefault('_stop_result', None)
    for reqs in itertools.product([None, True, 'pre_'], repeat=3):
        msg = {}
        for key, r in zip(('labels', 'probs', 'ranks'), reqs):
            if r is not None:
                msg['return_' + key] = r
        ctx.at(bname, str(msg))
        ctx.step()
        want = {}
        refused = False
        for key, r in zip(('labels', 'probs', 'ranks'), reqs):
            if r:
                o = outcome({'labels': lambda: node.label(X), 'probs': lambda: node.prob(X), 'ranks': lambda: node.rank(X)}[key])
                refused = refused or o[0] == 'error'
                want[(r if isinstance(r, str) else '') + key] = o[1]
        got = outcome(lambda: b.execute(X, dict(msg)))
        where = '%s with %s: ' % (bname, msg)
        if refused:
            check(got[0] == 'error', where + 'not refused', 'bi-notrefused')
            continue
        check(got[0] == 'value', where + 'failed with %s' % (got[1],), 'bi-error')
        y, m = got[1] if isinstance(got[1], tuple) else (got[1], {})
        check(same(np.asarray(y), node._refcast(X)), where + 'data was altered', 'bi-data')
        m = {k: v for k, v in (m or {}).items() if k not in msg}
        check(set(m) == set(want), where + 'returned %s' % sorted(m or {}), 'bi-keys')
        check(all(same(m[k], want[k]) for k in want), where + 'returned %s instead of %s' % (m, want), 'bi-value')
        done(ctx, bool(msg))


def refusals(ctx, name, depth):
    """label arrays of a wrong length are refused and leave no trace, at every moment of every training history"""
    X = {'a': (np.array([[0., 0], [1, 0], [0, 1]]), [1, 1, -1]), 'b': (np.array([[4., 4], [5, 4], [4, 6], [2, 2]]), [-1, -1, 1, -1])}
    Q = np.array([[0., 1], [4, 4], [2, 2], [1, 0], [-1, 3]])

    def build():
        C = getattr(N, name)
        return C('LINEAR', 'C_SVC', probability=False) if name == 'LibSVMClassifier' else C()

    def result(n):
        return outcome(lambda: n.prob(Q)) if name in NOLABEL else outcome(lambda: [norm(v) for v in np.asarray(n.label(Q)).ravel()])
    bad = {'short': [1, -1], 'long': [1, -1] * 3, 'tuple': (1,), 'array': np.array([1, -1, 1, -1, 1]), 'empty': []}
    ops = ['a', 'b'] + sorted(bad)
    for n in range(1, depth + 1):
        for hist in itertools.product(ops, repeat=n):
            good = [o for o in hist if o in X]
            if not good or len(good) == len(hist):
                continue
            node, ref = build(), build()
            for op in hist:
                ctx.at(name, hist, op)
                ctx.step()
                if op in X:
                    node.train(X[op][0], X[op][1])
                    ref.train(X[op][0], X[op][1])
                else:
                    try:
                        node.train(X['a'][0] * 7 + 1, bad[op])
                    except mdp.TrainingException:
                        pass
                    else:
                        check(False, '%s: %s labels for 3 points were accepted' % (name, op), 'accepted')
            stops = [outcome(z.stop_training) for z in (node, ref)]
            check(stops[0] == stops[1], '%s after %s: stop_training gave %s instead of %s' % (name, hist, stops[0], stops[1]), 'trace-stop')
            if stops[0][0] == 'error':
                continue
            check(result(node) == result(ref), '%s after %s: refused labels changed the result: %s instead of %s' % (name, hist, result(node), result(ref)), 'trace')
            done(ctx, len(good) > 1)
    ctx.state(name)


SCENARIOS = {'supervised': supervised, 'gaussian': gaussian, 'perceptron': perceptron, 'signum': signum, 'hopfield': hopfield, 'kmeans': kmeans, 'wrapped': wrapped, 'modes': modes, 'refusals': refusals}


def cases(tier):
    th = tier == 'thorough'
    for points in POINTS:
        for kind in LABELSETS:
            for n, orders in ((2, 'all'), (3, 'all' if kind in ('int', 'str') or th else 'few')) + (((4, 'few'),) if kind == 'str' or th else ()) + (((5, 'few'),) if th else ()):
                yield 'supervised', dict(clf='nearest', points=points, kind=kind, n=n, orders=orders)
                yield 'supervised', dict(clf='markov', points=points, kind=kind, n=n, orders=orders)
                for k in range(1, n + 2):
                    yield 'supervised', dict(clf='knn', points=points, kind=kind, n=n, orders=orders, k=k)
    for kind in ('int', 'str', 'float'):
        for sizes in ((4, 0), (3, 3), (4, 4)) if not th else ((4, 0), (3, 3), (4, 4), (3, 3, 3)):
            for dtype in (None, 'f'):
                for first in range(2):
                    if kind == 'int' or sizes != (4, 4) or th:
                        if dtype is None or sizes == (3, 3):
                            yield 'gaussian', dict(kind=kind, sizes=sizes, first=first, dtype=dtype)
    for n in range(1, 4 if not th else 5):
        for first in range(10):
            yield 'perceptron', dict(n=n, first=first)
    for dim in (1, 2, 3):
        yield 'signum', dict(dim=dim)
    for dim, npat, sw in [(2, 1, 2), (2, 2, 2), (3, 1, 2), (3, 2, 1), (3, 3, 1)] + ([(4, 1, 1), (4, 2, 1), (3, 2, 2), (3, 3, 2)] if th else [(4, 1, 1)]):
        yield 'hopfield', dict(dim=dim, npat=npat, sweeps=sw)
    for points in POINTS:
        for n in (2, 3, 4) + ((5,) if th else ()):
            for k in range(1, n + 1):
                for mi in (1, 2, 50):
                    yield 'kmeans', dict(points=points, k=k, n=n, max_iter=mi)
    for kind in ('int', 'neg', 'float'):
        yield 'wrapped', dict(name='LibSVM', kind=kind)
    for name in SK:
        for kind in ('int', 'str', 'neg'):
            yield 'wrapped', dict(name=name, kind=kind)
    for name in CLFS:
        yield 'modes', dict(name=name, bi=name.endswith('Classifier'))
    for name in ['PerceptronClassifier', 'SimpleMarkovClassifier', 'NearestMeanClassifier', 'KNNClassifier', 'GaussianClassifier', 'LibSVMClassifier', 'GaussianNBScikitsLearnNode']:
        yield 'refusals', dict(name=name, depth=3 + th)
