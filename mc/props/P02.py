"""P02: forking and joining equals direct training, for every way to distribute the chunks over forks."""
import itertools
import numpy as np
import mdp
import mdp.parallel
import bimdp
import bimdp.parallel
from mdp.hinet import FlowNode, Layer, CloneLayer, SameInputLayer
from ..core import check, Violation
from .. import catalog as C, parinst as I

LEVEL = 'model_checking'
RULE = 'plan with at least two forks, or a fork of a fork, or a fork that is dropped'
ASSUMPTIONS = ['every fork receives at least one chunk before it is joined (a fork without data has nothing to join)',
               'instrumented nodes learn a commutative summary, so that the order of joining cannot matter for them; real nodes are compared with a tolerance of 1e-8 on data for which all sums are exact']
NotForkable = mdp.parallel.NotForkableParallelException


def plans(m, thorough):
    """all ways to give chunks 0..m-1, in order, to a sequence of groups.  A group is (kind, chunks); kinds: F fork, D trained
    directly on the original, R fork of a fork per chunk, X fork trained on the chunks and then dropped (and the chunks
    trained directly), E all following forks are created early"""
    kinds = 'FDRX'
    for cut in itertools.product((0, 1), repeat=m - 1):
        groups = []
        cur = [0]
        for i, c in enumerate(cut):
            if c:
                groups.append(tuple(cur))
                cur = []
            cur.append(i + 1)
        groups.append(tuple(cur))
        for ks in itertools.product(kinds, repeat=len(groups)):
            if not thorough and sum(k != 'F' for k in ks) > 2:
                continue
            yield tuple(zip(ks, groups))


def snap(obj, depth=0, memo=None):
    """comparable deep snapshot of an object's state"""
    if memo is None:
        memo = {}
    if id(obj) in memo:
        return ('ref', memo[id(obj)])
    if isinstance(obj, np.ndarray):
        return ('arr', str(obj.dtype), obj.shape, obj.tobytes() if obj.dtype != object else repr(obj.tolist()))
    if isinstance(obj, (int, float, complex, str, bytes, bool, type(None), np.generic, np.dtype, type)):
        return repr(obj)
    memo[id(obj)] = len(memo)
    if isinstance(obj, dict):
        return ('dict', items(obj, depth, memo))
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, tuple(snap(v, depth + 1, memo) for v in obj))
    if callable(obj) and not hasattr(obj, '__dict__'):
        return 'callable'
    if type(obj).__name__ in ('function', 'method', 'builtin_function_or_method'):
        return 'function'
    if hasattr(obj, '__dict__') and depth < 14:
        return (type(obj).__name__, items(vars(obj), depth, memo))
    return type(obj).__name__


def items(d, depth, memo):
    return tuple((repr(k), snap(v, depth + 1, memo)) for k, v in sorted(d.items(), key=lambda kv: repr(kv[0])))


def run_plan(node, plan, chunks, early, where, ctx):
    """one training phase by the given plan (parallel extension active)"""
    forks = {}

    def new_fork(src):
        before = snap(src)
        try:
            f = src.fork()
        except NotForkable:
            raise
        check(f is not src, lambda: where() + 'fork returned the node itself', 'fork-self')
        check(snap(src) == before, lambda: where() + 'fork changed the original', 'fork-changes')
        return f
    if early:
        for i, (k, g) in enumerate(plan):
            if k in 'FX':
                forks[i] = new_fork(node)
    for i, (k, g) in enumerate(plan):
        if k in 'FX':
            f = forks.get(i) or new_fork(node)
            for c in g:
                f.train(*chunks[c])
            if k == 'F':
                node.join(f)
            else:
                for c in g:
                    node.train(*chunks[c])
        elif k == 'D':
            for c in g:
                node.train(*chunks[c])
        else:
            f = new_fork(node)
            for c in g:
                ff = new_fork(f)
                ff.train(*chunks[c])
                f.join(ff)
            node.join(f)
        ctx.step(len(g))


def forkjoin(ctx, make, chunks, plan, early, probe, tol, what, compare=None, seed=True):
    where = lambda: '%s, plan %r%s: ' % (what, plan, ' (forks created first)' if early else '')
    ref = make()
    if seed:
        C._seed()
    phases = 0
    while ref.is_training():
        for c in chunks:
            ref.train(*c)
        ref.stop_training()
        phases += 1
    node = make()
    if seed:
        C._seed()
    ph = 0
    while node.is_training():
        check(ph < phases, lambda: where() + 'has more training phases than the node trained directly', 'phases')
        with mdp.extension('parallel'):
            run_plan(node, plan, chunks, early, where, ctx)
        node.stop_training()
        ph += 1
    check(ph == phases, lambda: where() + '%d phases instead of %d' % (ph, phases), 'phases')
    for a in ('input_dim', 'output_dim', 'dtype'):
        x, y = getattr(ref, a), getattr(node, a)
        check(x == y, lambda: where() + '%s is %r, trained directly %r' % (a, y, x), a)
    if compare is not None:
        x, y = compare(ref), compare(node)
        check(x == y, lambda: where() + 'learned %r, trained directly %r' % (y, x), 'learned')
    if probe is not None:
        x, y = ref.execute(probe.copy()), node.execute(probe.copy())
        check(C.close(x, y, tol), lambda: where() + 'output differs from direct training by %g' % np.abs(np.asarray(x, float) - np.asarray(y, float)).max() if np.asarray(x).dtype.kind in 'fi' and np.shape(x) == np.shape(y) else where() + 'output %r, trained directly %r' % (y, x), 'output')
        if ref.is_invertible() and compare is None:
            check(C.close(ref.inverse(x), node.inverse(x), tol), lambda: where() + 'inverse differs from direct training', 'inverse')


def real(ctx, name, m, thorough):
    e = C.E[name]
    if e.classifier:
        return classifier(ctx, name, m, thorough)
    size = len(e.x) // m
    cuts = [i * size for i in range(m)] + [len(e.x)]
    chunks = [(e.x[a:b],) + e.extra(a, b) for a, b in zip(cuts, cuts[1:])]
    for plan in plans(m, thorough):
        for early in (0, 1):
            if early and not any(k in 'FX' for k, g in plan):
                continue
            ctx.at(name, plan, early)
            forkjoin(ctx, e.make, chunks, plan, early, e.probe, 1e-8, name)
            ctx.execution()
            ctx.state(name, m, plan, early)
            if len(plan) > 1 or plan[0][0] in 'RX':
                ctx.mark(plan, early)
    ctx.outcome(name)


def classifier(ctx, name, m, thorough):
    e = C.E[name]
    size = len(e.x) // m
    cuts = [i * size for i in range(m)] + [len(e.x)]
    chunks = [(e.x[a:b],) + e.extra(a, b) for a, b in zip(cuts, cuts[1:])]
    ref = e.make()
    for c in chunks:
        ref.train(*c)
    for plan in plans(m, thorough):
        for early in (0, 1):
            if early and not any(k in 'FX' for k, g in plan):
                continue
            ctx.at(name, plan, early)
            where = lambda: '%s, plan %r early=%d: ' % (name, plan, early)
            node = e.make()
            with mdp.extension('parallel'):
                run_plan(node, plan, chunks, early, where, ctx)
            ref = e.make()
            for c in chunks:
                ref.train(*c)
            ref.stop_training()
            node.stop_training()
            check(list(ref.label(e.probe)) == list(node.label(e.probe)), lambda: where() + 'labels differ from direct training', 'label')
            if hasattr(ref, 'prob') and name not in ('NearestMeanClassifier', 'KNNClassifier', 'SignumClassifier'):
                for a, b in zip(ref.prob(e.probe), node.prob(e.probe)):
                    check(set(a) == set(b) and all(abs(a[k] - b[k]) < 1e-8 for k in a), lambda: where() + 'probabilities differ: %r, direct %r' % (b, a), 'prob')
            if name == 'NearestMeanClassifier':
                for k in ref.label_means:
                    check(C.close(ref.label_means[k], node.label_means[k]), lambda: where() + 'class means differ', 'means')
            check(ref.input_dim == node.input_dim and ref.dtype == node.dtype, lambda: where() + 'dimension or dtype differ', 'dims')
            ctx.execution()
            ctx.state(name, m, plan, early)
            if len(plan) > 1 or plan[0][0] in 'RX':
                ctx.mark(plan, early)
    ctx.outcome(name)


# ---------------------------------------------------------------- containers of instrumented and real nodes
def cchunks(d, m, labels=False):
    x = C.data(3 * m, d)
    return [(x[3 * i:3 * i + 3 - i % 2],) + (([1., 2., 3.][:3 - i % 2],) if labels else ()) for i in range(m)]


def flat(n):
    if isinstance(n, FlowNode):
        return tuple(flat(k) for k in n.flow)
    if isinstance(n, CloneLayer):
        return ('clone', flat(n.node))
    if isinstance(n, Layer):
        return tuple(flat(k) for k in n.nodes)
    return I.learned(n)


def tree(spec, tag='', dim=2):
    """('f', ...) flow node, ('l', ...) layer, ('c', x, n) clone layer, ('s', ...) same input layer, or the kind of a leaf"""
    if isinstance(spec, str):
        n = I.make(spec, tag, dim)
        if n.output_dim is None:
            n.output_dim = dim
        return n
    if spec[0] == 'f':
        return FlowNode(mdp.Flow([tree(s, tag + str(i), dim) for i, s in enumerate(spec[1:])]))
    if spec[0] == 'l':
        return Layer([tree(s, tag + str(i), 1) for i, s in enumerate(spec[1:])])
    if spec[0] == 'c':
        return CloneLayer(tree(spec[1], tag + 'c', 1), n_nodes=spec[2])
    if spec[0] == 's':
        return SameInputLayer([tree(s, tag + str(i), dim) for i, s in enumerate(spec[1:])])


def build(spec):
    """outermost level decides the width: flows over layers take the width of their first layer"""
    return _build(spec, '', None)


def width(spec):
    if isinstance(spec, str):
        return 1
    if spec[0] == 'f':
        return width(spec[1])
    if spec[0] == 'l':
        return sum(width(s) for s in spec[1:])
    if spec[0] == 'c':
        return width(spec[1]) * spec[2]
    return width(spec[1])


def owidth(spec, w):
    if isinstance(spec, str):
        return w
    if spec[0] == 'f':
        for s in spec[1:]:
            w = owidth(s, w)
        return w
    if spec[0] == 'l':
        return sum(owidth(s, width(s)) for s in spec[1:])
    if spec[0] == 'c':
        return owidth(spec[1], width(spec[1])) * spec[2]
    return sum(owidth(s, w) for s in spec[1:])


def _build(spec, tag, dim):
    if isinstance(spec, str):
        n = I.make(spec, tag, dim or 1)
        if n.output_dim is None:
            n.output_dim = dim or 1
        return n
    dim = dim or width(spec)
    if spec[0] == 'f':
        nodes = []
        w = dim
        for i, s in enumerate(spec[1:]):
            nodes.append(_build(s, tag + str(i), w if isinstance(s, str) or s[0] in 'sf' else None))
            w = nodes[-1].output_dim
        return FlowNode(mdp.Flow(nodes))
    if spec[0] == 'l':
        return Layer([_build(s, tag + str(i), None) for i, s in enumerate(spec[1:])])
    if spec[0] == 'c':
        return CloneLayer(_build(spec[1], tag + 'c', None), n_nodes=spec[2])
    return SameInputLayer([_build(s, tag + str(i), dim) for i, s in enumerate(spec[1:])])


def specs(thorough):
    leaves = ['1', '2', '3', 'U', 'P', 'H'] if thorough else ['1', '2', 'U', 'P', 'H']
    train = set('123HJ')

    def trains(s):
        return s in train if isinstance(s, str) else any(trains(x) for x in s[1:] if not isinstance(x, int))
    two = [p for p in itertools.product(leaves, repeat=2)]
    three = [p for p in itertools.product(['1', '2', 'U', 'P'] if not thorough else leaves, repeat=3)]
    out = []
    for op in 'fls':
        for p in two + three:
            out.append((op,) + p)
    for k in leaves:
        for n in (1, 2, 3):
            out.append(('c', k, n))
    # nested: every pair of operators around small combinations
    small = [('1', '2'), ('2', '1'), ('P', '2'), ('2', 'U'), ('H', '1')]
    for op in 'fls':
        for inner in 'flsc':
            for p in small:
                for q in ('1', '2', 'U'):
                    ins = (inner,) + p if inner != 'c' else ('c', p[0], 2)
                    if op in 'fls':
                        if op == 's' or op == 'l' or op == 'f':
                            if op == 's' and inner in 'lc':
                                out.append((op, ins, ins[:1] + tuple(reversed(p)) if inner == 'l' else ('c', q, 2)))
                            elif op == 'f' and inner in 'lc':
                                out.append((op, ins, q))
                                out.append((op, ins, ('c', q, 2)))
                                out.append((op, ('l', 'U', q), ins))
                            else:
                                out.append((op, ins, q))
                                out.append((op, q, ins))
    out += [('c', ('f', a, b), n) for a, b in small for n in (2, 3)]
    out += [('c', ('l', a, b), 2) for a, b in small] + [('c', ('s', a, b), 2) for a, b in small]
    seen = []
    for s in out:
        if trains(s) and s not in seen:
            seen.append(s)
    return seen


def container(ctx, spec, m, thorough):
    w = width(spec)
    chunks = cchunks(w, m)
    probe = C.data(4, w, shift=3)
    for plan in plans(m, thorough):
        for early in (0, 1):
            if early and not any(k in 'FX' for k, g in plan):
                continue
            ctx.at(spec, plan, early)
            forkjoin(ctx, lambda: build(spec), chunks, plan, early, probe, 1e-12, repr(spec), compare=flat)
            ctx.execution()
            ctx.state(spec, m, plan, early)
            if len(plan) > 1 or plan[0][0] in 'RX':
                ctx.mark(plan, early)
    ctx.outcome(spec)


def nofork(ctx, name):
    """nodes without support refuse and stay trainable"""
    e = C.E[name]
    node = e.make()
    ref = e.make()
    with mdp.extension('parallel'):
        before = snap(node)
        try:
            f = node.fork()
        except NotForkable:
            f = None
        check(snap(node) == before, '%s: a refused or unused fork changed the node' % name, 'fork-changes')
        if f is None:
            ctx.mark()
        C.train(node, e)
        C.train(ref, e)
    if f is None:
        for wrap in (lambda n: FlowNode(mdp.Flow([n])), lambda n: Layer([n]), lambda n: SameInputLayer([n]), lambda n: CloneLayer(n)):
            if not node.is_trainable():
                break
            n = e.make()
            n.input_dim = e.x.shape[1]
            c = wrap(n)
            with mdp.extension('parallel'):
                try:
                    c.fork()
                except NotForkable:
                    continue
                raise Violation('%s: a container of the node can be forked although the node cannot' % name, 'container-fork')
    if not e.random:
        a, b = C.execute(node, e), C.execute(ref, e)
        check(C.close(a, b), '%s: differs after a dropped fork' % name, 'output')
    ctx.execution()
    ctx.state(name, f is None)
    ctx.outcome(f is None)


def forkable(name):
    with mdp.extension('parallel'):
        try:
            C.E[name].make().fork()
            return True
        except NotForkable:
            return False


def biflat(n):
    if isinstance(n, CloneLayer):
        return ('clone', n.node_id if isinstance(n, bimdp.BiNode) else None, tuple(biflat(k) for k in (n.nodes if n.node is None else [n.node])))
    if isinstance(n, FlowNode):
        return (n.node_id if isinstance(n, bimdp.BiNode) else None,) + tuple(biflat(k) for k in n.flow)
    return (I.learned(n), n.node_id if isinstance(n, bimdp.BiNode) else None)


def bileaf(k, i, dim):
    n = (I.BiCom1 if k == '1' else I.BiCom2)('b%s%d' % (k, i), node_id='b%d' % i, input_dim=dim, output_dim=dim) if k in '12' else I.make(k, 'n%d' % i, dim)
    if n.output_dim is None:
        n.output_dim = dim
    return n


def bimake(spec):
    op, ks, copies = spec
    if op == 'f':
        return bimdp.hinet.BiFlowNode(bimdp.BiFlow([bileaf(k, i, 2) for i, k in enumerate(ks)]), node_id='outer')
    if op == 'g':       # nested
        inner = bimdp.hinet.BiFlowNode(bimdp.BiFlow([bileaf(k, i, 2) for i, k in enumerate(ks)]), node_id='inner')
        return bimdp.hinet.BiFlowNode(bimdp.BiFlow([bileaf('U', 7, 2), inner, bileaf('1', 8, 2)]), node_id='outer')
    node = bileaf(ks[0], 0, 1) if op == 'c' else bimdp.hinet.BiFlowNode(bimdp.BiFlow([bileaf(k, i, 1) for i, k in enumerate(ks)]), node_id='inner', input_dim=1, output_dim=1)
    return bimdp.hinet.CloneBiLayer(node, n_nodes=2, use_copies=copies, node_id='outer')


def bicontainer(ctx, spec, m, thorough):
    chunks = cchunks(2, m)
    probe = C.data(4, 2, shift=3)
    ids = ['outer', 'inner', 'b0', 'b1', 'b8', 'nope']
    for plan in plans(m, thorough):
        for early in (0, 1):
            if early and not any(k in 'FX' for k, g in plan):
                continue
            ctx.at(spec, plan, early)
            forkjoin(ctx, lambda: bimake(spec), chunks, plan, early, probe, 1e-12, repr(spec), compare=biflat)
            ctx.execution()
            ctx.state(spec, m, plan, early)
            if len(plan) > 1 or plan[0][0] in 'RX':
                ctx.mark(plan, early)
    n = bimake(spec)
    with mdp.extension('parallel'):
        f = n.fork()
    for i in ids:
        a, b = n._request_node_id(i), f._request_node_id(i)
        check((a is None) == (b is None) and (a is None or (a.node_id == b.node_id)), '%r: node id %r leads to %r, in the fork to %r' % (spec, i, a, b), 'node-id')
    ctx.outcome(spec)


def bireal(ctx, name):
    """generated BiNodes: the fork is reachable under the same id, gives the same stop result and equals direct training"""
    e = C.E[name]
    make = lambda: C.bimake(e, node_id='id')
    if not isinstance(make(), bimdp.BiNode) or not forkable(name):
        ctx.execution()
        return
    with mdp.extension('parallel'):
        f = make().fork()
        check(f.node_id == 'id', '%s: node_id %r after fork' % (name, f.node_id), 'node-id')
        check(type(f) is type(make()), '%s: fork is a %s' % (name, type(f)), 'type')
        sr = ({'a': 1}, 'there')
        n = C.bimake(e, node_id='id', stop_result=sr if not make().has_multiple_training_phases() else [sr] * len(make()._train_seq))
        check(n.fork()._stop_result == n._stop_result, '%s: stop_result %r after fork' % (name, n.fork()._stop_result), 'stop-result')
    size = len(e.x) // 2
    chunks = [(e.x[:size],), (e.x[size:],)]
    if e.extra(0, 1) == () and not e.classifier:
        for plan in plans(2, False):
            forkjoin(ctx, make, chunks, plan, 0, e.probe, 1e-8, name)
            ctx.mark(plan)
    ctx.execution()
    ctx.state(name)
    ctx.outcome(name)


SCENARIOS = {'real': real, 'container': container, 'nofork': nofork, 'bicontainer': bicontainer, 'bireal': bireal}


def cases(tier):
    t = tier == 'thorough'
    for name in C.E:
        if name == 'LibSVMClassifier':
            continue
        yield 'nofork', dict(name=name)
        if C.E[name].is_trainable if False else forkable(name):
            for m in ((1, 2, 3, 4) if t else (1, 2, 3)):
                yield 'real', dict(name=name, m=m, thorough=t)
    for spec in specs(t):
        for m in ((2, 3) if t else (2,)):
            yield 'container', dict(spec=spec, m=m, thorough=t)
    for ops, ks in (('f', ('1', '2', 'U')), ('g', ('1', '2')), ('c', ('1', '2')), ('d', ('1', '2', 'U'))):
        for r in ((1, 2, 3) if ops != 'c' else (1,)):
            for p in itertools.product(ks, repeat=r):
                if not set(p) & set('12'):
                    continue
                for copies in ((False, True) if ops in 'cd' else (False,)):
                    for m in ((2, 3) if t else (2,)):
                        yield 'bicontainer', dict(spec=(ops, p, copies), m=m, thorough=t)
    for name in C.E:
        yield 'bireal', dict(name=name)
