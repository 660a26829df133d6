"""G01: graph package against a reference multigraph; all small digraphs and all edit sequences."""
import itertools
import mdp
from mdp import graph as G
from ..core import check

LEVEL = 'model_checking'
RULE = 'graph with at least two edges, or edit sequence with at least one removal'
ASSUMPTIONS = ['depth-first search is only required to be a search order (every node after one of its neighbours), not strict pre-order',
               'graphs of up to 4 nodes; edge multiplicity up to 2 on 3 nodes']


class Ref(object):
    """nodes: list of ids, edges: list of (id, head, tail)"""
    def __init__(self):
        self.nodes, self.edges = [], []


def verify(g, nodes, edges, where):
    """nodes: list of (GraphNode, data), edges: list of (GraphEdge, head, tail, data) in insertion order"""
    check(set(map(id, g.nodes)) == {id(n) for n, _ in nodes} and len(g.nodes) == len(nodes), lambda: where() + 'node list wrong', 'nodes')
    check(set(map(id, g.edges)) == {id(e[0]) for e in edges} and len(g.edges) == len(edges), lambda: where() + 'edge list wrong', 'edges')
    for e, h, t, d in edges:
        check(e.get_ends() == (h, t) and e.get_head() is h and e.get_tail() is t and e.data == d, lambda: where() + 'edge ends wrong', 'ends')

    def same(a, b):
        return sorted(map(id, a)) == sorted(map(id, b))
    for n, d in nodes:
        ein = [e for e, h, t, _ in edges if t is n]
        eout = [e for e, h, t, _ in edges if h is n]
        check(n.data == d, lambda: where() + 'node data wrong', 'data')
        check(same(n.get_edges_in(), ein), lambda: where() + 'in-edges wrong', 'ein')
        check(same(n.get_edges_out(), eout), lambda: where() + 'out-edges wrong', 'eout')
        check(n.in_degree() == len(ein) and n.out_degree() == len(eout) and n.degree() == len(ein) + len(eout), lambda: where() + 'degree wrong', 'degree')
        check(same(n.in_neighbors(), [e.head for e in ein]), lambda: where() + 'in-neighbours wrong', 'nin')
        check(same(n.out_neighbors(), [e.tail for e in eout]), lambda: where() + 'out-neighbours wrong', 'nout')
        check(same(n.neighbors(), [e.head for e in ein] + [e.tail for e in eout]), lambda: where() + 'neighbours wrong', 'nn')
        check(set(map(id, n.get_edges())) == set(map(id, ein + eout)), lambda: where() + 'get_edges wrong', 'edges-of')
        for m, _ in nodes:
            check(same(n.get_edges_in(from_=m), [e for e in ein if e.head is m]), lambda: where() + 'get_edges_in(from_) wrong', 'ein-from')
            check(same(n.get_edges_out(to_=m), [e for e in eout if e.tail is m]), lambda: where() + 'get_edges_out(to_) wrong', 'eout-to')
            check(set(map(id, n.get_edges(neighbor=m))) == {id(e) for e in ein if e.head is m} | {id(e) for e in eout if e.tail is m},
                  lambda: where() + 'get_edges(neighbor) wrong', 'edges-nb')
        # the returned lists are copies
        n.get_edges_in().append(None)
        n.get_edges_out().append(None)
        check(n.in_degree() == len(ein) and n.out_degree() == len(eout), lambda: where() + 'query result aliases the graph', 'alias')


def algorithms(ctx, g, ns, pairs, where):
    n = len(ns)
    idx = {id(x): i for i, x in enumerate(ns)}
    succ = [set() for _ in range(n)]
    und = [set() for _ in range(n)]
    for a, b in pairs:
        succ[a].add(b)
        und[a].add(b)
        und[b].add(a)

    def closure(adj, r):
        seen, todo, level = {r}, [r], {r: 0}
        for x in todo:
            for y in sorted(adj[x]):
                if y not in seen:
                    seen.add(y)
                    level[y] = level[x] + 1
                    todo.append(y)
        return seen, level
    # acyclic?
    cyc = any(a in closure(succ, b)[0] for a, b in pairs)
    try:
        order = [idx[id(x)] for x in g.topological_sort()]
        check(not cyc, lambda: where() + 'topological sort of a cyclic graph returned %r' % order, 'topo-cycle')
        check(sorted(order) == list(range(n)), lambda: where() + 'topological sort is not a permutation: %r' % order, 'topo-perm')
        check(all(order.index(a) < order.index(b) for a, b in pairs), lambda: where() + 'topological order %r violates an edge' % order, 'topo-order')
    except G.GraphTopologicalException:
        check(cyc, lambda: where() + 'acyclic graph reported as cyclic', 'topo-acyclic')
    ctx.outcome('topo', cyc, n, len(pairs))
    for r in range(n):
        for name, adj in (('dfs', succ), ('undirected_dfs', und), ('bfs', succ), ('undirected_bfs', und)):
            want, level = closure(adj, r)
            visits = []
            res = [idx[id(x)] for x in getattr(g, name)(ns[r], visits.append)]
            res2 = [idx[id(x)] for x in getattr(g, name)(ns[r])]
            check(res == res2, lambda: where() + name + ' depends on the visit function', 'visit')
            check([idx[id(x)] for x in visits] == res, lambda: where() + name + ': visit function not called once per node in order', 'visit-order')
            check(sorted(res) == sorted(want), lambda: where() + '%s from %d visited %r, reachable %r' % (name, r, res, sorted(want)), name)
            check(res[0] == r, lambda: where() + name + ' does not start at the root', 'root')
            for k, x in enumerate(res[1:], 1):
                check(any(x in adj[y] for y in res[:k]), lambda: where() + name + ' order %r is not a search order' % res, 'search-order')
            if 'bfs' in name:
                lv = [level[x] for x in res]
                check(lv == sorted(lv), lambda: where() + name + ' order %r is not level by level' % res, 'bfs-level')
            ctx.step()
    comps = [sorted(idx[id(x)] for x in c) for c in g.connected_components()]
    want = []
    for i in range(n):
        c = sorted(closure(und, i)[0])
        if c not in want:
            want.append(c)
    check(sorted(comps) == sorted(want), lambda: where() + 'components %r, true partition %r' % (comps, want), 'components')
    if n:
        check(g.is_weakly_connected() == (len(want) == 1), lambda: where() + 'is_weakly_connected wrong', 'weak')


def graphs(ctx, n, pairs_kind, mult, lo, hi):
    pairs = [(a, b) for a in range(n) for b in range(n) if pairs_kind == 'loops' or a != b]
    for code in range(lo, hi):
        c, sel = code, []
        for p in pairs:
            sel += [p] * (c % (mult + 1))
            c //= mult + 1
        for rev in ((False, True) if len(sel) > 1 else (False,)):
            s = sel[::-1] if rev else sel
            g = G.Graph()
            ns = g.add_nodes(n)
            es = [(g.add_edge(ns[a], ns[b], data=k), ns[a], ns[b], k) for k, (a, b) in enumerate(s)]
            where = lambda: 'nodes=%d edges=%r: ' % (n, s)
            if n < 4 or code % 16 == 0:
                verify(g, [(x, None) for x in ns], es, where)
            algorithms(ctx, g, ns, s, where)
            ctx.execution()
            ctx.state(n, tuple(s))
            if len(s) > 1:
                ctx.mark(code)


def edits(ctx, prefix, depth):
    OPS = ['N', 'T', 'D', 'E00', 'E01', 'E12', 'E10', 'E21', 'r0', 'r1', 'x0', 'x1', 'x2', 'F']
    for tail in itertools.product(range(len(OPS)), repeat=depth - len(prefix)):
        seq = [OPS[i] for i in list(prefix) + list(tail)]
        ctx.at(seq)
        g = G.Graph()
        nodes, edges, k, ok = [], [], 0, True
        removed = []
        for n, o in enumerate(seq):
            k += 1
            if o == 'N':
                nodes.append((g.add_node(k), k))
            elif o == 'D':
                if len(nodes) > 2:
                    ok = False
                    break
                res = g.add_nodes([k, -k])
                nodes += [(res[0], k), (res[1], -k)]
            elif o == 'T':
                if nodes:
                    ok = False
                    break
                t = g.add_tree((k, -k, (k + 10, k + 20)))
                a, b, (c, d) = t
                nodes += [(a, k), (b, -k), (c, k + 10), (d, k + 20)]
                want = [(a, b), (a, c), (c, d)]
                for h, tl in want:
                    e = [e for e in g.edges if e.get_ends() == (h, tl)]
                    check(len(e) == 1, lambda: 'add_tree after %r: edge missing' % (seq[:n + 1],), 'tree')
                    edges.append((e[0], h, tl, None))
            elif o[0] == 'E':
                a, b = int(o[1]), int(o[2])
                if max(a, b) >= len(nodes):
                    ok = False
                    break
                a, b = nodes[a][0], nodes[b][0]
                edges.append((g.add_edge(a, b, data=k), a, b, k))
            elif o == 'F':
                if len(nodes) < 2:
                    ok = False
                    break
                left, right = [nodes[0][0]], [x for x, _ in nodes[1:3]]
                res = g.add_full_connectivity(left, right)
                check(len(res) == 1 and len(res[0]) == len(right), lambda: 'add_full_connectivity result shape', 'full')
                edges += [(e, left[0], t, None) for e, t in zip(res[0], right)]
            elif o[0] == 'x':
                i = int(o[1])
                if i >= len(edges):
                    ok = False
                    break
                e = edges.pop(i)
                g.remove_edge(e[0])
            elif o[0] == 'r':
                i = int(o[1])
                if i >= len(nodes):
                    ok = False
                    break
                nd = nodes.pop(i)[0]
                edges = [e for e in edges if e[1] is not nd and e[2] is not nd]
                g.remove_node(nd)
                check(nd.degree() == 0, lambda: 'removed node keeps edges after %r' % (seq[:n + 1],), 'dangling')
                try:
                    g.remove_node(nd)
                    check(False, lambda: 'node removed twice after %r' % (seq[:n + 1],), 'double-remove')
                except G.GraphException:
                    pass
            ctx.step()
            verify(g, nodes, edges, lambda: 'after %r: ' % (seq[:n + 1],))
        if not ok:
            continue
        ns = [x for x, _ in nodes]
        algorithms(ctx, g, ns, [(ns.index(h), ns.index(t)) for _, h, t, _ in edges], lambda: 'after %r: ' % (seq,))
        ctx.execution()
        ctx.state(len(nodes), tuple((ns.index(h), ns.index(t)) for _, h, t, _ in edges))
        if any(o[0] in 'rx' for o in seq):
            ctx.mark(str(seq))


def trees(ctx, i):
    """all nested tuples with up to 5 nodes: the graph has exactly the documented parent/child edges"""
    def gen(n):      # ordered trees with n nodes, as nested lists [label, child...]
        if n == 1:
            yield ('n',)
            return
        for parts in forests(n - 1):
            yield ('n',) + parts

    def forests(n):
        if n == 0:
            yield ()
            return
        for k in range(1, n + 1):
            for t in gen(k):
                for rest in forests(n - k):
                    yield (t,) + rest
    cnt = [0]

    def spec(t):
        cnt[0] += 1
        v = cnt[0]
        if len(t) == 1:
            return v
        return (v,) + tuple(spec(c) for c in t[1:])
    for t in gen(i):
        cnt[0] = 0
        s = spec(t)
        if not isinstance(s, tuple):
            s = (s,)
        g = G.Graph()
        res = g.add_tree(s)
        want = set()

        def edges(s):
            if isinstance(s, tuple):
                for c in s[1:]:
                    want.add((s[0], c[0] if isinstance(c, tuple) else c))
                    edges(c)
        edges(s)
        got = [(e.head.data, e.tail.data) for e in g.edges]
        check(sorted(got) == sorted(want), lambda: 'add_tree(%r) has edges %r' % (s, got), 'tree')
        check(sorted(x.data for x in g.nodes) == list(range(1, i + 1)), lambda: 'add_tree(%r) nodes' % (s,), 'tree-nodes')
        shape = G.recursive_map(lambda x: x.data, res)
        lst = lambda s: [lst(c) for c in s] if isinstance(s, tuple) else s
        check(shape == lst(s), lambda: 'add_tree(%r) returned %r' % (s, shape), 'tree-result')
        ctx.execution()
        ctx.state('tree', s)
        ctx.mark(s)


SCENARIOS = {'graphs': graphs, 'edits': edits, 'trees': trees}


def cases(tier):
    deep = tier == 'thorough'
    def blocks(n, kind, mult, step):
        m = n * n if kind == 'loops' else n * (n - 1)
        tot = (mult + 1) ** m
        for lo in range(0, tot, step):
            yield 'graphs', dict(n=n, pairs_kind=kind, mult=mult, lo=lo, hi=min(tot, lo + step))
    for n in (0, 1, 2):
        for c in blocks(n, 'loops', 2 if n else 0, 100):
            yield c
    for c in blocks(3, 'loops', 1, 100):
        yield c
    for c in blocks(3, 'simple', 2, 100):
        yield c
    for c in blocks(4, 'simple', 1, 200):
        yield c
    if deep:
        for c in blocks(4, 'loops', 1, 1000):
            yield c
        for c in blocks(3, 'loops', 2, 1000):
            yield c
    for a in range(14):
        for b in range(14):
            yield 'edits', dict(prefix=[a, b], depth=6 if deep else 5)
    for i in range(1, 8 if deep else 7):
        yield 'trees', dict(i=i)
