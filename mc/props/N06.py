"""N06: duplicates (copy, pickle, file) of every node, network and flow at every moment of its life, and all ways of
going on with the original and the duplicate."""
import copy
import io
import os
import pickle
import shutil
import tempfile
import types
import numpy as np
import mdp
import bimdp
from ..core import check
from ..deep import deep, diff
from .. import catalog as C
from .N02 import BOX

LEVEL = 'model_checking'
RULE = 'duplicate made after at least one call and followed by further calls on both objects'
ASSUMPTIONS = ['nodes that were given functions without a name (lambda) are copied but not pickled', 'random numbers come from the global generators, which are seeded before each call, or from generators of the node',
               'what is reachable only through functions, classes and modules counts as code, not as state']
H = mdp.hinet
N = mdp.nodes
ATOM = (type(None), bool, int, float, complex, str, bytes, type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType, np.generic, np.dtype, np.ufunc, type(Ellipsis), slice, range)


def mutable(obj):
    """{id: path} of all mutable objects reachable from obj"""
    seen, out, keep = set(), {}, []

    def go(o, path):
        if isinstance(o, ATOM) or id(o) in seen:
            return
        seen.add(id(o))
        keep.append(o)
        if isinstance(o, np.ndarray):
            if o.size:
                out[('mem', o.__array_interface__['data'][0])] = path
            if o.base is not None:
                go(o.base, path + '.base')
            if o.dtype.kind == 'O':
                for v in o.ravel():
                    go(v, path + '[]')
            return
        if isinstance(o, (tuple, frozenset)):
            for v in o:
                go(v, path + '()')
            return
        if isinstance(o, types.MethodType):
            return go(o.__self__, path + '.self')
        if isinstance(o, np.random.RandomState) and o is getattr(np.random, 'mtrand')._rand:
            return
        out[id(o)] = path
        if isinstance(o, dict):
            for k, v in o.items():
                go(k, path + '.key')
                go(v, path + '.%s' % (k,))
        elif isinstance(o, (list, set)):
            for v in o:
                go(v, path + '[]')
        d = getattr(o, '__dict__', None)
        if isinstance(d, dict):
            for k, v in d.items():
                go(v, path + '.' + k)
    go(obj, '')
    return out, keep


class Files(object):
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='mdp-n06-')
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def duplicate(obj, how):
    if how == 'copy':
        return obj.copy()
    if how == 'deepcopy':
        return copy.deepcopy(obj)
    if how.startswith('pickle'):
        return pickle.loads(pickle.dumps(obj, int(how[6:])))
    if how == 'string':
        return pickle.loads(obj.save(None))
    if how.startswith('file'):
        with Files() as f:
            name = os.path.join(f.dir, 'x')
            r = obj.save(name, *([int(how[4:])] if how[4:] else []))
            check(r is None and os.listdir(f.dir) == ['x'], 'save(filename) returns %r and leaves %s' % (r, os.listdir(f.dir)), 'save')
            with open(name, 'rb') as fh:
                return pickle.load(fh)
    raise ValueError(how)


HOW = ['copy', 'deepcopy', 'pickle0', 'pickle2', 'pickle-1', 'string', 'file', 'file0']


def plain(v):
    """result in comparable form"""
    if isinstance(v, np.ndarray):
        return ('array', v.shape, str(v.dtype), v.tobytes())
    if isinstance(v, (tuple, list)):
        return tuple(plain(i) for i in v)
    if isinstance(v, dict):
        return tuple(sorted((repr(k), plain(i)) for k, i in v.items()))
    return repr(v)


# ------------------------------------------------------------------ lives of nodes
ALL = dict(C.E)
ALL.update(BOX)


def bi_entries():
    out = {}
    for e in C.E.values():
        if e.cls in ('PCANode', 'SFANode', 'IdentityNode', 'GaussianClassifier', 'KNNClassifier', 'OnlineCenteringNode', 'CCIPCANode', 'NormalizeNode') and '/' not in e.name:
            out['bi-' + e.name] = e
    return out


BI = bi_entries()


def fresh(entry):
    if entry.startswith('bi-'):
        return C.bimake(BI[entry], node_id='it', stop_result=({'k': [1]}, None) if entry != 'bi-IdentityNode' else None)
    return ALL[entry].make()


def life(entry):
    """list of calls of a whole life"""
    e = BI[entry] if entry.startswith('bi-') else ALL[entry]
    bi = entry.startswith('bi-')
    n = len(e.x)
    node = fresh(entry)
    half = n // 2 if n // 2 >= (e.minrows or 1) and e.cls not in ('LLENode', 'HLLENode', 'iGSFANode', 'XSFANode') else n
    parts = [(0, half), (half, n)] if half < n else [(0, n)]
    phases = node.get_remaining_train_phase() if node.is_trainable() else 0
    if e.dynphases:
        node.train(e.x.copy(), *e.extra(0, n))
        phases = node.get_remaining_train_phase()
    names = None
    calls = []

    def train(a, b):
        def f(nd):
            ex = e.extra(a, b)
            if bi and ex:
                from .B01 import names_of_args
                return nd.train(e.x[a:b].copy(), dict(zip(names_of_args(nd), ex)))
            return nd.train(e.x[a:b].copy(), *ex)
        return f
    for ph in range(phases):
        for a, b in parts:
            calls.append(('train %d:%d' % (a, b), train(a, b)))
        calls.append(('stop', lambda nd: nd.stop_training()))
    calls.append(('execute', lambda nd: C.execute(nd, e, seed=False)))
    if isinstance(node, mdp.ClassifierNode) and type(node)._label is not mdp.ClassifierNode._label:
        calls.append(('label', lambda nd: nd.label(e.probe)))
    if node.is_invertible() and not e.singlerow and not e.window and not e.needs_exec_arg and e.cls != 'SFA2Node':
        calls.append(('inverse', lambda nd: nd.inverse(C.execute(nd, e, seed=False))))
    calls.append(('execute', lambda nd: C.execute(nd, e, seed=False)))
    return calls


def perform(obj, call):
    C._seed()
    try:
        return ('result', plain(call(obj)))
    except Exception as ex:
        return ('error', type(ex).__name__, str(ex))


def explore(ctx, what, make, calls, hows, orders, shared_ok=()):
    """duplicate after every prefix, go on in every order"""
    ref = make()
    expected = [perform(ref, f) for _, f in calls]
    check(all(r[0] == 'result' for r in expected), lambda: '%s: %s' % (what, [r for r in expected if r[0] == 'error']), 'life')
    for k in range(len(calls) + 1):
        for how in hows:
            for order in orders:
                where = lambda: '%s: %s after %s, then %s: ' % (what, how, [n for n, _ in calls[:k]], order)
                ctx.at(what, how, k, order)
                obj = make()
                for _, f in calls[:k]:
                    perform(obj, f)
                before = deep(obj)
                C._seed()
                dup = duplicate(obj, how)
                check(type(dup) is type(obj), lambda: where() + 'duplicate is a %s' % type(dup).__name__, 'type')
                check(deep(obj) == before, lambda: where() + 'the original changed: %s' % diff(deep(obj), before), 'original')
                if how in ('copy', 'deepcopy'):
                    check(deep(dup) == before, lambda: where() + 'the duplicate differs: %s' % diff(deep(dup), before), 'differs')
                (ma, ka), (mb, kb) = mutable(obj), mutable(dup)
                common = [p for i, p in ma.items() if i in mb and not any(p.startswith(s) for s in shared_ok)]
                check(not common, lambda: where() + 'original and duplicate share %s' % common[:5], 'shared')
                del ma, ka, mb, kb
                got = {0: list(expected[:k]), 1: list(expected[:k])}
                objs = {0: obj, 1: dup}
                rest = calls[k:]
                if order == 'original-first':
                    seq = [0] * len(rest) + [1] * len(rest)
                elif order == 'duplicate-first':
                    seq = [1] * len(rest) + [0] * len(rest)
                else:
                    seq = [0, 1] * len(rest)
                pos = {0: k, 1: k}
                frozen = None
                for i, who in enumerate(seq):
                    if order != 'alternating' and i in (0, len(rest)):
                        frozen = deep(objs[1 - who])
                    name, f = calls[pos[who]]
                    r = perform(objs[who], f)
                    check(r == expected[pos[who]], lambda: where() + '%s of the %s gives %s instead of %s' % (name, 'duplicate' if who else 'original', str(r)[:300], str(expected[pos[who]])[:300]), 'continuation')
                    pos[who] += 1
                    ctx.step()
                    if frozen is not None and i in (len(rest) - 1, 2 * len(rest) - 1):
                        check(deep(objs[1 - who]) == frozen, lambda: where() + 'calls on one object changed the other: %s' % diff(deep(objs[1 - who]), frozen), 'influence')
                ctx.execution()
                if k and rest:
                    ctx.mark(what, how, k, order)
        ctx.state(what, k)


def nodes(ctx, entry, how):
    e = BI[entry] if entry.startswith('bi-') else ALL[entry]
    if e.nopickle and how not in ('copy', 'deepcopy') and e.cls != 'LibSVMClassifier':
        return ctx.note('given a lambda')
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        explore(ctx, entry, lambda: (C._seed(), fresh(entry))[1], life(entry), [how], ['original-first', 'duplicate-first', 'alternating'])


# ------------------------------------------------------------------ flows
def X():
    return C.slow(24, 4)


def on(i):
    return lambda f: f[i]


FLOWS = {
    'Flow': lambda: mdp.Flow([N.PCANode(output_dim=3), N.PolynomialExpansionNode(2), N.SFANode(output_dim=2)]),
    'Flow/verbose': lambda: mdp.Flow([N.IdentityNode(), N.NormalizeNode()], crash_recovery='somewhere', verbose=False),
    'CheckpointFlow': lambda: mdp.CheckpointFlow([N.PCANode(), N.SFANode()]),
    'ParallelFlow': lambda: mdp.parallel.ParallelFlow([N.PCANode(), N.SFANode()]),
    'ParallelCheckpointFlow': lambda: mdp.parallel.ParallelCheckpointFlow([N.PCANode(), N.SFANode()]),
    'OnlineFlow': lambda: mdp.OnlineFlow([N.OnlineCenteringNode(), N.CCIPCANode(output_dim=2, numx_rng=np.random.RandomState(4))]),
    'CircularOnlineFlow': lambda: mdp.CircularOnlineFlow([N.OnlineCenteringNode(), N.IdentityNode()]),
    'BiFlow': lambda: bimdp.BiFlow([bimdp.nodes.PCABiNode(node_id='a'), N.SFANode(), bimdp.nodes.IdentityBiNode(node_id='c')]),
    'BiCheckpointFlow': lambda: bimdp.BiCheckpointFlow([bimdp.nodes.PCABiNode(node_id='a'), N.SFANode()]) if hasattr(bimdp, 'BiCheckpointFlow') else None,
    'hinet': lambda: mdp.Flow([H.Switchboard(4, [0, 1, 2, 3, 1, 2]), H.Layer([N.SFANode(input_dim=3, output_dim=2), N.PCANode(input_dim=3, output_dim=1)]), H.FlowNode(mdp.Flow([N.PolynomialExpansionNode(2), N.SFANode(output_dim=2)]))]),
    'clone': lambda: mdp.Flow([H.CloneLayer(H.FlowNode(mdp.Flow([N.PCANode(input_dim=2), N.NormalizeNode()])), 2), N.SFANode()]),
    'biclone': lambda: bimdp.BiFlow([bimdp.hinet.CloneBiLayer(bimdp.hinet.BiFlowNode(bimdp.BiFlow([bimdp.nodes.PCABiNode(input_dim=2, node_id='p'), N.NormalizeNode()])), 2, node_id='L'), N.SFANode()]),
    'bicopies': lambda: bimdp.BiFlow([bimdp.hinet.CloneBiLayer(bimdp.nodes.PCABiNode(input_dim=2, node_id='p'), 2, use_copies=True, node_id='L'), N.SFANode()]),
    'same-node': lambda: (lambda n: mdp.Flow([n, N.IdentityNode(), n]))(N.NormalizeNode()),
    'twice': lambda: (lambda c: mdp.Flow([N.CutoffNode(-1, 1), H.SameInputLayer([c, c])]))(N.PolynomialExpansionNode(2, input_dim=4)),
    'nested': lambda: mdp.Flow([H.FlowNode(mdp.Flow([N.PCANode(), H.FlowNode(mdp.Flow([N.NormalizeNode(), N.SFANode()]))]))]),
}


def flow_life(name):
    x = X()
    calls = []
    if not name.startswith('bi') and name != 'BiFlow':
        calls.append(('train first node by hand', lambda f: f[0].train(x[:12]) if f[0].is_training() and name not in ('same-node',) else None))
    if name.startswith(('Online', 'Circular')):
        calls.append(('train', lambda f: f.train([x[:12], x[12:]])))
        calls.append(('train', lambda f: f.train(x[:5])))
    elif 'heckpoint' in name:
        calls.append(('train', lambda f: f.train([[x]] * len(f), [None] * len(f)) if not name.startswith('Bi') else f.train([[x]] * len(f), None, None, [None] * len(f))))
    elif name == 'same-node':
        calls.append(('train', lambda f: f.train([[x], None, [x]])))
    else:
        calls.append(('train', lambda f: f.train([[x[:12], x[12:]]] * len(f)) if name != 'Flow/verbose' else f.train(x)))
    calls.append(('execute', lambda f: f.execute(x[:5])))
    calls.append(('edit', lambda f: f.append(N.CutoffNode(-.5, .5)) if name != 'ParallelX' and hasattr(f, 'append') else None))
    calls.append(('execute list', lambda f: f.execute([x[:3], x[3:7]])))
    calls.append(('delete', lambda f: f.pop() and None))
    calls.append(('execute', lambda f: f(x)))
    return calls


def flows(ctx, name, how):
    make = FLOWS[name]
    if make() is None:
        return
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        explore(ctx, name, make, flow_life(name), [how], ['original-first', 'duplicate-first', 'alternating'])


def chain(ctx, kind, name, how, how2):
    """duplicates of duplicates, each made at every later moment, with an extension switched on or off in between"""
    import warnings
    if kind == 'node':
        e = BI[name] if name.startswith('bi-') else ALL[name]
        if e.nopickle:
            return ctx.note('given a lambda')
        make, calls = lambda: (C._seed(), fresh(name))[1], life(name)
    else:
        make, calls = FLOWS[name], flow_life(name)
        if make() is None:
            return
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ref = make()
        expected = [perform(ref, f) for _, f in calls]
        check(all(r[0] == 'result' for r in expected), lambda: '%s: %s' % (name, [r for r in expected if r[0] == 'error']), 'life')
        for k1 in range(len(calls) + 1):
            for k2 in range(k1, len(calls) + 1):
                for ext in (None,) + tuple(x for x in ('parallel', 'cache_execute') if x in mdp.get_extensions()):
                    ctx.at(name, how, how2, k1, k2, ext)
                    where = lambda: '%s: %s after %d calls, %s of that after %d calls (%s active): ' % (name, how, k1, how2, k2, ext)
                    obj = make()
                    for _, f in calls[:k1]:
                        perform(obj, f)
                    try:
                        if ext:
                            mdp.activate_extension(ext)
                        C._seed()
                        d1 = duplicate(obj, how)
                    finally:
                        if ext:
                            mdp.deactivate_extension(ext)
                    for i in range(k1, k2):
                        r = perform(d1, calls[i][1])
                        check(r == expected[i], lambda: where() + '%s of the duplicate gives %s instead of %s' % (calls[i][0], str(r)[:300], str(expected[i])[:300]), 'chain')
                    C._seed()
                    d2 = duplicate(d1, how2)
                    for who, o, k in (('second duplicate', d2, k2), ('original', obj, k1), ('first duplicate', d1, k2)):
                        for i in range(k, len(calls)):
                            r = perform(o, calls[i][1])
                            ctx.step()
                            check(r == expected[i], lambda: where() + '%s of the %s gives %s instead of %s' % (calls[i][0], who, str(r)[:300], str(expected[i])[:300]), 'chain')
                    ctx.execution()
                    if k1 < k2 < len(calls):
                        ctx.mark(name, how, how2, k1, k2, ext)


SCENARIOS = dict(nodes=nodes, flows=flows, chain=chain)
HANG_S = 120


def cases(tier):
    for how in HOW:
        for e in list(ALL) + list(BI):
            yield 'nodes', dict(entry=e, how=how)
        for f in FLOWS:
            yield 'flows', dict(name=f, how=how)
    pairs = [('copy', 'copy'), ('pickle-1', 'copy')] if tier == 'quick' else [(a, b) for a in ('copy', 'pickle-1', 'string', 'file0') for b in ('copy', 'pickle2', 'file')]
    for a, b in pairs:
        for e in list(ALL) + list(BI):
            yield 'chain', dict(kind='node', name=e, how=a, how2=b)
        for f in FLOWS:
            yield 'chain', dict(kind='flow', name=f, how=a, how2=b)
