"""B01: bidirectional flows, layers, flow nodes and nodes without messages against their ordinary counterparts;
inspected runs against runs without inspection."""
import contextlib
import io
import itertools
import os
import shutil
import tempfile
import numpy as np
import mdp
import bimdp
from bimdp import BiFlow, BiNode
from bimdp.hinet import BiFlowNode, CloneBiLayer
from ..core import check
from ..deep import deep, diff
from .. import inst as I
from .. import catalog as C

LEVEL = 'model_checking'
RULE = 'bidirectional flow or layer with a trainable node, or an inspected run of more than one node'
ASSUMPTIONS = ['nodes of the flow scenarios are instrumented (exact integer arithmetic)', 'a BiFlow closes the last phase of every node right away, a Flow when the node is first executed',
               'additional training arguments of a BiFlow come in messages (documented)', 'inspection is given data of which a sample can be taken (no empty iterators)']
X = np.array([[1., 4.], [-2., 3.], [0., 5.], [7., -1.]])


# ------------------------------------------------------------------ bidirectional versions of the instrumented kinds
class Dim(object):
    '''the output dimension follows from the input dimension'''
    def _set_input_dim(self, n):
        self._input_dim = n
        self._output_dim = n + self.WIDEN


class BU(Dim, BiNode, I.RecU):
    pass


class BW(Dim, BiNode, I.RecW):
    pass


class BN(Dim, BiNode, I.RecN):
    pass


class B1(Dim, BiNode, I.Rec1):
    pass


class B2(Dim, BiNode, I.Rec2):
    pass


class B3(Dim, BiNode, I.Rec3):
    pass


class BS(Dim, BiNode, I.Rec):
    def _t(self, x, lab):
        self._tr(0, x, lab)

    def _get_train_seq(self):
        return [(self._t, lambda: self._st(0))]


class BO(Dim, BiNode, I.Rec):
    def _t(self, x, lab=None):
        if lab is None:
            self._tr(0, x)
        else:
            self._tr(0, x, lab)

    def _get_train_seq(self):
        return [(self._t, lambda: self._st(0))]


BK = {'U': BU, 'W': BW, 'N': BN, '1': B1, '2': B2, '3': B3, 'S': BS, 'O': BO}
KO = {k: type('O' + k, (Dim, I.KINDS[k]), {'__module__': __name__}) for k in BK}
globals().update({c.__name__: c for c in KO.values()})
NEED = '123SO'


def chain(kinds, dress):
    """dress: one letter per node, o ordinary, b bidirectional"""
    return [(BK[k](tag='%d%s' % (i, k), node_id='n%d' % i) if d == 'b' else KO[k]('%d%s' % (i, k))) for i, (k, d) in enumerate(zip(kinds, dress))]


CHUNKS = [[4], [1, 3], [2, 1, 1]]


class Again(object):
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(list(self.items))


def cut(x, code):
    out, p = [], 0
    for n in CHUNKS[code]:
        out.append(x[p:p + n].copy())
        p += n
    return out


def same(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and bool((a == b).all())


def val(r):
    '''the data of a result (y, {})'''
    return r[0] if isinstance(r, tuple) and len(r) == 2 and not r[1] else r


def flows(ctx, kinds, form, code):
    """train, execute and invert a BiFlow of every dress against the Flow of the ordinary nodes"""
    labelled = [k in 'SO' and form != 'array' for k in kinds]
    if form == 'array' and 'S' in kinds:
        return
    xs = [cut(X + i, (code + i) % 3) for i in range(len(kinds))]
    labs = [[np.arange(len(c)) + 5 * i + j for j, c in enumerate(x)] for i, x in enumerate(xs)]
    wrap = {'lists': list, 'again': Again, 'gen': lambda l: (v for v in l), 'none': list}.get(form)
    ref = mdp.Flow(chain(kinds, 'o' * len(kinds)))
    data = X.copy() if form == 'array' else [None if form == 'none' and k not in NEED else wrap([(x, l) for x, l in zip(a, b)] if f else a) for a, b, f, k in zip(xs, labs, labelled, kinds)]
    err = None
    try:
        ref.train(data)
    except Exception as e:
        err = e
    for nd in ref:
        if nd.is_training() and err is None:
            nd.stop_training()
    for dress in itertools.product('ob', repeat=len(kinds)):
        if any(f and d == 'o' for f, d in zip(labelled, dress)):
            continue
        where = lambda: 'kinds %s as %s, data form %s/%d: ' % (kinds, ''.join(dress), form, code)
        ctx.at(kinds, dress, form, code)
        nodes = chain(kinds, dress)
        flow = BiFlow(nodes)
        bx = X.copy() if form == 'array' else [None if form == 'none' and k not in NEED else wrap(list(a)) for a, k in zip(xs, kinds)]
        msgs = None
        if any(labelled):
            msgs = [None if not f else wrap([{'n%d->lab' % i: v} for v in l]) for i, (f, l) in enumerate(zip(labelled, labs))]
        berr = None
        try:
            flow.train(bx, msgs)
        except Exception as e:
            berr = e
        ctx.step()
        check((err is None) == (berr is None), lambda: where() + 'training gives %r, in an ordinary flow %r' % (berr, err), 'train-outcome')
        if err is not None:
            check(isinstance(berr, mdp.FlowException), lambda: where() + 'training gives %r' % (berr,), 'train-error')
            continue
        for a, b in zip(flow, ref):
            check(a.log == b.log and a.acc == b.acc, lambda: where() + 'node %s saw\n%r\nin the ordinary flow\n%r' % (b.tag, a.log, b.log), 'log')
            check(not a.is_training(), lambda: where() + 'node %s still in training' % b.tag, 'state')
        check([id(a) for a in flow] == [id(b) for b in nodes], lambda: where() + 'nodes replaced', 'nodes')
        y = ref(X)
        runs = [('array', lambda f: f(X)), ('execute', lambda f: f.execute(X)), ('list', lambda f: f([X[:1], X[1:3], X[3:]])), ('gen', lambda f: f(r[None, :] for r in X)), ('again', lambda f: f.execute(Again([X[:3], X[3:]]))),
                ('target', lambda f: f.execute(X, None, None)), ('msgs', lambda f: f.execute([X[:1], X[1:]], [None, None])), ('slice', lambda f: f[:](X)), ('copy', lambda f: f.copy()(X)), ('sum', lambda f: (f[:1] + f[1:])(X)) if len(kinds) > 1 else ('again', lambda f: f(X)),
                ('nested', lambda f: BiFlow([BiFlowNode(f)])(X)), ('empty', lambda f: f.execute(X, {}))]
        for name, fn in runs:
            r = val(fn(flow))
            check(isinstance(r, np.ndarray) and same(r, y), lambda: where() + 'execution (%s) gives %r instead of %r' % (name, r, y.tolist()), 'execute')
            ctx.step()
        for a, b in zip(flow, ref):
            check(a.input_dim == b.input_dim and a.output_dim == b.output_dim, lambda: where() + 'node %s has dimensions %s -> %s' % (b.tag, a.input_dim, a.output_dim), 'dims')
        inv = [('array', lambda f: f.inverse(y)), ('list', lambda f: f.inverse([y[:2], y[2:]])), ('gen', lambda f: f.inverse(r[None, :] for r in y))]
        if all(d == 'b' for d in dress) and 'N' not in kinds:
            inv.append(('message', lambda f: f.execute(y, {'method': 'inverse'}, 'n%d' % (len(kinds) - 1))[0]))
        for name, fn in inv:
            try:
                r, e = val(fn(flow)), None
            except Exception as e1:
                r, e = None, e1
            if 'N' in kinds:
                check(isinstance(e, mdp.FlowException), lambda: where() + 'inversion (%s) through a non-invertible node gives %r' % (name, e), 'not-invertible')
            else:
                check(e is None and same(r, X), lambda: where() + 'inversion (%s) gives %r' % (name, e if e else r), 'inverse')
        check(flow.is_invertible() == ref.is_invertible() if hasattr(ref, 'is_invertible') else True, lambda: where() + 'is_invertible', 'flag')
        ctx.execution()
        ctx.outcome(tuple(a.acc for a in flow))
        if any(k in NEED for k in kinds):
            ctx.mark(kinds, dress, form, code)
    ctx.state(kinds, form, code)


# ------------------------------------------------------------------ layers and flow nodes by hand
def step_train(node, chunks, args=None):
    while node.is_trainable() and node.get_remaining_train_phase() > 0:
        for c in chunks:
            node.train(c)
        node.stop_training()


def counterpart(name, kinds):
    """(bidirectional, ordinary) containers over nodes of kinds; data width 4"""
    if name == 'flownode':
        return [BiFlowNode(BiFlow(chain(kinds, d))) for d in itertools.product('ob', repeat=len(kinds))], mdp.hinet.FlowNode(mdp.Flow(chain(kinds, 'o' * len(kinds))))
    k = kinds[0]
    b = lambda: BK[k](tag='x', node_id='n', input_dim=2)
    o = lambda: KO[k]('x', input_dim=2)
    if name == 'clone':
        return [CloneBiLayer(b(), 2)], mdp.hinet.CloneLayer(o(), 2)
    if name == 'copies':
        return [CloneBiLayer(b(), 2, use_copies=True)], mdp.hinet.Layer([o(), o()])
    if name == 'clone-flownode':
        mk = lambda d, cls, fl: cls(fl(chain(kinds, d)), input_dim=2)
        return [CloneBiLayer(mk(d, BiFlowNode, BiFlow), 2) for d in itertools.product('ob', repeat=len(kinds))], mdp.hinet.CloneLayer(mk('o' * len(kinds), mdp.hinet.FlowNode, mdp.Flow), 2)
    if name == 'copies-flownode':
        mk = lambda d, cls, fl: cls(fl(chain(kinds, d)), input_dim=2)
        return [CloneBiLayer(mk(d, BiFlowNode, BiFlow), 2, use_copies=True) for d in itertools.product('ob', repeat=len(kinds))], mdp.hinet.Layer([mk('o' * len(kinds), mdp.hinet.FlowNode, mdp.Flow) for _ in range(2)])
    raise ValueError(name)


def leaves(node):
    if isinstance(node, mdp.hinet.FlowNode):
        return [l for n in node._flow for l in leaves(n)]
    if isinstance(node, mdp.hinet.Layer):
        return [l for n in node.nodes for l in leaves(n)]
    return [node]


def containers(ctx, name, kinds, code):
    width = 2 if name == 'flownode' else 4
    x = np.hstack([X, X[::-1] * 2])[:, :width]
    chunks = cut(x, code)
    bis, ref = counterpart(name, kinds)
    step_train(ref, chunks)
    y = ref.execute(x)
    invertible = ref.is_invertible()
    for i, b in enumerate(bis):
        where = lambda: '%s %s, variant %d, chunking %d: ' % (name, kinds, i, code)
        ctx.at(name, kinds, i, code)
        step_train(b, chunks)
        for p, q in zip(leaves(b), leaves(ref)):
            check(p.log == q.log and p.acc == q.acc, lambda: where() + 'a node saw\n%r\nin the ordinary container\n%r' % (p.log, q.log), 'container-log')
        r = b.execute(x)
        check(isinstance(r, np.ndarray) and same(r, y), lambda: where() + 'execution gives %r instead of %r' % (r, y.tolist()), 'container-execute')
        r = val(BiFlow([b])(x))
        check(same(r, y), lambda: where() + 'execution in a flow gives %r' % (r,), 'container-flow')
        check(b.is_invertible() == invertible, lambda: where() + 'is_invertible() gives %s' % b.is_invertible(), 'container-flag')
        if invertible:
            r = b.inverse(y)
            check(same(r, x), lambda: where() + 'inversion gives %r' % (r,), 'container-inverse')
            if all(isinstance(l, BiNode) for l in leaves(b)):
                r = b.execute(y, {'method': 'inverse'})
                check(isinstance(r, tuple) and same(r[0], x) and r[-1] == -1, lambda: where() + 'inversion by message gives %r' % (r,), 'container-inverse-msg')
        check((b.output_dim in (None, ref.output_dim)), lambda: where() + 'output_dim %r, ordinary %r' % (b.output_dim, ref.output_dim), 'container-dim')
        c = b.copy()
        check(same(c.execute(x), y), lambda: where() + 'copy gives another result', 'container-copy')
        ctx.execution()
        ctx.mark(name, kinds, i, code)
    ctx.state(name, kinds, code)


# ------------------------------------------------------------------ generated nodes
def generated(ctx, entry, cuts):
    e = C.E[entry]
    with C_quiet():
        _generated(ctx, entry, e, cuts)


@contextlib.contextmanager
def C_quiet():
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        yield


def names_of_args(node):
    import inspect
    return inspect.getfullargspec(node._train_seq[node._train_phase][0]).args[2:]


def _generated(ctx, entry, e, cuts):
    a = e.make()
    b = C.bimake(e, node_id='it')
    if type(b) is type(e.make()):
        return ctx.note('without generated version')
    check(b.node_id == 'it' and isinstance(b, BiNode) and isinstance(b, type(a)), lambda: '%s: generated node %s' % (entry, type(b).__mro__), 'generated-class')
    fresh = e.make()
    check(b.is_trainable() == fresh.is_trainable() and b.is_invertible() == fresh.is_invertible() and (b.input_dim, b.output_dim, b.dtype) == (fresh.input_dim, fresh.output_dim, fresh.dtype)
          and b.get_remaining_train_phase() == fresh.get_remaining_train_phase(), lambda: '%s: generated node differs from the original when new' % entry, 'generated-new')
    check(type(b).__name__ in repr(b) and 'it' in repr(b) and str(b), lambda: '%s: generated node is printed as %r' % (entry, b), 'generated-print')
    try:
        C.train(e.make(), e, cuts)
    except mdp.MDPException:
        return ctx.note('chunks too small for the node')
    n = len(e.x)
    pts = [0] + sorted(cuts) + [n]
    for by_msg in (False, True):
        b = C.bimake(e, node_id='it')
        C._seed()
        while b.is_trainable() and b.get_remaining_train_phase() > 0:
            for p, q in zip(pts, pts[1:]):
                ex = e.extra(p, q)
                if ex:
                    names = names_of_args(b)
                    msg = {('it->' if by_msg else '') + k: v for k, v in zip(names, ex)}
                    r = b.train(e.x[p:q].copy(), msg)
                elif by_msg:
                    r = b.train(e.x[p:q].copy(), {'other': 1})
                else:
                    r = b.train(e.x[p:q].copy())
                check(r is None, lambda: '%s: training returns %r' % (entry, r), 'generated-train')
            C._seed()
            r = b.stop_training({'other': 1} if by_msg else None)
            check(r is None or (by_msg and r[0] is None), lambda: '%s: closing returns %r' % (entry, r), 'generated-stop')
        a = C.train(e.make(), e, cuts)
        ya, yb = C.execute(a, e), C.execute(b, e)
        check(C.close(ya, yb, 1e-12), lambda: '%s: generated node gives %r instead of %r' % (entry, yb, ya), 'generated-execute')
        if not e.singlerow and not e.needs_exec_arg:
            ya = C.execute(a, e)
            C._seed()
            y2 = b.execute(e.probe, {'unused': 7})
            check(isinstance(y2, tuple) and y2[1] == {'unused': 7} and C.close(y2[0], ya, 1e-12), lambda: '%s: with a message: %r' % (entry, y2), 'generated-message')
        if a.is_invertible() and not e.singlerow and not e.needs_exec_arg and not e.random and not e.sampleinv:
            ia = a.inverse(ya)
            check(C.close(ia, b.inverse(ya), 1e-12), lambda: '%s: inversion differs' % entry, 'generated-inverse')
            r = b.execute(ya, {'method': 'inverse'})
            check(isinstance(r, tuple) and r[-1] == -1 and C.close(r[0], ia, 1e-12), lambda: '%s: inversion by message gives %r' % (entry, r), 'generated-inverse-msg')
        if isinstance(a, mdp.ClassifierNode) and isinstance(b, bimdp.BiClassifier):
            for key, m in (('return_labels', 'label'), ('return_probs', 'prob'), ('return_ranks', 'rank')):
                if entry == 'LibSVMClassifier' and m != 'label':
                    continue
                try:
                    exp = getattr(a, m)(e.probe)
                except (NotImplementedError, AttributeError):
                    continue
                C._seed()
                exp = getattr(a, m)(e.probe)
                for flag in (True, 'my_'):
                    C._seed()
                    r = b.execute(e.probe, {key: flag})
                    name = ('' if flag is True else flag) + key[7:]
                    check(isinstance(r, tuple) and name in r[1] and C.close(r[0], ya, 1e-12) and repr(np.asarray(r[1][name]).tolist()) == repr(np.asarray(exp).tolist()), lambda: '%s: %s gives %r instead of %r' % (entry, key, r, exp), 'generated-class')
        ctx.execution()
        ctx.step(3)
        ctx.mark(entry, cuts, by_msg)
    ctx.state(entry, cuts)


# ------------------------------------------------------------------ inspection
class BL(BiNode, I.Rec1):
    """accepts and adds messages"""
    def _execute(self, x, k=0):
        y = I.Rec1._execute(self, x)
        return y, {'k': k + 1, 'big': y}


BL.__name__ = 'BL'


class ST(BU):
    """counts its executions and adds the count"""
    calls = 0

    def _execute(self, x):
        self.calls += 1
        return BU._execute(self, x) + 1000 * self.calls


def bi(cls, tag, **k):
    return cls(tag=tag, node_id=tag, **k)


STRUCT = {
    'flow': lambda: mdp.Flow([I.Rec1('a'), I.RecU('b'), I.Rec2('c')]),
    'biflow': lambda: BiFlow([bi(BU, 'a'), bi(B2, 'b'), I.Rec1('c')]),
    'msg': lambda: BiFlow([bi(BL, 'a'), bi(B1, 'b'), bi(BL, 'c')]),
    'flownode': lambda: mdp.Flow([I.Rec1('a'), mdp.hinet.FlowNode(mdp.Flow([I.Rec1('b'), I.RecU('c')]))]),
    'biflownode': lambda: BiFlow([bi(B1, 'a'), BiFlowNode(BiFlow([bi(B1, 'b'), bi(BL, 'c')]), node_id='F')]),
    'layer': lambda: mdp.Flow([I.RecU('a'), mdp.hinet.Layer([I.Rec1('b', input_dim=2), I.RecU('c', input_dim=2)])]),
    'clone': lambda: mdp.Flow([mdp.hinet.CloneLayer(I.Rec1('a', input_dim=2), 2), I.Rec1('b')]),
    'clone-bi': lambda: BiFlow([CloneBiLayer(bi(B1, 'a', input_dim=2), 2, node_id='L'), bi(B1, 'b')]),
    'copies-bi': lambda: BiFlow([CloneBiLayer(bi(B1, 'a', input_dim=2), 2, use_copies=True, node_id='L'), bi(B1, 'b')]),
    'clone-nested': lambda: BiFlow([CloneBiLayer(BiFlowNode(BiFlow([bi(B1, 'a', input_dim=2), bi(BU, 'b')])), 2, node_id='L'), I.RecU('c')]),
    'clone-flownode': lambda: mdp.Flow([mdp.hinet.CloneLayer(mdp.hinet.FlowNode(mdp.Flow([I.Rec1('a', input_dim=2), I.RecU('b')])), 2)]),
    'same': lambda: mdp.Flow([I.RecU('a'), mdp.hinet.SameInputLayer([I.Rec1('b', input_dim=4), I.RecU('c', input_dim=4)])]),
}
STRUCT['state'] = lambda: BiFlow([bi(ST, 'a'), bi(B1, 'b')])
STRUCT['clone-state'] = lambda: BiFlow([CloneBiLayer(bi(ST, 'a', input_dim=2), 2, node_id='L'), bi(B1, 'b')])
W = 4
XI = np.hstack([X, X[::-1] + 1])
SKIP = ('elog', 'count')


def all_nodes(nodes, out=None):
    out = [] if out is None else out
    for n in nodes:
        out.append(n)
        if isinstance(n, mdp.hinet.FlowNode):
            all_nodes(n._flow, out)
        elif isinstance(n, mdp.hinet.Layer):
            all_nodes(n.nodes, out)
    return out


def trained(struct):
    f = STRUCT[struct]()
    f.train(XI.copy())
    for n in all_nodes(f):
        if n.is_training():
            n.stop_training()
    return f


def arm(flow, fault):
    """fault: (index of the instrumented node, operation, phase, count)"""
    leaf = [n for n in all_nodes(flow) if isinstance(n, I.Rec)]
    for n in leaf:
        n.fault, n.count = None, {}
    if fault:
        i, op, ph, k = fault
        if i >= len(leaf):
            return False
        leaf[i].fault = (op, ph, k)
    return True


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='mdp-b01-')
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(fn):
    try:
        return 'ok', fn()
    except I.Injected as e:
        return 'injected', None
    except (mdp.FlowException, mdp.NodeException) as e:
        return 'failed', None


def canon(r):
    if isinstance(r, tuple):
        return tuple(canon(v) for v in r)
    if isinstance(r, dict):
        return sorted((k, canon(v)) for k, v in r.items())
    return r.tolist() if isinstance(r, np.ndarray) else r


def show_execution(ctx, struct, fault, debug, way):
    """executions, inspected and not, of two flows in lockstep"""
    flow, twin = trained(struct), trained(struct)
    if not arm(flow, fault):
        return
    ids = [id(n) for n in all_nodes(flow)]
    arm(twin, fault)
    isbi = isinstance(flow, BiFlow)
    args = {'x': (XI,), 'msg': (XI, {'k': 3}), 'idmsg': (XI, {'a->k': 3, 'other': 'text'}), 'target': (XI, None, 'b'), 'target-msg': (XI, {'k': 1}, 'b'), 'list': ([XI[:2], XI[2:]],)}[way]
    if way not in ('x', 'list') and not isbi:
        return
    where = lambda: '%s, %s, fault %s, debug %s: ' % (struct, way, fault, debug)
    k1, r1 = run(lambda: twin.execute(*args))
    with scratch() as d:
        from bimdp.inspection import show_execution as show, EmptyTraceException
        for n in all_nodes(flow):
            if isinstance(n, I.Rec):
                n.count = {}
        try:
            k2, r2 = run(lambda: show(flow, *args, path=d, open_browser=False, debug=debug))
        except EmptyTraceException:
            k2, r2 = 'empty', None
        check(r2 is None or os.path.exists(r2[0]), lambda: where() + 'no slide show written', 'slides')
        if k1 == 'ok':
            check(k2 == 'ok' and canon(r2[1]) == canon(r1), lambda: where() + 'inspected execution gives %s %r instead of %r' % (k2, r2, r1), 'inspect-result')
        elif debug:
            check(k2 in ('ok', 'empty'), lambda: where() + 'with debug a failure gives %s' % k2, 'inspect-debug')
        else:
            check(k2 == k1, lambda: where() + 'inspected execution %s instead of %s' % (k2, k1), 'inspect-failure')
    flow_state(ctx, flow, twin, ids, where)
    arm(flow, None)
    arm(twin, None)
    for again in range(2):
        a, b = run(lambda: flow.execute(XI)), run(lambda: twin.execute(XI))
        check((a[0], canon(a[1])) == (b[0], canon(b[1])), lambda: where() + 'afterwards an execution gives %r instead of %r' % (a, b), 'inspect-after')
    if fault is None:
        try:
            c = flow.copy()
        except Exception as e:
            c = None
            check(False, lambda: where() + 'cannot be copied afterwards: %r' % e, 'inspect-copy')
        check(canon(c.execute(XI)) == canon(twin.execute(XI)), lambda: where() + 'copy differs', 'inspect-copy')
    ctx.execution()
    ctx.outcome(k1, k2)
    ctx.state(struct, fault, way, debug)
    ctx.mark(struct, fault, way, debug)


def flow_state(ctx, flow, twin, ids, where):
    now, before = deep(flow, SKIP), deep(twin, SKIP)
    check(now == before, lambda: where() + 'inspection left a trace: %s' % diff(now, before), 'residue')
    check(ids is None or [id(n) for n in all_nodes(flow)] == ids, lambda: where() + 'nodes were replaced', 'replaced')


def show_training(ctx, struct, fault, debug, form):
    flow, twin = STRUCT[struct](), STRUCT[struct]()
    if not arm(flow, fault):
        return
    arm(twin, fault)
    isbi = isinstance(flow, BiFlow)
    chunks = lambda: [XI[:1].copy(), XI[1:].copy()]

    def data():
        return {'array': lambda: XI.copy(), 'lists': lambda: [chunks() for _ in flow], 'none': lambda: [chunks() if n.is_trainable() else None for n in flow],
                'gen': lambda: [iter(chunks()) for _ in flow], 'again': lambda: [Again(chunks()) for _ in flow], 'msgs': lambda: [chunks() for _ in flow]}[form]()
    args = (data(),)
    targs = (data(),)
    if form == 'msgs':
        if not isbi:
            return
        args += ([[{'m': 1}, {'m': 2}] for _ in flow], [{'target': 'exit'} if isinstance(n, BiNode) else None for n in flow])
        targs += ([[{'m': 1}, {'m': 2}] for _ in flow], [{'target': 'exit'} if isinstance(n, BiNode) else None for n in flow])
    if form == 'gen' and any(n.is_trainable() and n.get_remaining_train_phase() > 1 for n in flow):
        return
    before_args = deep(args)
    given = [id(v) for v in args[0]] if isinstance(args[0], list) else None
    ids = [id(n) for n in all_nodes(flow)]
    where = lambda: '%s, training data %s, fault %s, debug %s: ' % (struct, form, fault, debug)
    k1, _ = run(lambda: twin.train(*targs))
    with scratch() as d:
        from bimdp.inspection import show_training as show, EmptyTraceException
        try:
            k2, r2 = run(lambda: show(flow, *args, path=d, open_browser=False, debug=debug))
        except EmptyTraceException:
            k2 = 'empty'
        if k1 == 'ok':
            check(k2 == 'ok' and os.path.exists(r2), lambda: where() + 'inspected training: %s' % k2, 'train-inspect-result')
        elif debug:
            check(k2 in ('ok', 'empty'), lambda: where() + 'with debug a failure gives %s' % k2, 'train-inspect-debug')
        else:
            check(k2 == k1, lambda: where() + 'inspected training %s instead of %s' % (k2, k1), 'train-inspect-failure')
    a, b = deep(flow, SKIP + ('_crash_recovery',)), deep(twin, SKIP + ('_crash_recovery',))
    if k1 == 'ok' or not debug:
        check(a == b, lambda: where() + 'flow differs from a flow trained without inspection: %s' % diff(a, b), 'train-residue')
    else:
        check(not any(k.startswith(('_snapshot', '_insp')) or k == '__getstate__' for k in vars(flow)), lambda: where() + 'inspection left attributes %s' % sorted(vars(flow)), 'train-residue')
    check([id(n) for n in all_nodes(flow)] == ids, lambda: where() + 'nodes were replaced', 'train-replaced')
    if form not in ('gen',):
        check(deep(args) == before_args, lambda: where() + 'arguments changed: %s' % diff(deep(args), before_args), 'train-args')
    if given is not None:
        check([id(v) for v in args[0]] == given, lambda: where() + 'list of the caller was changed', 'train-list')
    if k1 == 'ok':
        arm(flow, None)
        arm(twin, None)
        check(canon(flow.execute(XI)) == canon(twin.execute(XI)), lambda: where() + 'execution differs afterwards', 'train-after')
        c = flow.copy()
        check(canon(c.execute(XI)) == canon(twin.execute(XI)), lambda: where() + 'copy differs afterwards', 'train-copy')
    ctx.execution()
    ctx.outcome(k1, k2)
    ctx.state(struct, fault, form, debug)
    ctx.mark(struct, fault, form, debug)


SCENARIOS = dict(flows=flows, containers=containers, generated=generated, show_execution=show_execution, show_training=show_training)


def cases(tier):
    q = tier == 'quick'
    for n in (1, 2, 3, 4):
        for kinds in itertools.product('UWN123SO' if n < 4 else 'UW12S' if q else 'UWN12SO', repeat=n):
            for form in ('array', 'lists', 'gen', 'none', 'again') if n < 4 else ('lists',):
                for code in (0, 1, 2) if n < 3 or n == 3 and not q else (1,):
                    yield 'flows', dict(kinds=''.join(kinds), form=form, code=code)
    for n in (1, 2, 3, 4):
        for kinds in itertools.product('UWN12' if n < 3 else 'UW12', repeat=n):
            for code in (0, 1, 2):
                for name in ('flownode', 'clone-flownode', 'copies-flownode') + (('clone', 'copies') if n == 1 else ()):
                    if name != 'flownode' and ('W' in kinds or q and n == 4):
                        continue
                    yield 'containers', dict(name=name, kinds=''.join(kinds), code=code)
    for e in C.E:
        n = len(C.E[e].x)
        for cuts in ([], [n // 2]) + (([n // 3, 2 * n // 3],) if n > 3 else ()) if q else [[]] + [list(c) for k in (1, 2) for c in itertools.combinations(range(1, n), k) if n <= 16 or k == 1]:
            yield 'generated', dict(entry=e, cuts=cuts)
    for s in STRUCT:
        for debug in (False, True):
            for way in ('x', 'msg', 'idmsg', 'target', 'target-msg', 'list'):
                for f in [None] + [(i, 'execute', None, k) for i in range(3) for k in (0,)]:
                    yield 'show_execution', dict(struct=s, fault=f, debug=debug, way=way)
            for form in ('array', 'lists', 'none', 'gen', 'again', 'msgs'):
                for f in [None] + [(i, op, ph, k) for i in range(3) for op, ph in (('train', 0), ('train', 1), ('stop', 0), ('execute', None)) for k in (0,)]:
                    yield 'show_training', dict(struct=s, fault=f, debug=debug, form=form)
