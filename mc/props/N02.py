"""N02: dimensions, numerical types and arguments of every call, for every node class, memory layout, numerical type and
moment of the life cycle; bad data at every moment; all orders of setting dimensions and type."""
import itertools
import numpy as np
import mdp
from ..core import check
from .. import catalog as C

LEVEL = 'model_checking'
RULE = 'trained node, or rejected data, or a dimension or type set twice'
ASSUMPTIONS = ['a numerical type is rejected while the type of the node is not fixed; afterwards data are cast to the type of the node (documented)',
               'arguments are compared at the end of the whole life cycle, so later changes of earlier arguments are seen too', 'data of zero rows are not part of the alphabet (covered by N01)']
H = mdp.hinet
N = mdp.nodes
P = lambda **k: N.PCANode(**k)


def box(name, make, d=4, **k):
    return C.Entry(name, make, x=C.slow(24, 4) if d == 4 else C.slow(24, d), **k)


BOX = {e.name: e for e in [
    box('FlowNode', lambda **k: H.FlowNode(mdp.Flow([N.PolynomialExpansionNode(2), N.PCANode(output_dim=3), N.NormalizeNode()]), **k)),
    box('FlowNode/pre', lambda **k: H.FlowNode(mdp.Flow([N.SFANode(input_dim=4, output_dim=2), N.PCANode()]), **k)),
    box('Layer', lambda **k: H.Layer([N.PCANode(input_dim=2, output_dim=1), N.SFANode(input_dim=1), N.IdentityNode(input_dim=1)], **k)),
    box('Layer/multi', lambda **k: H.Layer([N.FDANode(input_dim=2), N.FDANode(input_dim=2)], **k), extra=lambda a, b: (C._lab(a, b),)),
    box('CloneLayer', lambda **k: H.CloneLayer(N.PCANode(input_dim=2, output_dim=1), 2, **k)),
    box('SameInputLayer', lambda **k: H.SameInputLayer([N.PCANode(input_dim=4, output_dim=2), N.IdentityNode(input_dim=4)], **k)),
    box('Switchboard', lambda **k: H.Switchboard(input_dim=4, connections=[3, 2, 0, 1], **k)),
    box('Switchboard/part', lambda **k: H.Switchboard(input_dim=4, connections=[3, 0, 0], **k)),
    box('MeanInverseSwitchboard', lambda **k: H.MeanInverseSwitchboard(input_dim=4, connections=[3, 3, 0, 1, 2], **k)),
]}
ALL = dict(C.E)
ALL.update(BOX)


class Watch(object):
    """arrays given to the code under test, in one memory layout, with what they contained"""
    def __init__(self, layout):
        self.layout, self.seen = layout, []

    def __call__(self, a):
        if isinstance(a, list):
            b = list(a)
            self.seen.append((b, list(b)))
            return b
        if not isinstance(a, np.ndarray):
            return a
        if a.ndim != 2:
            b = a.copy()
        elif self.layout == 'F':
            b = np.asfortranarray(a.copy())
        elif self.layout == 'strided':
            big = np.zeros((2 * a.shape[0], 2 * a.shape[1] + 1), a.dtype)
            big[::2, 1::2] = a
            b = big[::2, 1::2]
        elif self.layout == 'rev':
            b = a[::-1, ::-1].copy()[::-1, ::-1]
        else:
            b = a.copy()
            if self.layout == 'ro':
                b.flags.writeable = False
        self.seen.append((b, a.copy()))
        return b

    def intact(self):
        for b, a in self.seen:
            if isinstance(b, list):
                if b != a:
                    return 'list %r became %r' % (a, b)
            elif b.dtype != a.dtype or b.shape != a.shape or not np.array_equal(b, a, equal_nan=a.dtype.kind in 'fc'):
                return 'array %r became %r' % (a.tolist(), b.tolist())


def cast(a, dt):
    return a if dt is None or not isinstance(a, np.ndarray) or a.dtype.kind not in 'fc' else a.astype(dt)


def life(e, w, dt, cuts, stage=None, bad=None, node=None):
    """one life of a node; at `stage` call bad(node) and stop"""
    C._seed()
    node = e.make() if node is None else node
    n = len(e.x)
    pts = [0] + cuts + [n]
    yield 'new', node, None
    ph = 0
    while node.is_trainable() and node.get_remaining_train_phase() > 0:
        for i, (a, b) in enumerate(zip(pts, pts[1:])):
            node.train(w(cast(e.x[a:b], dt)), *[w(v) for v in e.extra(a, b)])
            yield 'phase%d' % min(ph, 1) + ('-mid' if i + 2 < len(pts) else '-end'), node, None
        C._seed()
        node.stop_training()
        ph += 1
    yield 'trained', node, None


def dims(node):
    return node.input_dim, node.output_dim, node.dtype


def fixed(old, new):
    return all(a is None or a == b for a, b in zip(old, new))


def shown(node, where):
    """a node can be printed at any time, and says what its dimensions and type are"""
    try:
        r, t = repr(node), str(node)
    except Exception as ex:
        return check(False, lambda: where() + 'cannot be printed: %s: %s' % (type(ex).__name__, ex), 'print-%s' % type(node).__name__)
    check(type(r) is str and type(t) is str and t, lambda: where() + 'printed as %r, %r' % (r, t), 'print-%s' % type(node).__name__)
    for k in ('input_dim', 'output_dim'):
        if k + '=' in r:
            check('%s=%s' % (k, getattr(node, k)) in r, lambda: where() + '%s is %s, printed as %s' % (k, getattr(node, k), r), 'print-%s' % type(node).__name__)
    if 'dtype=' in r:
        check(('None' if node.dtype is None else node.dtype.name) in r.split('dtype=')[1], lambda: where() + 'type is %s, printed as %s' % (node.dtype, r), 'print-%s' % type(node).__name__)


def out_rows(e, n):
    if e.cls == 'TimeFramesNode':
        return n - 4
    return n


def run_exec(e, w, node, x):
    if e.needs_exec_arg:
        return node.execute(w(x), w(np.array([[1., 0.], [0., 1.]])[[i % 2 for i in range(len(x))]]))
    return node.execute(w(x))


def contract(ctx, entry, dt, layout, cut):
    """a whole life: results have the declared shape and type, arguments stay as they were"""
    e = ALL[entry]
    w = Watch(layout)
    where = lambda: '%s, data %s in layout %s, split at %s: ' % (entry, dt, layout, cut)
    n = len(e.x)
    explicit = cut == 'explicit'
    cuts = [n // 2] if cut is True and n // 2 >= (e.minrows or 1) else []
    node = None
    if explicit:
        try:
            node = e.make(dtype=dt or e.x.dtype)
        except TypeError:
            return ctx.note('no dtype argument')
        except mdp.NodeException:
            check(np.dtype(dt or e.x.dtype) not in e.make().get_supported_dtypes(), lambda: where() + 'type refused by the constructor', 'refused-%s' % entry)
            return ctx.note('unsupported type refused')
    given = None if explicit else dt
    try:
        old = (None, None, None)
        for stage, node, _ in life(e, w, given, cuts, node=node):
            now = dims(node)
            check(fixed(old, now), lambda: where() + 'dimensions and type %s -> %s at %s' % (old, now, stage), 'changed')
            old = now
            shown(node, lambda: where() + stage + ': ')
            ctx.state(entry, stage, now)
            ctx.step()
    except mdp.NodeException as ex:
        # a type can be unsupported; nothing else may be refused
        kind = (e.x.dtype if dt is None else np.dtype(dt))
        check(kind not in e.make().get_supported_dtypes() and ('dtype' in str(ex)), lambda: where() + 'refused: %s' % ex, 'refused-%s' % entry)
        return ctx.note('unsupported type refused')
    x = cast(e.probe, given)
    sizes = [len(x)] if e.singlerow is None else [1]
    if e.rowlocal:
        sizes.append(1)
    y = None
    for m in sizes:
        y = run_exec(e, w, node, x[:m])
        now = dims(node)
        shown(node, lambda: where() + 'executed: ')
        check(fixed(old, now), lambda: where() + 'dimensions and type %s -> %s by execution' % (old, now), 'changed')
        old = now
        check(isinstance(y, np.ndarray) and y.ndim == 2, lambda: where() + 'execution gives %r' % (y,), 'result')
        check(y.shape == (out_rows(e, m), node.output_dim), lambda: where() + 'execution of %d rows gives shape %s, output_dim is %s' % (m, y.shape, node.output_dim), 'shape')
        check(node.input_dim == x.shape[1] or e.cls == 'RBMWithLabelsNode', lambda: where() + 'input_dim is %s' % node.input_dim, 'input-dim')
        check(y.dtype == node.dtype, lambda: where() + 'execution gives type %s, the node has %s' % (y.dtype, node.dtype), 'dtype')
        if not explicit and dt is not None and e.cls not in OWNTYPE:
            check(node.dtype == (np.dtype(dt) if e.x.dtype.kind == 'f' else e.x.dtype), lambda: where() + 'node has type %s' % node.dtype, 'node-dtype')
        if node.is_invertible() and not e.singlerow:
            try:
                z = node.inverse(w(y))
            except mdp.NodeException as ex:
                check(e.cls in ('SFA2Node',), lambda: where() + 'inversion of its own output fails: %s' % ex, 'inverse-refused')
                continue
            z0 = z
            if e.window and e.cls == 'TimeFramesNode':
                continue
            check(isinstance(z, np.ndarray) and z.shape == (m, node.input_dim), lambda: where() + 'inversion gives shape %s, input_dim is %s' % (getattr(z0, 'shape', z0), node.input_dim), 'inverse-shape')
            check(z.dtype == node.dtype, lambda: where() + 'inversion gives type %s, the node has %s' % (z.dtype, node.dtype), 'inverse-dtype')
    if isinstance(node, mdp.ClassifierNode):
        for m in ('label', 'prob', 'rank'):
            if entry == 'LibSVMClassifier' and m != 'label':
                continue
            try:
                r = getattr(node, m)(w(x))
            except (NotImplementedError, AttributeError):
                continue
            check(len(r) == len(x), lambda: where() + '%s gives %d results for %d rows' % (m, len(r), len(x)), 'classify')
    check(w.intact() is None, lambda: where() + 'an argument was changed: %s' % w.intact(), 'argument')
    ctx.execution()
    ctx.outcome(dims(node))
    ctx.mark(entry, dt, layout, cut)


OWNTYPE = ('RBMWithLabelsNode', 'NeuralGasNode', 'GrowingNeuralGasNode', 'GrowingNeuralGasExpansionNode', 'DiscreteHopfieldClassifier')
BADS = ('rank0', 'rank1', 'rank3', 'narrow', 'wide', 'empty-wide', 'unsupported')


def spoil(a, bad):
    if bad == 'rank0':
        return np.array(1., dtype=a.dtype)
    if bad == 'rank1':
        return a[0].copy()
    if bad == 'rank3':
        return a[None]
    if bad == 'narrow':
        return a[:, :-1].copy()
    if bad == 'wide':
        return np.hstack([a, a[:, :1]])
    if bad == 'empty-wide':
        return np.zeros((len(a), 0), a.dtype)
    return a.astype('U4')


def reject(ctx, entry, op, bad, dt):
    """wrong data in operation `op` at every moment of a life"""
    e = ALL[entry]
    n = len(e.x)
    cuts = [n // 2] if n // 2 >= (e.minrows or 1) else []
    try:
        stages = [s for s, _, _ in life(e, Watch('C'), dt, cuts)]
    except mdp.NodeException:
        return ctx.note('unsupported type refused')
    if bad == 'narrow' and e.x.shape[1] == 1:
        return
    for k, st in enumerate(stages):
        for i, (stage, node, _) in enumerate(life(e, Watch('C'), dt, cuts)):
            if i == k:
                break
        where = lambda: '%s, type %s, %s with %s data at %s: ' % (entry, dt, op, bad, st)
        ctx.at(entry, op, bad, st)
        old = dims(node)
        width, typ = old[1 if op == 'inverse' else 0], old[2]
        if op == 'train' and not node.is_training() or op == 'inverse' and not node.is_invertible():
            continue
        if op == 'inverse' and bad == 'narrow' and e.cls in ('PCANode', 'WhiteningNode', 'NIPALSNode'):
            continue  # fewer components are accepted there (documented)
        if op == 'execute' and st == 'new' and e.extra(0, 1):
            continue  # would need labels or targets to train the node
        if st.endswith('mid') and e.cls in ('LLENode', 'HLLENode'):
            continue  # too few rows to be closed
        if bad == 'unsupported' and typ is not None:
            continue  # the data would be cast
        if bad in ('narrow', 'wide', 'empty-wide') and width is None:
            if op != 'inverse' or old[0] is None:
                continue  # no dimension fixed yet
        if bad == 'empty-wide' and op == 'train' and old[0] is None:
            continue
        m = min(5, n)
        src = cast(e.x[:m], dt)
        if op == 'inverse':
            if e.window or e.singlerow:
                continue
            try:
                src = run_exec(e, Watch('C'), C.train(e.make(), e, cuts), cast(e.probe, dt))
            except mdp.NodeException:
                continue
            if bad == 'narrow' and src.shape[1] == 1:
                continue
        w = Watch('C')
        x = w(spoil(src, bad))
        extra = [w(v) for v in e.extra(0, m)] if op == 'train' else []
        C._seed()
        err = None
        try:
            if op == 'train':
                node.train(x, *extra)
            elif op == 'execute':
                r = node.execute(x, w(np.eye(2)[[0] * len(src)])) if e.needs_exec_arg else node.execute(x)
            else:
                r = node.inverse(x)
        except mdp.MDPException as ex:
            err = ex
        except Exception as ex:
            check(bad == 'unsupported' or bad in ('rank0', 'rank1', 'rank3') and e.needs_exec_arg, lambda: where() + 'raises %s: %s' % (type(ex).__name__, ex), 'reject-kind')
            err = ex
        check(err is not None, lambda: where() + 'is accepted', 'accepted')
        now = dims(node)
        check(fixed(old, now), lambda: where() + 'dimensions and type %s -> %s' % (old, now), 'reject-changed')
        check(w.intact() is None, lambda: where() + 'changed the argument: %s' % w.intact(), 'reject-argument')
        ctx.execution()
        ctx.step()
        ctx.state(entry, op, bad, st, now)
        ctx.outcome(type(err).__name__)
        ctx.mark(entry, op, bad, dt, st)


def setters(ctx, entry, first, depth):
    """all orders of setting dimensions and type and of using the node, up to four actions"""
    e = ALL[entry]
    wd = e.x.shape[1]
    acts = [('in', wd), ('in', wd + 1), ('in', None), ('out', 1), ('out', wd), ('out', wd + 1), ('out', None), ('type', 'd'), ('type', 'f'), ('type', 'O'), ('type', None), ('train', 'd'), ('train', 'f'), ('execute', 'd')]
    depth -= first[0] not in ('in', 'out', 'type')
    acts = [a for a in acts if a[0] != 'execute' or not e.needs_exec_arg and not e.singlerow]
    seqs = [(tuple(first),) + s for k in range(depth) for s in itertools.product(acts, repeat=k)]
    n = len(e.x)
    for seq in seqs:
        used = [a[0] for a in seq if a[0] in ('train', 'execute')]
        if len(used) > 1 or used == ['execute'] and (e.extra(0, 1) or e.singlerow or e.needs_exec_arg):
            continue
        ctx.at(entry, seq)
        C._seed()
        node = e.make()
        sup = node.get_supported_dtypes()
        done = []
        for kind, v in seq:
            old = dims(node)
            err = None
            try:
                if kind == 'in':
                    node.input_dim = v
                elif kind == 'out':
                    node.output_dim = v
                elif kind == 'type':
                    node.dtype = v
                elif kind == 'train' and node.is_training():
                    node.train(cast(e.x, v), *e.extra(0, n))
                elif kind == 'execute':
                    r = node.execute(cast(e.probe, v))
            except mdp.MDPException as ex:
                err = ex
            except Exception as ex:
                err = ex
                big = dims(node)[1] is not None and dims(node)[1] > wd
                check(big and kind in ('train', 'execute'), lambda: '%s: after %s, %s %r raises %s: %s' % (entry, done, kind, v, type(ex).__name__, ex), 'setter-kind')
            done.append((kind, v))
            now = dims(node)
            where = lambda: '%s: after %s: %s -> %s, %r: ' % (entry, done, old, now, err)
            if e.name == 'PCANode/reduce':
                now = (now[0], old[1] or now[1], now[2])  # the output dimension may shrink (documented)
            check(fixed(old, now), lambda: where() + 'a fixed dimension or type changed', 'setter-changed')
            check(all(b is None or isinstance(b, (int, np.integer, float)) for b in now[:2]) and (now[2] is None or now[2] in sup), lambda: where() + 'illegal value', 'setter-value')
            slot = {'in': 0, 'out': 1, 'type': 2}.get(kind)
            if slot is not None:
                val = np.dtype(v) if kind == 'type' and v is not None else v
                if v is None:
                    check(err is None and now == old, lambda: where() + 'setting None', 'setter-none')
                elif old[slot] is not None:
                    check((err is None) == (old[slot] == val) or old[slot] == val and 'explicitly' in str(err), lambda: where() + 'setting %s to %r' % (kind, v), 'setter-twice')
                    check(old[slot] != val or now == old, lambda: where() + 'setting the same value changed the node', 'setter-same')
                elif err is None:
                    check(now[slot] == val, lambda: where() + 'accepted value has no effect', 'setter-effect')
                else:
                    check(kind != 'type' or val not in sup, lambda: where() + 'supported type refused', 'setter-type')
                if kind == 'type' and val is not None and val not in sup:
                    check(err is not None, lambda: where() + 'unsupported type accepted', 'setter-unsupported')
            elif err is None and kind == 'execute':
                check(r.shape == (out_rows(e, len(e.probe)), node.output_dim) and r.dtype == now[2], lambda: where() + 'execution gives %s %s' % (r.shape, r.dtype), 'setter-execute')
                check(now[0] == e.probe.shape[1], lambda: where() + 'wrong width was executed', 'setter-width')
            elif err is None and kind == 'train' and node.is_trainable():
                check(now[0] == wd or e.cls == 'RBMWithLabelsNode', lambda: where() + 'wrong width was accepted', 'setter-width')
            ctx.step()
            if err is not None and slot is None:
                break
        ctx.execution()
        ctx.state(entry, dims(node))
        if len(seq) > 1:
            ctx.mark(entry, seq)


# ------------------------------------------------------------------ wrapped scikit-learn algorithms
def wrapped(ctx, name):
    """a node around an algorithm gives what the algorithm gives, in the form of a node"""
    import warnings
    cls = getattr(mdp.nodes, name)
    x, probe = np.abs(C.slow(24, 4)), np.abs(C.slow(24, 4)[:5])
    lab = np.array(C._lab2(0, 24))
    target = x[:, 0] * 2 - x[:, 1]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            node = cls()
        except TypeError:
            return ctx.note('arguments needed')
        sub = isinstance(node, mdp.ClassifierNode)
        trans = not sub and hasattr(node.scikits_alg, 'transform')
        for dt in ('d', 'f'):
            where = lambda: '%s, %s: ' % (name, dt)
            ctx.at(name, dt)
            data = x.astype(dt)
            import sklearn.base
            alg = sklearn.base.clone(node.scikits_alg)
            args = {}
            try:
                C._seed()
                if sub:
                    alg.fit(data, lab)
                else:
                    try:
                        alg.fit(data)
                    except Exception:
                        alg = sklearn.base.clone(node.scikits_alg)
                        alg.fit(data, target.copy())
                        import inspect
                        args = {list(inspect.signature(alg.fit).parameters)[1]: target.copy()}
                np.random.seed(3)
                exp = alg.transform(probe.astype(dt)) if trans else alg.predict(probe.astype(dt))
            except Exception as ex:
                ctx.note('not usable with this data')
                continue
            for cuts in ([], [10]):
                n = cls()
                w = Watch('ro')
                C._seed()
                pts = [0] + cuts + [24]
                for a, b in zip(pts, pts[1:]):
                    n.train(w(data[a:b]), *([w(lab[a:b])] if sub else []))
                if sub:
                    C._seed()
                C._seed()
                n.stop_training(**args)
                np.random.seed(3)
                if sub:
                    r = np.asarray(n.label(w(probe.astype(dt))))
                    check(r.ravel().tolist() == np.asarray(exp).ravel().tolist(), lambda: where() + 'label gives %r, the algorithm %r' % (r, exp), 'wrapped-label')
                    y = n.execute(w(probe.astype(dt)))
                    check(np.array_equal(y, probe.astype(dt)), lambda: where() + 'execution changes the data', 'wrapped-identity')
                else:
                    y = n.execute(w(probe.astype(dt)))
                    y1 = y.toarray() if hasattr(y, 'toarray') else y
                    e1 = exp.toarray() if hasattr(exp, 'toarray') else exp
                    e1 = e1[:, None] if e1.ndim == 1 else e1
                    check(y.shape == e1.shape and np.allclose(y1, e1.astype(dt), equal_nan=True, rtol=1e-4, atol=1e-6), lambda: where() + 'execution gives %r, the algorithm %r' % (y1, e1), 'wrapped-execute')
                check(y.shape == (5, n.output_dim) and y.dtype == n.dtype == np.dtype(dt) and n.input_dim == 4, lambda: where() + 'result of shape %s, type %s; the node says %s -> %s, %s' % (y.shape, y.dtype, n.input_dim, n.output_dim, n.dtype), 'wrapped-dims')
                check(w.intact() is None, lambda: where() + 'argument changed: %s' % w.intact(), 'wrapped-argument')
                ctx.execution()
                ctx.mark(name, dt, cuts)
                ctx.state(name, n.output_dim)


SCENARIOS = dict(wrapped=wrapped, contract=contract, reject=reject, setters=setters)
SLOW = ('XSFANode', 'GSFANode', 'iGSFANode', 'ISFANode')


def cases(tier):
    q = tier == 'quick'
    for name in sorted(dir(mdp.nodes)):
        if name.endswith('ScikitsLearnNode'):
            yield 'wrapped', dict(name=name)
    for en in ALL:
        for dt in (None, 'f', 'd'):
            for lay in ('C', 'F', 'strided', 'rev', 'ro'):
                for cut in (False, True, 'explicit'):
                    yield 'contract', dict(entry=en, dt=dt, layout=lay, cut=cut)
        for op in ('train', 'execute', 'inverse'):
            for bad in BADS:
                for dt in (None,) if q else (None, 'f'):
                    yield 'reject', dict(entry=en, op=op, bad=bad, dt=dt)
        wd = ALL[en].x.shape[1]
        for first in [('in', wd), ('in', wd + 1), ('out', 1), ('out', wd), ('out', wd + 1), ('type', 'd'), ('type', 'f'), ('type', 'O'), ('train', 'd'), ('train', 'f'), ('execute', 'd')]:
            yield 'setters', dict(entry=en, first=list(first), depth=3 if q else 4)
