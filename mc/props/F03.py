"""F03: faults in every node, phase, chunk and operation of a flow; crash recovery; checkpoints."""
import itertools, os, pickle, shutil, tempfile
import numpy as np
import mdp
import bimdp
from ..core import check
from .. import inst as I

LEVEL = 'fault_enumeration'
RULE = 'the injected fault fired (or, for checkpoints, the flow has at least two nodes)'
ASSUMPTIONS = ['one fault per history, raised before the failing routine has changed anything',
               'the last phase of a node in front is closed when the node is first executed']
X = np.array([[1., 4.], [-2., 3.], [0., 5.], [7., -1.]])
ARGS = {'S': 1, 'D': 2}
ETS = ('node', 'training', 'mdp', 'attr', 'key', 'io', 'stop', 'type')
_dir = None


def worker_setup():
    global _dir
    _dir = tempfile.mkdtemp(prefix='verif_f03_')
    tempfile.tempdir = _dir


def worker_teardown():
    tempfile.tempdir = None
    shutil.rmtree(_dir, ignore_errors=True)


def files():
    return sorted(os.listdir(_dir))


def clean():
    for f in files():
        os.remove(os.path.join(_dir, f))


def make_data(kinds, nch, plain=False):
    cuts = {1: [4], 2: [1, 3], 3: [2, 1, 1]}[nch]
    out = []
    for k in kinds:
        d, p = [], 0
        for i, n in enumerate(cuts):
            d.append((X[p:p + n].copy(),) + tuple(np.arange(n) + 5 * i + j for j in range(ARGS.get(k, 0))))
            p += n
        out.append([it[0] for it in d] if plain else d)
    return out


def reference(nodes, data, upto=None):
    """the documented order of calls: node after node, the last phase closed at the first execution (or at the end).
    Returns the index of the node in training when an injected fault fired, or None."""
    j = 0
    try:
        for j, nd in enumerate(nodes):
            while nd.is_trainable() and nd.is_training():
                for it in data[j]:
                    x = it[0]
                    for p in nodes[:j]:
                        x = p.execute(x)
                    nd.train(x, *it[1:])
                if nd.get_remaining_train_phase() > 1:
                    nd.stop_training()
                else:
                    break
        if nodes[-1].is_trainable() and nodes[-1].is_training():
            nodes[-1].stop_training()
    except I.Injected:
        return j
    return None


def snap(nodes):
    return [(list(n.log), n.acc, n.is_trainable() and n.is_training(), n.is_trainable() and n.get_current_train_phase()) for n in nodes]


def set_fault(nodes, pos, fault):
    for n in nodes:
        n.count = {}
        n.fault = None
    if fault:
        nodes[pos].fault = fault


def cause_in(err, pos, fault, node):
    """the error text names the node and the cause"""
    t = str(err)
    return ('#%d' % pos) in t and ('injected %s %s %s' % tuple(fault)) in t


def cr_value(cr):
    return {'off': False, 'on': True, 'file': os.path.join(_dir, 'mycrash.pic')}[cr]


def check_dump(where, err, cr, want, flowcls):
    fs = files()
    if cr == 'off':
        check(fs == [], lambda: where() + 'wrote %r without crash recovery' % fs, 'dump-off')
        return None
    check(len(fs) == 1, lambda: where() + 'crash recovery left %d files' % len(fs), 'dump-count')
    path = os.path.join(_dir, fs[0])
    if cr == 'file':
        check(fs == ['mycrash.pic'], lambda: where() + 'dump written as %r' % fs, 'dump-name')
    check(path in str(err), lambda: where() + 'error does not say where the dump is', 'dump-named')
    if isinstance(err, mdp.FlowExceptionCR):
        check(getattr(err, 'filename', None) == path, lambda: where() + 'filename attribute %r' % getattr(err, 'filename', None), 'dump-attr')
    with open(path, 'rb') as f:
        fl = pickle.load(f)
    check(type(fl) is flowcls and snap(fl) == want, lambda: where() + 'dump holds\n%r\nfailure state\n%r' % (snap(fl), want), 'dump-state')
    clean()
    return fl


def train_fault(ctx, kinds, pos, op, phase, idx, nch, cr, cls='Flow', et='plain'):
    clean()
    I.ETYPE[0] = et
    data = make_data(kinds, nch)
    fault = (op, phase, idx)
    ref = I.build(kinds)
    set_fault(ref, pos, fault)
    j = reference(ref, data)
    where = lambda: '%s %s chunks=%d fault=%r (%s error) in node %d, recovery %s: ' % (cls, kinds, nch, fault, et, pos, cr)
    nodes = I.build(kinds)
    set_fault(nodes, pos, fault)
    ctx.at(kinds, fault, pos)
    fcls = getattr(mdp, cls)
    flow = fcls(nodes, crash_recovery=cr_value(cr))
    extra = () if cls == 'Flow' else (None,) if cls == 'CheckpointFlow' else ()
    try:
        flow.train(data, *extra)
        err = None
    except Exception as e:
        err = e
    ctx.step()
    if j is None:
        check(err is None, lambda: where() + 'raised %r although the fault cannot fire' % err, 'spurious')
        check(snap(nodes) == snap(ref), lambda: where() + 'state differs from training by hand', 'state')
        check(files() == [], lambda: where() + 'dump without failure', 'dump-off')
        return
    ctx.mark()
    check(isinstance(err, mdp.FlowException), lambda: where() + 'raised %r' % (err,), 'error')
    check(cause_in(err, pos, fault, nodes[pos]), lambda: where() + 'error does not name node #%d and the cause:\n%s' % (pos, err), 'message')
    if j == pos:
        check(isinstance(err, mdp.FlowExceptionCR) and isinstance(err.parent_exception, I.Injected), lambda: where() + 'cause lost: %r' % err, 'cause')
        check(err.crashing_obj is flow, lambda: where() + 'crashing_obj is %r' % (err.crashing_obj,), 'cause')
    else:
        check(('#%d' % j) in str(err), lambda: where() + 'error does not name the node in training (#%d):\n%s' % (j, err), 'message')
    want = snap(ref)
    got = snap(nodes)
    check(got == want, lambda: where() + 'node states at the failure\n%r\nexpected\n%r' % (got, want), 'state')
    check(list(flow) == nodes, lambda: where() + 'flow lost its nodes', 'nodes')
    for i in range(j + 1, len(kinds)):
        check(nodes[i].log == [] and nodes[i].elog == [], lambda: where() + 'node %d behind the failure was touched' % i, 'later')
    loaded = check_dump(where, err, cr, want, fcls)
    # resume, in the flow itself and in the loaded one
    set_fault(ref, 0, None)
    check(reference(ref, data) is None, 'reference cannot be resumed', 'harness')
    want = snap(ref)
    for name, fl in (('original', flow), ('loaded', loaded)):
        if fl is None:
            continue
        set_fault(list(fl), 0, None)
        fl.train(data, *extra)
        check(snap(fl) == want, lambda: where() + 'resumed training (%s flow) gave\n%r\nexpected\n%r' % (name, snap(fl), want), 'resume')
        y = fl.execute(X)
        x = X
        for n in ref:
            x = n.execute(x)
        check((y == x).all(), lambda: where() + 'resumed flow executes differently', 'resume')
        ctx.execution()
    check(files() == [], lambda: where() + 'files left', 'dump-off')
    ctx.state(kinds, pos, fault, nch)
    ctx.outcome(tuple(n.acc for n in ref))


def exec_fault(ctx, kinds, pos, op, idx, form, cr, et='plain'):
    clean()
    I.ETYPE[0] = et
    data = make_data(kinds, 2)
    nodes = I.build(kinds)
    flow = mdp.Flow(nodes, crash_recovery=cr_value(cr))
    flow.train(data)
    y = flow.execute(X)
    fault = (op, None, idx)
    where = lambda: 'flow %s fault=%r in node %d (%s), recovery %s: ' % (kinds, fault, pos, form, cr)
    ctx.at(kinds, fault, pos, form)
    before = snap(nodes)
    src = X if op == 'execute' else y
    call = flow.execute if op == 'execute' else flow.inverse
    want = y if op == 'execute' else X

    def arg():
        return src.copy() if form == 'array' else [src[:1], src[1:2], src[2:]] if form == 'list' else (r[None, :] for r in src)
    nchunks = {'array': 1, 'list': 3, 'gen': 4}[form]
    set_fault(nodes, pos, fault)
    try:
        res = call(arg())
        err = None
    except Exception as e:
        err = e
    ctx.step()
    fires = idx < nchunks
    if not fires:
        check(err is None and (res == want).all(), lambda: where() + 'gave %r' % (err or res), 'spurious')
        return
    ctx.mark()
    check(isinstance(err, mdp.FlowExceptionCR) and isinstance(err.parent_exception, I.Injected), lambda: where() + 'raised %r' % (err,), 'error')
    check(cause_in(err, pos, fault, nodes[pos]), lambda: where() + 'error does not name the node and cause:\n%s' % err, 'message')
    check(snap(nodes) == before, lambda: where() + 'node states changed', 'state')
    loaded = check_dump(where, err, cr, before, mdp.Flow)
    for fl in (flow, loaded):
        if fl is not None:
            set_fault(list(fl), 0, None)
            res = (fl.execute if op == 'execute' else fl.inverse)(arg())
            check((res == want).all(), lambda: where() + 'wrong result afterwards', 'after')
            ctx.execution()
    ctx.state('exec', kinds, pos, fault, form)


class Cp(mdp.CheckpointFunction):
    def __init__(self, log, ret, flow_nodes, boom=False):
        self.log, self.ret, self.nodes, self.boom = log, ret, flow_nodes, boom

    def __call__(self, node):
        i = [k for k, n in enumerate(self.nodes) if n is node]
        self.log.append((i, snap(self.nodes)))
        if self.boom:
            raise I.Injected('checkpoint')
        if self.ret == 'dict':
            return {'res_%d' % i[0]: node.acc, 'common': i[0]}
        if self.ret == 'empty':
            return {}
        return None


FLOWS = {'CheckpointFlow': mdp.CheckpointFlow, 'BiCheckpointFlow': bimdp.BiCheckpointFlow}


def checkpoints(ctx, cls, kinds, mask, single, ret, nch, boom=None):
    """mask: which nodes have a checkpoint function"""
    data = make_data(kinds, nch, cls.startswith('Bi'))
    nodes = I.build(kinds)
    flow = FLOWS[cls](nodes)
    bi = cls.startswith('Bi')
    log = []
    where = lambda: '%s %s checkpoints %s%s returning %s: ' % (cls, kinds, mask, ' (one function)' if single else '', ret)
    ctx.at(cls, kinds, mask, single, ret)
    if single:
        cps = Cp(log, ret, nodes)
    else:
        cps = [Cp(log, ret, nodes, boom == i) if m else None for i, m in enumerate(mask)]
    ref = I.build(kinds)
    want = []
    for i in range(len(kinds)):
        # state right after node i was trained
        for n in ref[i:i + 1]:
            while n.is_trainable() and n.is_training():
                for it in data[i]:
                    x, arg = (it, ()) if bi else (it[0], it[1:])
                    for p in ref[:i]:
                        x = p.execute(x)
                    n.train(x, *arg)
                if bi or n.get_remaining_train_phase() > 1:
                    n.stop_training()
                else:
                    break
        if single or mask[i]:
            want.append(([i], snap(ref)))
            if boom == i:
                break
    try:
        flow.train(data, cps)
        err = None
    except Exception as e:
        err = e
    ctx.step()
    if boom is not None and mask[boom]:
        check(err is not None and 'checkpoint' in str(err), lambda: where() + 'failing checkpoint function: %r' % err, 'cp-error')
    else:
        check(err is None, lambda: where() + 'raised %r' % (err,), 'cp-raise')
    check(log == want, lambda: where() + 'calls\n%r\nexpected\n%r' % (log, want), 'cp-calls')
    check(snap(nodes)[:len(want)] is not None and list(flow) == nodes, lambda: where() + 'nodes lost', 'nodes')
    if err is None:
        if ref[-1].is_trainable() and ref[-1].is_training():
            ref[-1].stop_training()
        check(snap(nodes) == snap(ref), lambda: where() + 'final state\n%r\nexpected\n%r' % (snap(nodes), snap(ref)), 'cp-final')
    if ret == 'dict':
        acc = {i[0]: s[i[0]][1] for i, s in want if not (boom == i[0])}
        for i, a in acc.items():
            check(getattr(flow, 'res_%d' % i, None) == a, lambda: where() + 'result of checkpoint %d not on the flow' % i, 'cp-result')
        if acc:
            check(flow.common == max(acc), lambda: where() + 'later checkpoint result lost', 'cp-result')
    ctx.execution()
    ctx.state(cls, kinds, mask, single, ret, nch, boom)
    if len(kinds) > 1:
        ctx.mark()


def cp_refused(ctx, cls, kinds, delta):
    data = make_data(kinds, 1, cls.startswith('Bi'))
    nodes = I.build(kinds)
    flow = FLOWS[cls](nodes)
    before = snap(nodes)
    log = []
    try:
        flow.train(data, [Cp(log, None, nodes)] * (len(kinds) + delta))
        err = None
    except Exception as e:
        err = e
    check(isinstance(err, mdp.FlowException), '%s %s accepted %d checkpoints: %r' % (cls, kinds, len(kinds) + delta, err), 'cp-count')
    check(snap(nodes) == before and not log, '%s %s: trained before refusing the checkpoints' % (cls, kinds), 'cp-count')
    ctx.execution()
    ctx.mark()


def cp_save(ctx, cls, kinds, pos, stop, binary, protocol):
    """CheckpointSaveFunction: the file holds the node, with the last phase open (stop=0) or closed (stop=1)"""
    clean()
    data = make_data(kinds, 2, cls.startswith('Bi'))
    nodes = I.build(kinds)
    flow = FLOWS[cls](nodes)
    path = os.path.join(_dir, 'node.pic')
    ctx.at(cls, kinds, pos, stop, binary, protocol)
    cps = [None] * len(kinds)
    cps[pos] = mdp.CheckpointSaveFunction(path, stop_training=stop, binary=binary, protocol=protocol)
    flow.train(data, cps)
    where = lambda: '%s %s saving node %d with stop_training=%d binary=%d protocol=%d: ' % (cls, kinds, pos, stop, binary, protocol)
    with open(path, 'rb') as f:
        n = pickle.load(f)
    check(files() == ['node.pic'], lambda: where() + 'files %r' % files(), 'save')
    closed = bool(stop) or cls.startswith('Bi')
    check(n.is_training() == (not closed), lambda: where() + 'saved node is_training=%r' % n.is_training(), 'save-open')
    if not closed:
        n.stop_training()
    want = nodes[pos]
    x = X
    for p in nodes[:pos]:
        x = p.execute(x)
    check((n.execute(x) == want.execute(x)).all(), lambda: where() + 'saved node behaves differently', 'save')
    check(n.log == want.log and n.acc == want.acc, lambda: where() + 'saved node has log\n%r\nnot\n%r' % (n.log, want.log), 'save')
    ctx.execution()
    ctx.state('save', cls, kinds, pos, stop, binary, protocol)
    ctx.mark()
    clean()


def bi_fault(ctx, kinds, pos, op, phase, idx, nch, et='plain'):
    I.ETYPE[0] = et
    """a bidirectional flow reports the cause, leaves later nodes alone and can be resumed"""
    data = [[it[0] for it in d] for d in make_data(kinds, nch)]
    fault = (op, phase, idx)
    nodes = I.build(kinds)
    flow = bimdp.BiFlow(nodes)
    clean_nodes = I.build(kinds)
    bimdp.BiFlow(clean_nodes).train(data)
    set_fault(nodes, pos, fault)
    ctx.at(kinds, fault, pos)
    where = lambda: 'BiFlow %s chunks=%d fault=%r in node %d: ' % (kinds, nch, fault, pos)
    try:
        flow.train(data)
        err = None
    except Exception as e:
        err = e
    ctx.step()
    if err is None:
        check(snap(nodes) == snap(clean_nodes), lambda: where() + 'fault swallowed', 'swallowed')
        return
    ctx.mark()
    check('injected %s %s %s' % fault in str(err), lambda: where() + 'cause lost: %r' % err, 'cause')
    cur = [i for i, n in enumerate(nodes) if n.is_trainable() and n.is_training()]
    if cur:
        for n in nodes[cur[0] + 1:]:
            check(n.log == [] and n.elog == [], lambda: where() + 'later node touched', 'later')
        for a, b in zip(nodes[:cur[0]], clean_nodes):
            check(a.log == b.log and a.acc == b.acc, lambda: where() + 'earlier node state lost', 'earlier')
    set_fault(nodes, 0, None)
    flow.train(data)
    check(not any(n.is_trainable() and n.is_training() for n in nodes), lambda: where() + 'resumed training left a node open', 'resume')
    if cur:
        for a, b in zip(nodes[:cur[0]], clean_nodes):
            check(a.log == b.log, lambda: where() + 'finished node trained again', 'resume')
    ctx.execution()
    ctx.state('bi', kinds, pos, fault, nch)


SCENARIOS = {'train_fault': train_fault, 'exec_fault': exec_fault, 'checkpoints': checkpoints, 'cp_refused': cp_refused,
             'cp_save': cp_save, 'bi_fault': bi_fault}


def cases(tier):
    deep = tier == 'thorough'
    pool = {1: '123SD', 2: 'UW12SDPO', 3: 'U2SP1' if not deep else 'UW12SDPO3'}
    for n in (1, 2, 3):
        for kinds in itertools.product(pool[n], repeat=n):
            kinds = ''.join(kinds)
            if 'P' in kinds[1:]:
                continue        # whether nodes in front of an already trained node are executed is not specified
            for pos, k in enumerate(kinds):
                ph = {'2': 2, 'D': 2, '3': 3, 'U': 0, 'W': 0, 'P': 0}.get(k, 1)
                for nch in (1, 2, 3) if n < 3 else (2,):
                    faults = [('train', p, i) for p in range(ph) for i in range(nch)] + [('stop', p, 0) for p in range(ph)]
                    faults += [('execute', None, i) for i in range(0, 2 * nch + 1)]
                    for f in faults:
                        for cr in ('off', 'on', 'file') if n < 3 or deep else ('on',):
                            yield 'train_fault', dict(kinds=kinds, pos=pos, op=f[0], phase=f[1], idx=f[2], nch=nch, cr=cr)
                            if cr == 'on' and nch < 3 and (n < 3 or deep):
                                for et in ETS:
                                    yield 'train_fault', dict(kinds=kinds, pos=pos, op=f[0], phase=f[1], idx=f[2], nch=nch, cr=cr, et=et)
                            if cr == 'on' and n < 3:
                                yield 'train_fault', dict(kinds=kinds, pos=pos, op=f[0], phase=f[1], idx=f[2], nch=nch, cr=cr, cls='CheckpointFlow')
                        if not set(kinds) & set('SD') and n < 3:
                            for et in ('plain',) + ETS:
                                yield 'bi_fault', dict(kinds=kinds, pos=pos, op=f[0], phase=f[1], idx=f[2], nch=nch, et=et)
                for op in ('execute', 'inverse'):
                    for form in ('array', 'list', 'gen'):
                        for idx in range({'array': 2, 'list': 3, 'gen': 4}[form]):
                            for cr in ('off', 'on', 'file') if n < 3 or deep else ('on',):
                                yield 'exec_fault', dict(kinds=kinds, pos=pos, op=op, idx=idx, form=form, cr=cr)
                                if cr == 'on' and n < 3:
                                    for et in ETS:
                                        yield 'exec_fault', dict(kinds=kinds, pos=pos, op=op, idx=idx, form=form, cr=cr, et=et)
            for cls in sorted(FLOWS):
                if cls.startswith('Bi') and set(kinds) & set('SD'):
                    continue
                for ret in ('none', 'dict', 'empty'):
                    for nch in (1, 2) if n < 3 else (2,):
                        yield 'checkpoints', dict(cls=cls, kinds=kinds, mask=[1] * n, single=True, ret=ret, nch=nch)
                        for mask in itertools.product((0, 1), repeat=n):
                            yield 'checkpoints', dict(cls=cls, kinds=kinds, mask=list(mask), single=False, ret=ret, nch=nch)
                        for b in range(n):
                            yield 'checkpoints', dict(cls=cls, kinds=kinds, mask=[1] * n, single=False, ret=ret, nch=nch, boom=b)
                for d in (-1, 1):
                    yield 'cp_refused', dict(cls=cls, kinds=kinds, delta=d)
                for pos, k in enumerate(kinds):
                    if k in 'UWPQ':
                        continue
                    for stop in (0, 1):
                        if stop and cls.startswith('Bi'):
                            continue
                        for binary in (0, 1):
                            for proto in (0, 1, 2, -1):
                                if n < 3 or (binary, proto) in ((1, 2), (0, 0)):
                                    yield 'cp_save', dict(cls=cls, kinds=kinds, pos=pos, stop=stop, binary=binary, protocol=proto)
