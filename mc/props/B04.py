"""B04: clone bi-layers - splitting and joining of data and messages, switching between one instance and copies, against a model."""
import itertools
import numpy as np
import mdp
import bimdp
from bimdp.hinet import CloneBiLayer
from bimdp.hinet.bilayer import CloneBiLayerException
from ..core import check

LEVEL = 'model_checking'
RULE = 'at least two clones and a message, or at least one switch'
ASSUMPTIONS = ['all clones answer in the same form (documented)', "messages do not use the key 'target' (it is resolved by the clones)",
               'a change to a single instance is refused during training (it would lose data)']
W = 2   # width of a clone
LOG = []
SHARED = np.arange(4.).reshape(2, 2) + 50.


def show(v):
    if isinstance(v, np.ndarray):
        return ('array', v.shape, v.tolist())
    if isinstance(v, dict):
        return dict((k, show(x)) for k, x in v.items())
    if isinstance(v, (tuple, list)):
        return tuple(show(x) for x in v)
    return v


class Leaf(bimdp.BiNode):
    """answers in one form, writes down what it was given"""
    def __init__(self, form, **kw):
        super(Leaf, self).__init__(input_dim=W, output_dim=W, **kw)
        self.form = form

    def _answer(self, what, x, k, arr):
        LOG.append((what, show(x), show(k), show(arr)))
        return answer(self.form, x, k)

    def _execute(self, x, k=None, arr=None):
        return self._answer('execute', x, k, arr)

    def _train(self, x, k=None, arr=None):
        return self._answer('train', x, k, arr)

    def _stop_training(self, k=None, arr=None):
        return self._answer('stop', None, k, arr)


def answer(form, x, k):
    y = np.array([[7., 8.], [9., 6.]]) if x is None else 2. * x
    a = np.array([[1., 2.], [3., 4.]]) + (0 if x is None else x[:1, :1])
    return {'0': None, 'y': y, 'ym': (y, {'s': k, 'a': a}), 'ymt': (y, {'s': 1, 'v': a[0]}, 'there'), 'm': (None, {'a': a}), 'mt': (None, {'a': a}, -1),
            'shared': (y, {'a': SHARED}), 'ye': (y, {}), 'yk': (y, {'k': 'new'})}[form]


def leaf_call(form, what, x, msg, log, node_id='leaf'):
    """the documented protocol of a bidirectional node"""
    msg = dict(msg or {})
    args = dict((n, msg.get(n)) for n in ('k', 'arr'))
    for full in list(msg):
        if full.startswith(node_id + '->'):
            v = msg.pop(full)
            if full.split('->')[1] in args:
                args[full.split('->')[1]] = v
    log.append((what, show(x), show(args['k']), show(args['arr'])))
    r = answer(form, x, args['k'])
    if what == 'train' and r is None:
        return None
    if not isinstance(r, tuple):
        return (r, msg) if msg else r
    msg.update(r[1])
    r = (r[0], msg) + r[2:]
    if what == 'train' and len(r) == 2 and r[0] is None:
        return None
    return r


def split(msg, n):
    out = [{} for _ in range(n)]
    for k, v in (msg or {}).items():
        cut = isinstance(v, np.ndarray) and v.ndim >= 2 and v.shape[1] % n == 0
        for i in range(n):
            w = v.shape[1] // n if cut else None
            out[i][k] = v[:, i * w:(i + 1) * w] if cut else v
    return out


def combined(results):
    """data side by side, arrays of the messages too unless all are the same one, otherwise the last value"""
    ys = [r[0] if isinstance(r, tuple) else r for r in results]
    y = None if ys[-1] is None else np.hstack(ys)
    if not isinstance(results[-1], tuple):
        return y
    msgs = [r[1] for r in results]
    msg = {}
    for k, v in msgs[-1].items():
        if len(msgs) > 1 and isinstance(v, np.ndarray) and v.ndim >= 2 and v is not msgs[0][k]:
            v = np.concatenate([m[k] for m in msgs], axis=1)
        msg[k] = v
    if len(results[-1]) == 3:
        return (y, msg, results[-1][2])
    return (y, msg) if msg else y


def reference(n, form, what, x, msg, log, copies=True):
    msg = dict((k, v) for k, v in (msg or {}).items() if not k.startswith('L->'))
    if what == 'stop' and not copies:
        r = leaf_call(form, what, None, msg, log)
        return r[0] if isinstance(r, tuple) and len(r) == 2 and not r[1] else r
    parts = split(msg, n)
    rs = [leaf_call(form, what, None if x is None else x[:, i * W:(i + 1) * W], parts[i], log) for i in range(n)]
    r = combined(rs)
    if what == 'train' and isinstance(r, tuple) and len(r) == 2 and r[0] is None:
        return None
    return r


ENTRIES = [('k', 3), ('k', 'text'), ('arr', 1), ('arr', 2), ('arr', 3), ('arr', 4), ('arr', 6), ('arr', 'flat'), ('arr', 'cube'), ('leaf->k', 5), ('leaf->arr', 6), ('L->k', 9), ('else->k', 4), ('else->arr', 2), ('free', 4), ('free', 3), ('free', 'flat'), ('free', 'list')]


def value(v, i):
    if v == 'flat':
        return np.arange(12.) + i
    if v == 'cube':
        return np.arange(24.).reshape(2, 6, 2) + i
    if v == 'list':
        return [1, 2]
    return v


def entry(k, v):
    if k.endswith('arr') or k == 'free':
        return np.arange(2. * v).reshape(2, v) + 100 if isinstance(v, int) else value(v, 0)
    return v


def messages(ctx, n, copies, form, what, size):
    """every message of up to `size` entries, with and without data"""
    for comb in itertools.chain([()], *[itertools.combinations(ENTRIES, s) for s in range(1, size + 1)]):
        if len(set(k for k, v in comb)) < len(comb):
            continue
        for given in (True, False):
            if what == 'stop' and given or what != 'stop' and not given and not [k for k, v in comb if k != 'L->k']:
                continue
            ctx.at(comb, given)
            msg = dict((k, entry(k, v)) for k, v in comb)
            x = np.arange(2. * n * W).reshape(2, n * W) if given else None
            layer = CloneBiLayer(Leaf(form, node_id='leaf'), n, use_copies=copies, node_id='L')
            args = dict(msg) if comb else None
            where = '%d %s, form %s, %s of %s with %s: ' % (n, 'copies' if copies else 'clones', form, what, 'data' if given else 'no data', show(msg))
            if what == 'execute':
                layer.train(np.zeros((1, n * W)))
                layer.stop_training()
            elif what == 'stop':
                layer.train(np.zeros((1, n * W)))
            del LOG[:]
            if what == 'stop':
                got = layer.stop_training(args)
            else:
                got = getattr(layer, what)(x, args)
            calls, log = list(LOG), []
            exp = reference(n, form, what, x, msg, log, copies)
            check(calls == log, lambda: where + 'the clones got %s instead of %s' % (calls, log), 'calls')
            check(show(got) == show(exp), lambda: where + 'result %s instead of %s' % (show(got), show(exp)), 'result')
            check(show(msg) == show(dict((k, entry(k, v)) for k, v in comb)), lambda: where + 'arrays of the message changed', 'message-changed')
            check(layer.use_copies == copies and len(layer) == n, where + 'switched', 'switched')
            ctx.execution()
            ctx.step()
            if n > 1 and comb:
                ctx.mark(ctx.executions)
            ctx.outcome(type(exp).__name__)
        ctx.state(n, copies, form, what, comb)


# ------------------------------------------------------------------ switching
class Acc(bimdp.BiNode):
    def __init__(self, phases, **kw):
        self.phases = phases
        super(Acc, self).__init__(input_dim=W, output_dim=W, **kw)
        self.t, self.c, self.e, self.closed = np.zeros(W), 0, 0, 0

    def _get_train_seq(self):
        return [(self._train, self._stop_training)] * self.phases

    def is_trainable(self):
        return self.phases > 0

    def _train(self, x, emit=None):
        self.t = 3 * self.t + x.sum(0)
        self.c += 1
        if emit:
            return x, {emit[0]: emit[1]}

    def _stop_training(self, emit=None):
        self.t = self.t + 1000
        self.closed += 1
        if emit:
            return np.zeros((1, W)), {emit[0]: emit[1]}

    def _execute(self, x, emit=None):
        self.e += 1
        y = x + self.t + 10000 * self.e
        return (y, {emit[0]: emit[1]}) if emit else y

    def _bi_reset(self):
        self.e = 0


class Model(object):
    def __init__(self, n, phases, copies):
        self.n, self.phases, self.single = n, phases, not copies
        self.training, self.started, self.phase = phases > 0, False, 0
        s = dict(t=np.zeros(W), c=0, e=0, closed=0)
        self.s = [s] * n if not copies else [dict(s) for _ in range(n)]

    def switch(self, flag):
        if flag is None:
            return
        if flag and self.single:
            self.s = [dict(x) for x in self.s]
            self.single = False
        elif not flag and not self.single:
            if self.training:
                raise CloneBiLayerException('refused')
            self.s = [self.s[0]] * self.n
            self.single = True

    def stop(self, flag=None, emit=None):
        if not self.training:
            raise mdp.TrainingFinishedException('finished')
        if not self.started:
            raise mdp.TrainingException('not trained')
        self.switch(flag)
        for s in self.s[:1] if self.single else self.s:
            s['t'] = s['t'] + 1000
            s['closed'] += 1
        if emit is not None:
            self.switch(emit)
        self.phase += 1
        self.started = False
        self.training = self.phase < self.phases

    def train(self, x, flag=None, emit=None):
        if not self.phases:
            raise mdp.IsNotTrainableException('no')
        if not self.training:
            raise mdp.TrainingFinishedException('finished')
        self.started = True
        self.switch(flag)
        for i, s in enumerate(self.s):
            s['t'] = 3 * s['t'] + x[:, i * W:(i + 1) * W].sum(0)
            s['c'] += 1
        if emit is not None:
            self.switch(emit)

    def execute(self, x, flag=None, emit=None):
        if self.training and not self.phase and not self.started:
            while self.training:
                self.train(x)
                self.stop()
        if self.training:
            self.stop()
            if self.training:
                raise mdp.TrainingException('phases left')
        self.switch(flag)
        ys = []
        for i, s in enumerate(self.s):
            s['e'] += 1
            ys.append(x[:, i * W:(i + 1) * W] + s['t'] + 10000 * s['e'])
        if emit is not None:
            self.switch(emit)
        return np.hstack(ys)


OPS = [('T',), ('S',), ('E',), ('R',), ('P', True), ('P', False)]
for _k in 'TSE':
    for _f in (True, False):
        OPS += [(_k, 'use_copies', _f), (_k, 'L->use_copies', _f), (_k, 'emit', ('use_copies', _f)), (_k, 'emit', ('L->use_copies', _f))]


def switching(ctx, n, phases, copies, first, depth):
    for tail in itertools.product(range(len(OPS)), repeat=depth - 1):
        seq = [OPS[i] for i in (first,) + tail]
        if not phases and any(o[0] in 'TS' for o in seq):
            continue
        if any(o[0] == 'S' and o[1:2] == ('emit',) and o[2][1] is False for o in seq):
            continue  # whether the training is over at that moment is not defined
        ctx.at(seq)
        layer = CloneBiLayer(Acc(phases, node_id='acc'), n, use_copies=copies, node_id='L')
        m = Model(n, phases, copies)
        x = np.arange(2. * n * W).reshape(2, n * W) + 1
        switches = 0
        for j, op in enumerate(seq):
            where = lambda: '%d nodes of %d phases, copies %s, %s: ' % (n, phases, copies, seq[:j + 1])
            msg = {op[1]: op[2]} if len(op) == 3 else None
            kw = {}
            if msg:
                kw = dict(emit=op[2][1]) if op[1] == 'emit' else dict(flag=op[2])
            exp = err = got = exc = None
            was = m.single
            try:
                if op[0] == 'R':
                    for s in m.s:
                        s['e'] = 0
                elif op[0] == 'P':
                    m.switch(op[1])
                else:
                    exp = {'T': lambda: m.train(x, **kw), 'S': lambda: m.stop(**kw), 'E': lambda: m.execute(x, **kw)}[op[0]]()
            except Exception as e:
                err = e
            switches += was != m.single
            try:
                if op[0] == 'R':
                    layer.bi_reset()
                elif op[0] == 'P':
                    layer.use_copies = op[1]
                else:
                    got = {'T': lambda: layer.train(x.copy(), msg), 'S': lambda: layer.stop_training(msg), 'E': lambda: layer.execute(x.copy(), msg)}[op[0]]()
            except mdp.MDPException as e:
                exc = e
            ctx.step()
            check((err is None) == (exc is None), lambda: where() + 'error %r, expected %r' % (exc, err), 'error')
            if err is not None:
                check(isinstance(exc, CloneBiLayerException) == isinstance(err, CloneBiLayerException), lambda: where() + 'error %r, expected %r' % (exc, err), 'error-kind')
            elif op[0] == 'E':
                y = got[0] if isinstance(got, tuple) else got
                check(np.array_equal(y, exp), lambda: where() + 'result %s instead of %s' % (show(got), exp.tolist()), 'execute')
            check(layer.use_copies is not m.single and len(layer) == n, lambda: where() + 'copies used: %s' % layer.use_copies, 'flag')
            nodes = list(layer)
            check(len(set(id(v) for v in nodes)) == (1 if m.single else n), lambda: where() + '%d distinct nodes' % len(set(map(id, nodes))), 'instances')
            state = [(v.t.tolist(), v.c, v.e, v.closed) for v in nodes]
            want = [(s['t'].tolist(), s['c'], s['e'], s['closed']) for s in m.s]
            check(state == want, lambda: where() + 'nodes are %s instead of %s' % (state, want), 'nodes')
            check(layer.is_training() == m.training and all(v.is_training() == m.training for v in nodes) and layer.get_remaining_train_phase() == m.phases - m.phase,
                  lambda: where() + 'training %s (nodes %s), expected %s' % (layer.is_training(), [v.is_training() for v in nodes], m.training), 'training')
            if isinstance(err, CloneBiLayerException) and op[0] == 'T':
                break  # whether the phase was started is not defined
            check(layer._request_node_id('L') is layer and layer._request_node_id('acc') is nodes[0] and layer._request_node_id('x') is None, where() + 'node ids', 'ids')
            ctx.state(n, phases, m.single, m.training, m.started, m.phase, str(want))
        ctx.execution()
        if switches:
            ctx.mark(str(seq))


SCENARIOS = dict(messages=messages, switching=switching)


def cases(tier):
    th = tier == 'thorough'
    for n in (1, 2, 3):
        for copies in (False, True):
            for what, forms in (('execute', ('y', 'ym', 'ymt', 'm', 'mt', 'shared', 'ye', 'yk')), ('train', ('0', 'y', 'ym', 'ymt', 'm', 'mt', 'shared')), ('stop', ('0', 'y', 'ym', 'ymt', 'm', 'shared', 'yk'))):
                for form in forms:
                    yield 'messages', dict(n=n, copies=copies, form=form, what=what, size=3 if th else 2)
    for n in (1, 2, 3):
        for phases in (0, 1, 2):
            for copies in (False, True):
                for first in range(len(OPS)):
                    yield 'switching', dict(n=n, phases=phases, copies=copies, first=first, depth=(4 if n == 2 else 3) if th else 3)
