"""Scripted bidirectional nodes and an interpreter, written from the documentation of bimdp, that predicts every call they get.

A run is driven by a script of actions: the i-th call of a scripted node (execution, training or closing of a phase,
in the real run and in the interpreter alike) does what action i says, later calls do the default.  Both sides log
the calls they see; equal logs and equal results mean that the flow took the prescribed route."""
import copy
import numpy as np
import mdp
import bimdp
from bimdp import BiNode, BiFlow, EXIT_TARGET
from bimdp.hinet import BiFlowNode

NONE = object()          # no target given
CAP = 40


class Diverge(Exception):
    pass


class RefError(Exception):
    """the documentation calls for a flow error"""


class Missing(Exception):
    """the documentation calls for Python's missing-argument error"""


class Script(object):
    def __init__(self, script, default='default'):
        self.script, self.pos, self.log = script, 0, []

    def next(self, kind):
        i = self.pos
        self.pos += 1
        if i >= CAP:
            raise Diverge
        return self.script[i] if i < len(self.script) else None


RUN = [None]


def show(v):
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, dict):
        return sorted((k, show(w)) for k, w in v.items())
    if isinstance(v, (list, tuple)):
        return [show(w) for w in v]
    return repr(v)


def act(kind, name, x, args, code):
    """common to the scripted node and the interpreter: log the call and produce the scripted result.
    an action is (y-form, message or None, target or NONE)"""
    run = RUN[0]
    run.log.append((name, kind, show(x), show({k: v for k, v in args.items()})))
    a = run.next(kind)
    if kind.startswith('stop') or kind.startswith('train'):
        if a is None:
            return None
    elif a is None:
        a = ('y', None, NONE)
        if 'msg' in args:
            a = ('y', 'same', NONE)
    form, msg, target = a
    if form == 'raise':
        raise RuntimeError('scripted')
    y = {'y': None if x is None else x * 2 + code, 'N': None, 'M': np.full((1, 2), 100. + code)}[form]
    if isinstance(msg, dict):
        msg = copy.deepcopy(msg)
        if 'msg' in args:
            msg = dict(args['msg'], **msg)
    elif msg == 'same':
        msg = dict(args['msg'])
    if target is not NONE:
        return y, msg, target
    if msg is not None:
        return y, msg
    return y


# argument names (besides self, x) of the methods of a variant
ARGS = {0: [], 1: ['a', 'b'], 2: ['msg', 'a'], 3: ['a']}        # 3: a is required


class T(BiNode):
    """scripted node; variants differ in the arguments they take"""
    V = 0

    def __init__(self, name, code, phases=0, node_id=None, stop_result=None, input_dim=None, output_dim=None, dtype=None):
        self.phases = phases
        super(T, self).__init__(node_id=node_id, stop_result=stop_result, input_dim=input_dim, output_dim=output_dim, dtype=dtype)
        self.name, self.code = name, code

    def is_trainable(self):
        return self.phases > 0

    def _bi_reset(self):
        RUN[0].log.append((self.name, 'reset'))

    def _set_input_dim(self, n):
        self._input_dim = n
        self._output_dim = n


class T0(T):
    V = 0

    def _execute(self, x):
        return act('execute', self.name, x, {}, self.code)

    def _inverse(self, x):
        return act('inverse', self.name, x, {}, self.code)

    def _other(self, x):
        return act('other', self.name, x, {}, self.code)

    def _tr0(self, x):
        return act('train0', self.name, x, {}, self.code)

    def _tr1(self, x):
        return act('train1', self.name, x, {}, self.code)

    def _st0(self):
        return act('stop0', self.name, None, {}, self.code)

    def _st1(self):
        return act('stop1', self.name, None, {}, self.code)

    def _get_train_seq(self):
        return [(self._tr0, self._st0), (self._tr1, self._st1)][:self.phases]


class T1(T0):
    V = 1

    def _execute(self, x, a=None, b=None):
        return act('execute', self.name, x, dict(a=a, b=b), self.code)

    def _inverse(self, x, a=None, b=None):
        return act('inverse', self.name, x, dict(a=a, b=b), self.code)

    def _other(self, x, a=None, b=None):
        return act('other', self.name, x, dict(a=a, b=b), self.code)

    def _tr0(self, x, a=None, b=None):
        return act('train0', self.name, x, dict(a=a, b=b), self.code)

    def _tr1(self, x, a=None, b=None):
        return act('train1', self.name, x, dict(a=a, b=b), self.code)

    def _st0(self, a=None, b=None):
        return act('stop0', self.name, None, dict(a=a, b=b), self.code)

    def _st1(self, a=None, b=None):
        return act('stop1', self.name, None, dict(a=a, b=b), self.code)


def _m(msg):
    return {} if msg is None else msg


class T2(T0):
    V = 2

    def _execute(self, x, msg=None, a=None):
        return act('execute', self.name, x, dict(a=a, msg=_m(msg)), self.code)

    def _inverse(self, x, msg=None, a=None):
        return act('inverse', self.name, x, dict(a=a, msg=_m(msg)), self.code)

    def _other(self, x, msg=None, a=None):
        return act('other', self.name, x, dict(a=a, msg=_m(msg)), self.code)

    def _tr0(self, x, msg=None, a=None):
        return act('train0', self.name, x, dict(a=a, msg=_m(msg)), self.code)

    def _tr1(self, x, msg=None, a=None):
        return act('train1', self.name, x, dict(a=a, msg=_m(msg)), self.code)

    def _st0(self, msg=None, a=None):
        return act('stop0', self.name, None, dict(a=a, msg=_m(msg)), self.code)

    def _st1(self, msg=None, a=None):
        return act('stop1', self.name, None, dict(a=a, msg=_m(msg)), self.code)


class T3(T0):
    V = 3

    def _execute(self, x, a):
        return act('execute', self.name, x, dict(a=a), self.code)

    def _inverse(self, x, a):
        return act('inverse', self.name, x, dict(a=a), self.code)

    def _other(self, x, a):
        return act('other', self.name, x, dict(a=a), self.code)

    def _tr0(self, x, a):
        return act('train0', self.name, x, dict(a=a), self.code)

    def _tr1(self, x, a):
        return act('train1', self.name, x, dict(a=a), self.code)


class P(mdp.Node):
    """ordinary node"""
    def __init__(self, name, code, phases=0):
        self.phases = phases
        super(P, self).__init__(input_dim=2)
        self.name, self.code = name, code

    def is_trainable(self):
        return self.phases > 0

    def _set_input_dim(self, n):
        self._input_dim = n
        self._output_dim = n

    def _execute(self, x):
        RUN[0].log.append((self.name, 'plain', show(x)))
        return x * 2 + self.code

    def _tr(self, i, x):
        RUN[0].log.append((self.name, 'plain-train%d' % i, show(x)))

    def _st(self, i):
        RUN[0].log.append((self.name, 'plain-stop%d' % i))

    def _get_train_seq(self):
        return [((lambda x, i=i: self._tr(i, x)), (lambda i=i: self._st(i))) for i in range(self.phases)]


VARIANTS = {0: T0, 1: T1, 2: T2, 3: T3}


# ------------------------------------------------------------------ interpreter
def ready(node, x):
    """execution of a node that is still being trained: it is trained with the data if nothing was done yet, then closed"""
    if node.phase >= node.n:
        return
    if node.inside or (isinstance(node, Box) and node.phase == 0 and not node.started):
        raise Diverge           # phases of flow node and contained nodes get out of step, nothing is promised
    if node.phase == 0 and not node.started:
        while True:
            node.train(x, None)
            if node.n - node.phase > 1:
                node.stop(None)
            else:
                break
    node.stop(None)
    if node.phase < node.n:
        raise RefError


def ready_inverse(node):
    if node.phase >= node.n:
        return
    if node.inside:
        raise Diverge
    node.stop(None)
    if node.phase < node.n:
        raise RefError


class Leaf(object):
    """spec of a scripted node: name, code, variant, phases, id, stop_result"""
    plain = False
    inside = False

    def __init__(self, name, code, variant=0, phases=0, node_id=NONE, stop_result=None, trained=False):
        self.name, self.code, self.variant, self.n, self.trained = name, code, variant, phases, trained
        self.id = name if node_id is NONE else node_id
        self.stop_result = stop_result
        self.phase, self.started = phases if trained else 0, False

    def build(self):
        node = VARIANTS[self.variant](self.name, self.code, self.n, node_id=self.id, stop_result=copy.deepcopy(self.stop_result), input_dim=2)
        if self.trained:
            saved, RUN[0] = RUN[0], Script([])
            for _ in range(self.n):
                node.train(np.zeros((1, 2)))
                node.stop_training()
            RUN[0] = saved
        return node

    def find(self, i):
        return self.id == i

    def reset(self):
        RUN[0].log.append((self.name, 'reset'))

    def parse(self, msg, default, stop=False):
        msg = dict(msg)
        own = {}
        for k in list(msg):
            if '->' in k and self.id is not None and k.split('->')[0] == self.id:
                own[k.split('->')[1]] = msg.pop(k)
        target = own.pop('target', msg.get('target'))
        method = own.pop('method', msg.get('method'))
        if method == 'inverse' and target is None:
            target = -1
        kind = {'execute': 'execute', 'inverse': 'inverse', 'other': 'other', None: default}.get(method)
        if kind is None:
            raise RefError
        names = ARGS[self.variant] if not (self.variant == 3 and kind.startswith('stop')) else []
        args = {k: v for k, v in msg.items() if k in names}
        args.update({k: v for k, v in own.items() if k in names})
        if 'msg' in names:
            args['msg'] = msg
            msg = None
        return msg, target, kind, args

    def call(self, kind, x, args):
        full = {k: ({} if k == 'msg' else None) for k in ARGS[self.variant]}
        if kind.startswith('stop') and self.variant == 3:
            full = {}
        if self.variant == 3 and not kind.startswith('stop') and 'a' not in args:
            raise Missing
        full.update(args)
        return act(kind, self.name, x, full, self.code)

    @staticmethod
    def combine(r, msg, target):
        if isinstance(r, tuple):
            if msg:
                r = (r[0], dict(msg, **(r[1] or {}))) + r[2:]
            if target is not None and len(r) == 2:
                r += (target,)
            return r
        if target is not None:
            return r, msg, target
        return (r, msg) if msg else r

    def execute(self, x, msg, entry=None):
        if msg is None:
            if x is None:
                raise RefError
            ready(self, x)
            return self.call('execute', x, {})
        msg, target, kind, args = self.parse(msg, 'execute')
        if x is not None and kind == 'execute':
            ready(self, x)
        elif x is not None and kind == 'inverse':
            ready_inverse(self)
        return self.combine(self.call(kind, x, args), msg, target)

    def train(self, x, msg):
        if self.phase >= self.n:
            raise RefError      # a jump has closed the training
        default = 'train%d' % self.phase
        if msg is None:
            if x is None:
                raise RefError
            r = self.call(default, x, {})
            self.started = True
        else:
            msg, target, kind, args = self.parse(msg, default)
            if kind == default:
                self.started = True
            elif kind == 'inverse' and x is not None:
                ready_inverse(self)
            r = self.call(kind, x, args)
            if r is None:
                return None
            r = self.combine(r, msg, target)
        if isinstance(r, tuple) and len(r) == 2 and r[0] is None:
            return None
        return r

    def stop(self, msg):
        if not self.started:
            raise RefError
        default = 'stop%d' % self.phase
        target = None
        if not msg:
            msg = None
            r = self.call(default, None, {})
        else:
            msg, target, kind, args = self.parse(msg, default)
            if kind != default:
                raise Missing       # execution methods need data
            r = self.call(kind, None, args)
        if self.stop_result:
            s = self.stop_result[self.phase] if self.n > 1 else self.stop_result
            msg = dict(s[0], **(msg or {}))
            if target is None:
                target = s[1]
        self.phase += 1
        self.started = False
        return self.combine(r, msg, target)


class Plain(object):
    plain = True
    inside = False

    def __init__(self, name, code, phases=0):
        self.name, self.code, self.n, self.phase, self.started = name, code, phases, 0, False

    def build(self):
        return P(self.name, self.code, self.n)

    def find(self, i):
        return False

    def reset(self):
        pass

    def execute(self, x, msg, entry=None):
        if x is None:
            raise Missing
        ready(self, x)
        RUN[0].log.append((self.name, 'plain', show(x)))
        return x * 2 + self.code

    def train(self, x, msg):
        if x is None:
            raise Missing
        RUN[0].log.append((self.name, 'plain-train%d' % self.phase, show(x)))
        self.started = True

    def stop(self, msg):
        if msg is not None:
            raise Missing
        if not self.started:
            raise RefError
        RUN[0].log.append((self.name, 'plain-stop%d' % self.phase))
        self.phase += 1
        self.started = False


class Seq(object):
    """a chain of specs: flow and inside of a flow node"""
    def __init__(self, nodes):
        self.nodes = nodes

    def locate(self, target):
        for i, n in enumerate(self.nodes):
            if n.find(target):
                return i
        return None

    def reset(self):
        for n in self.nodes:
            n.reset()

    def walk(self, x, msg, i, entry=None, stop_at=None):
        """-> (how, x, msg, target); how: end, back, out (target not here), reached"""
        while True:
            if i == stop_at:
                return 'reached', x, msg, entry
            node = self.nodes[i]
            r = node.execute(x, msg, entry)
            entry = None
            x, msg2, target = r if isinstance(r, tuple) and len(r) == 3 else (r + (1,) if isinstance(r, tuple) else (r, None, 1))
            msg = msg if node.plain else msg2
            how, i, entry = self.jump(i, target)
            if how:
                return how, x, msg, target

    def jump(self, i, target):
        """-> (how or None, index, entry): entry is the id by which a container is entered"""
        if isinstance(target, int):
            i += target
            if i == len(self.nodes):
                return 'end', i, None
            if i == -1:
                return 'back', i, None
            if not 0 <= i < len(self.nodes):
                raise RefError
            return None, i, None
        j = self.locate(target) if target != EXIT_TARGET else None
        if j is None:
            return 'out', None, None
        return None, j, target


class Box(object):
    """spec of a flow node"""
    plain = False
    inside = False
    started = False

    def __init__(self, name, nodes, node_id=NONE):
        self.name, self.seq = name, Seq(nodes)
        self.id = name if node_id is NONE else node_id
        for n in nodes:
            n.inside = True

    def build(self):
        return BiFlowNode(BiFlow([n.build() for n in self.seq.nodes]), node_id=self.id)

    @property
    def n(self):
        return sum(n.n for n in self.seq.nodes)

    @property
    def phase(self):
        return sum(n.phase for n in self.seq.nodes)

    def find(self, i):
        return self.id == i or any(n.find(i) for n in self.seq.nodes)

    def reset(self):
        self.seq.reset()

    def parse(self, msg):
        if msg is None:
            return None, None, None
        msg = dict(msg)
        own = {}
        for k in list(msg):
            if '->' in k and self.id is not None and k.split('->')[0] == self.id:
                own[k.split('->')[1]] = msg.pop(k)
        return msg, own.get('target', msg.get('target')), own.get('method', msg.get('method'))

    def enter(self, entry, method, target):
        if entry is not None and entry != self.id:
            return self.seq.locate(entry), entry, target
        if method == 'inverse' and target in (None, -1):
            return len(self.seq.nodes) - 1, None, None
        return 0, None, target

    def leave(self, how, x, msg, target):
        if how == 'end':
            return (x, msg) if msg else x
        return x, msg, -1 if how == 'back' else target

    def execute(self, x, msg, entry=None):
        if msg is None and x is None:
            raise RefError
        msg, target, method = self.parse(msg)
        if x is not None and method in (None, 'execute'):
            ready(self, x)
        i, entry, target = self.enter(entry, method, target)
        r = self.leave(*self.seq.walk(x, msg, i, entry))
        return Leaf.combine(r, None, target)

    def current(self):
        return next(i for i, n in enumerate(self.seq.nodes) if n.phase < n.n)

    def train(self, x, msg, entry=None):
        if msg is None and x is None:
            raise RefError
        msg, target, method = self.parse(msg)
        if method is None:
            self.started = True
        i, entry, target = self.enter(entry, method, target)
        r = self.training(x, msg, i, entry)
        if r is None:
            return None
        r = Leaf.combine(r, None, target)
        if isinstance(r, tuple) and len(r) == 2 and r[0] is None:
            return None
        return r

    def training(self, x, msg, i, entry):
        cur = self.current()
        while True:
            how, x, msg, target = self.seq.walk(x, msg, i, entry, stop_at=cur)
            if how != 'reached':
                return self.leave(how, x, msg, target)
            node = self.seq.nodes[cur]
            r = node.train(x, msg) if not isinstance(node, Box) else node.train(x, msg, target)
            if r is None:
                return None
            x, msg, target = r if isinstance(r, tuple) and len(r) == 3 else (r + (1,) if isinstance(r, tuple) else (r, None, 1))
            how, i, entry = self.seq.jump(cur, target)
            if how:
                return self.leave(how, x, msg, target)

    def stop(self, msg):
        if not self.started:
            raise RefError
        self.started = False
        cur = self.current()
        node = self.seq.nodes[cur]
        target = None
        if msg:
            msg, target, method = self.parse(msg)
        r = node.stop(None if node.plain else (msg or None))
        if r is not None:
            x, msg, t = r if isinstance(r, tuple) and len(r) == 3 else (r + (1,) if isinstance(r, tuple) else (r, None, 1))
            how, i, entry = self.seq.jump(cur, t)
            if how in ('end', 'back'):
                r = x, msg, 1 if how == 'end' else -1
            elif how:
                r = x, msg, t
            else:
                r = self.leave(*self.seq.walk(x, msg, i, entry))
        if r is None and target is None:
            return None
        return Leaf.combine(r, None, target)


class Flow(Seq):
    def build(self):
        return BiFlow([n.build() for n in self.nodes])

    def start(self, target):
        if not target:
            return 0, None
        how, i, entry = self.jump(0, target)
        if target == EXIT_TARGET:
            return None, None
        if how:
            raise RefError
        return i, entry

    def execute(self, chunks):
        """chunks: list of (x, msg, target) -> (y, msg)"""
        self.reset()
        ys, arrays, others = [], {}, {}
        if not chunks:
            raise RefError
        for x, msg, target in chunks:
            i, entry = self.start(target)
            how, y, m, t = self.walk(x, msg, i, entry) if i is not None else ('out', x, msg, EXIT_TARGET)
            if how == 'out' and t != EXIT_TARGET:
                raise RefError
            self.reset()
            ys.append(y)
            for k, v in (m or {}).items():
                if isinstance(v, np.ndarray):
                    arrays.setdefault(k, []).append(v)
                elif k in others:
                    try:
                        others[k] = others[k] + v
                    except TypeError:
                        raise RefError
                else:
                    others[k] = v
        if len({y is None for y in ys}) > 1 or set(arrays) & set(others):
            raise RefError
        others.update({k: np.concatenate(v) for k, v in arrays.items()})
        return (None if ys[0] is None else np.concatenate(ys)), others

    def train(self, data, stops=None):
        """data: per node a list of (x, msg) or None"""
        self.reset()
        for k, node in enumerate(self.nodes):
            while node.phase < node.n:
                self.phase_of(k, node, data[k], stops[k] if stops else None)
                self.reset()

    def phase_of(self, k, node, chunks, stop):
        if not chunks:
            raise RefError
        for x, msg in chunks:
            i, entry = 0, None
            while True:
                how, x, msg, target = self.walk(x, msg, i, entry, stop_at=k)
                if how != 'reached':
                    raise RefError
                r = node.train(x, msg) if not isinstance(node, Box) else node.train(x, msg, target)
                if r is None:
                    break
                x, msg, target = r if isinstance(r, tuple) and len(r) == 3 else (r + (1,) if isinstance(r, tuple) else (r, None, 1))
                how, i, entry = self.jump(k, target)
                if how:
                    raise RefError
            self.reset()
        r = node.stop(None if stop is None else copy.deepcopy(stop))
        if r is None:
            return
        x, msg, target = r if isinstance(r, tuple) and len(r) == 3 else (r + (1,) if isinstance(r, tuple) else (r, None, 1))
        how, i, entry = self.jump(k, target)
        if how in ('end', 'back') or target == EXIT_TARGET:
            return
        if how:
            raise RefError
        how, x, msg, target = self.walk(x, msg, i, entry)
        if how == 'out' and target != EXIT_TARGET:
            raise RefError


# ------------------------------------------------------------------ comparison
def strip(log):
    return [e for e in log if e[1] != 'reset']


def squeeze(log):
    """resets of all nodes at one boundary collapse into one marker with the set of nodes"""
    out = []
    for e in log:
        if e[1] == 'reset':
            if out and out[-1][0] == 'R':
                out[-1][1].add(e[0])
            else:
                out.append(('R', {e[0]}))
        else:
            out.append(e)
    return [e if e[0] != 'R' else ('R', sorted(e[1])) for e in out]


def outcome(fn, expected_errors):
    try:
        return 'ok', fn()
    except Diverge:
        return 'diverge', None
    except expected_errors as e:
        return 'error', e


def run_ref(fn, script):
    run = RUN[0] = Script(script)
    try:
        return 'ok', fn(), run
    except Diverge:
        return 'diverge', None, run
    except RefError:
        return 'flow-error', None, run
    except Missing:
        return 'missing', None, run
    except RuntimeError:
        return 'scripted', None, run


def run_real(fn, script):
    run = RUN[0] = Script(script)
    try:
        return 'ok', fn(), run
    except Diverge:
        return 'diverge', None, run
    except mdp.MDPException as e:
        return 'flow-error', e, run
    except (TypeError, AttributeError) as e:
        return 'missing', e, run
    except RuntimeError as e:
        if str(e) != 'scripted':
            raise
        return 'scripted', e, run
