"""B02: routing of messages and jump targets - every script of node results up to a depth against an interpreter of the documented rules."""
import copy
import itertools
import numpy as np
import mdp
import bimdp
from bimdp import BiFlow, EXIT_TARGET
from ..core import check, Violation
from .. import biref as R
from ..biref import NONE

LEVEL = 'model_checking'
RULE = 'run with at least one message or jump that is not the default'
ASSUMPTIONS = ["messages do not use the keys 'x' and 'self'", 'runs that visit more than 40 nodes are not compared (they are loops in the scripts)',
               'a script decides the results of the first calls of scripted nodes, whatever node they reach; later calls return data only']

X = np.array([[1., 2.], [3., 4.]])


def targets(small):
    t = [NONE, 1, -1, 2, -2, 0, 3, 'a', 'b', 'c', 'nope', EXIT_TARGET]
    return t if not small else [NONE, 1, -1, -2, 0, 'a', 'c', EXIT_TARGET]


def actions(small=False):
    out = [None]
    for t in targets(small):
        out.append(('y', {'k': 1}, t))
        if t is not NONE:
            out.append(('y', None, t))
    if not small:
        out += [('y', {'b->%s' % k: v}, t) for k, v in (('a', 7), ('b', 8), ('zz', 9), ('target', 'a'), ('target', -1), ('method', 'other'), ('method', 'inverse'), ('method', 'bad')) for t in (NONE, 'b')]
        out += [('y', {'a': 5}, NONE), ('y', {'a': 5, 'b->a': 6, 'c->a': 7, 'd->a': 8}, NONE), ('y', {'target': -1}, NONE), ('y', {'target': 1}, NONE), ('y', {'method': 'inverse'}, NONE), ('y', {'method': 'inverse'}, 0),
                ('N', {'k': 2}, NONE), ('N', {}, NONE), ('N', None, 'a'), ('M', {'k': 3}, -1), ('y', {}, NONE), ('N', {'b->a': X}, 'b'), ('raise', None, NONE)]
    else:
        out += [('y', {'b->a': 7}, NONE), ('y', {'a->method': 'inverse', 'c->a': 3}, 'c'), ('y', {'method': 'inverse'}, NONE), ('N', {'k': 2}, 'b'), ('M', {'a': 4}, -1)]
    return out


FLOWS = {
    'abc': lambda: [R.Leaf('a', 1, 1), R.Leaf('b', 2, 1), R.Leaf('c', 3, 0)],
    'aBc': lambda: [R.Leaf('a', 1, 0), R.Leaf('b', 2, 2), R.Leaf('c', 3, 1)],
    'a-c': lambda: [R.Leaf('a', 1, 2), R.Plain('-', 4), R.Leaf('c', 3, 1)],
    '-b-': lambda: [R.Plain('-', 4), R.Leaf('b', 2, 1), R.Plain('=', 5)],
    'anon': lambda: [R.Leaf('n', 4, 1, node_id=None), R.Leaf('b', 2, 3), R.Leaf('c', 3, 2)],
    'twice': lambda: [R.Leaf('a', 1, 1), R.Leaf('b', 2, 1), R.Leaf('B', 3, 1, node_id='b')],
    'one': lambda: [R.Leaf('b', 2, 1)],
    'a[bc]': lambda: [R.Leaf('a', 1, 1), R.Box('F', [R.Leaf('b', 2, 1), R.Leaf('c', 3, 0)])],
    '[ab]c': lambda: [R.Box('F', [R.Leaf('a', 1, 2), R.Leaf('b', 2, 1)]), R.Leaf('c', 3, 1)],
    '[a][-b]c': lambda: [R.Box('F', [R.Leaf('a', 1, 1)]), R.Box('G', [R.Plain('-', 4), R.Leaf('b', 2, 2)]), R.Leaf('c', 3, 0)],
    '[a[b]c]': lambda: [R.Box('F', [R.Leaf('a', 1, 1), R.Box('G', [R.Leaf('b', 2, 1)]), R.Leaf('c', 3, 1)])],
    'b bb cb': lambda: [R.Leaf('b', 1, 1), R.Leaf('bb', 2, 1), R.Leaf('cb', 3, 1)],
    'a[b[c]]': lambda: [R.Leaf('a', 1, 2), R.Box(None, [R.Leaf('b', 2, 1), R.Box('G', [R.Leaf('c', 3, 1), R.Plain('-', 4)])])],
}
MSGS = [None, {}, {'k': 0, 'm': [1]}, {'a': 1, 'b': 2}, {'b->a': 1, 'b->zz': 2, 'c->b': 3, 'q->a': 4}, {'b->target': 'a', 'c->target': 1}, {'b->method': 'inverse'}, {'c->method': 'other'}, {'target': 1}, {'method': 'inverse'}, {'F->a': 5, 'F->target': 1, 'G->zz': 3}, {'bb->a': 3, 'cb->a': 4, 'b->b': 2}, {'bb->target': 1, 'cb->k': 3, 'b': 1}]
STARTS = [None, 'b', 'c', 'nope', 2, 5, EXIT_TARGET]


def compare(ctx, spec, chunks, script, call, where, eager=False):
    kind, exp, ref = R.run_ref(lambda: spec.execute([copy.deepcopy(c) for c in chunks]), script)
    if kind == 'diverge':
        ctx.note('diverging scripts skipped')
        return None
    flow = spec.build()
    given = copy.deepcopy(chunks)
    rk, got, real = R.run_real(lambda: call(flow, given), script)
    ctx.execution()
    ctx.step(len(ref.log))
    ctx.outcome(kind, ref.pos)
    ctx.state(where[0], kind, repr(R.strip(ref.log)))
    rl, gl = R.strip(ref.log), R.strip(real.log)
    if eager and kind == 'flow-error':
        rl = rl[:len(gl)]
    check(gl == rl, lambda: '%s: nodes were called as %s instead of %s' % (where, gl, rl), 'route')
    check(rk == kind or (kind == 'missing' and rk == 'flow-error') or (kind == 'flow-error' and rk == 'missing' and False),
          lambda: '%s: outcome %s (%r) instead of %s' % (where, rk, got, kind), 'outcome')
    check(repr(R.show(given)) == repr(R.show(chunks)), lambda: '%s: the input of the caller was changed to %s' % (where, R.show(given)), 'caller')
    if kind == 'ok':
        y, m = exp
        check(isinstance(got, tuple) and len(got) == 2, lambda: '%s: result %r' % (where, got), 'result')
        check(R.show(got[0]) == R.show(y), lambda: '%s: output %s instead of %s' % (where, R.show(got[0]), R.show(y)), 'result-y')
        check(R.show(got[1]) == R.show(m), lambda: '%s: message %s instead of %s' % (where, R.show(got[1]), R.show(m)), 'result-msg')
    if script and any(script) or any(c[1] for c in chunks):
        ctx.mark(where)
    return kind


def single(flow, chunks):
    (x, msg, target), = chunks
    return flow.execute(x, msg, target)


def scripts(flow, first, depth, small, ctx):
    acts = actions(small)
    if first >= len(acts):
        return
    for rest in itertools.product(range(len(acts)), repeat=depth - 1):
        yield [acts[first]] + [acts[i] for i in rest]


def routes(ctx, flow, first, depth, small, msgs, starts, xs=(True,)):
    """every script of `depth` results beginning with action `first`"""
    for script in scripts(flow, first, depth, small, ctx):
        for mi in msgs:
            for st in starts:
                for x in xs:
                    if not x and MSGS[mi] is None:
                        continue
                    spec = R.Flow(FLOWS[flow]())
                    where = (flow, script, MSGS[mi], st, x)
                    ctx.at(where)
                    compare(ctx, spec, [(X.copy() if x else None, MSGS[mi], st)], script, single, where)


def join(ctx, first):
    """several chunks: results are concatenated / added, missing ones are reported; every way of giving the chunks"""
    vals = [None, {'k': 1}, {'k': X}, {'k': [1]}, {'k': 'u', 'l': X[:1]}, {'l': (1,)}, {'k': None}]
    acts = [None] + [(f, v, NONE) for f in 'yN' for v in vals if v is not None] + [('y', None, EXIT_TARGET), ('y', {'k': 2}, 'nope')]
    if first >= len(acts):
        return
    for nc in (1, 2, 3):
        for rest in itertools.product(range(len(acts)), repeat=nc - 1):
            script = [acts[first]] + [acts[i] for i in rest]
            for form in range(5 if nc < 3 else 2):
                spec = R.Flow([R.Leaf('b', 2, 1)])
                msgs = [None if form in (1, 3) else {'c%d' % i: i} for i in range(nc)]
                tg = [None, 'b', None][:nc] if form == 4 else [None] * nc
                chunks = [(X + i, msgs[i], tg[i]) for i in range(nc)]

                def call(flow, given):
                    xs, ms, ts = [list(v) for v in zip(*given)]
                    if form == 0:
                        return flow.execute(xs, ms)
                    if form == 1:
                        return flow.execute(iter(xs))
                    if form == 2:
                        return flow.execute((v for v in xs), (v for v in ms))
                    if form == 3:
                        return flow(xs, None)
                    return flow.execute(xs, ms, ts)
                where = ('join', nc, form, script)
                ctx.at(where)
                shared = copy.deepcopy([a[1] if a else None for a in script])
                compare(ctx, spec, chunks, script, call, where, True)
                check(repr(R.show(shared)) == repr(R.show([a[1] if a else None for a in script])), lambda: '%s: messages of the nodes were changed' % (where,), 'node-msg')


class Keep(bimdp.BiNode):
    """returns the same message object each time"""
    def __init__(self, msg):
        super(Keep, self).__init__()
        self.msg = msg

    @staticmethod
    def is_trainable():
        return False

    def _execute(self, x):
        return x, self.msg


def kept(ctx):
    """combining the results of chunks must not change the message objects of the nodes"""
    for v in ([1], [[1], [2]], 'a', (1,), 3, 2.5, X.copy()):
        for nc in (1, 2, 3):
            node = Keep({'k': v})
            v0 = copy.deepcopy(v)
            flow = BiFlow([node])
            for rnd in range(2):
                y, m = flow.execute([X] * nc)
                e = np.concatenate([v0] * nc) if isinstance(v0, np.ndarray) else v0
                for _ in range(nc - 1):
                    e = e if isinstance(v0, np.ndarray) else e + v0
                check(R.show(m) == R.show({'k': e}), lambda: 'round %d, %d chunks of %r: message %r' % (rnd, nc, v0, m), 'kept-result')
                check(R.show(node.msg['k']) == R.show(v0), lambda: 'message object of the node changed to %r' % (node.msg,), 'kept-changed')
                ctx.execution()
            ctx.mark(repr(v0), nc)


class Rec(bimdp.BiNode):
    """remembers what it was given"""
    def __init__(self, node_id):
        super(Rec, self).__init__(node_id=node_id)
        self.got = []

    @staticmethod
    def is_trainable():
        return False

    def _execute(self, x, msg_x=None):
        self.got.append((R.show(x), R.show(msg_x)))
        return x


def sender(ctx):
    """the library node that sends data to other nodes"""
    for n in (1, 2, 3):
        for pos in range(n + 1):
            for rec in (None, '') + tuple('r%d' % i for i in range(n)) + ('nobody',):
                for no_x in (None, False, True, 'addressed'):
                    ctx.at(n, pos, rec, no_x)
                    nodes = [Rec('r%d' % i) for i in range(n)]
                    recs = list(nodes)
                    nodes.insert(pos, bimdp.nodes.SenderBiNode(recipient_id=rec, node_id='s'))
                    x = X.copy()
                    gone = no_x in (True, 'addressed')
                    msg = None if no_x is None else {'s->no_x': True} if no_x == 'addressed' else {'no_x': no_x}
                    where = 'sender to %r at position %d of %d nodes, no_x=%r: ' % (rec, pos, n, no_x)
                    if gone and pos < n:
                        # the following node has neither data nor a message that it could use instead
                        continue
                    res = bimdp.BiFlow(nodes).execute(x, msg)
                    y, m = res if isinstance(res, tuple) else (res, {})
                    want = [[(R.show(X), R.show(X if i >= pos and rec in (None, '', 'r%d' % i) else None))] for i in range(n)]
                    check([r.got for r in recs] == want, lambda: where + 'the nodes were given %s instead of %s' % ([r.got for r in recs], want), 'sender')
                    check((y is None) if gone else R.show(y) == R.show(X), lambda: where + 'output %r' % (y,), 'sender-y')
                    key = 'msg_x' if not rec else None if rec in ['r%d' % i for i in range(pos, n)] else rec + '->msg_x'
                    keys = {k for k in (m or {}) if 'msg_x' in k}
                    check(keys == ({key} if key else set()), lambda: where + 'message %r at the end' % (m,), 'sender-msg')
                    if key:
                        check(R.show(m[key]) == R.show(X), lambda: where + 'message %r at the end' % (m,), 'sender-msg')
                    ctx.step()
                    ctx.execution()
                    ctx.mark(n, pos, rec, no_x)


SCENARIOS = dict(routes=routes, join=join, kept=kept, sender=sender)


def cases(tier):
    q = tier == 'quick'
    full, small = len(actions()), len(actions(True))
    every = tuple(range(len(MSGS)))
    for flow in FLOWS:
        for first in range(full):
            yield 'routes', dict(flow=flow, first=first, depth=1, small=False, msgs=every, starts=tuple(STARTS), xs=(True, False))
            yield 'routes', dict(flow=flow, first=first, depth=2, small=False, msgs=(0, 2, 4) if q else every, starts=(None,) if q else (None, 'b', 'c'), xs=(True,) if q else (True, False))
        for first in range(small):
            yield 'routes', dict(flow=flow, first=first, depth=3, small=True, msgs=(0, 4) if q else every, starts=(None,))
            if not q:
                yield 'routes', dict(flow=flow, first=first, depth=4, small=True, msgs=(0, 4), starts=(None,))
    for first in range(16):
        yield 'join', dict(first=first)
    yield 'kept', {}
    yield 'sender', {}
