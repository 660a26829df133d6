"""F01: Flow.train against training the nodes by hand; Flow.execute/inverse against composition."""
import itertools
import numpy as np
import mdp
from ..core import check
from .. import inst as I

LEVEL = 'model_checking'
RULE = 'flow with at least one trainable node behind another node, or a refused data form'
ASSUMPTIONS = ['nodes are instrumented (exact integer arithmetic); the last phase of a node that is not last may be closed only when it is first executed']
X = np.array([[1., 4.], [-2., 3.], [0., 5.], [7., -1.]])
CH = [[4], [1, 3], [2, 1, 1], [1, 1, 1, 1]]
ARGS = {'S': 1, 'D': 2, 'O': 0, '1': 0, '2': 0, '3': 0, 'U': 0, 'W': 0, 'N': 0, 'P': 0, 'Q': 0, 'H': 0, 'J': 0}
NEED = '123SDOHJ'
MULTI = '23DJ'


def chunks(code, nargs, opt=False):
    """list of (x, args)"""
    out, p = [], 0
    for i, n in enumerate(CH[code]):
        x = X[p:p + n].copy()
        p += n
        args = tuple(np.arange(n) + 7 * i + k for k in range(nargs))
        if opt and i % 2 == 0:
            args = (np.arange(n) + 3,)
        out.append((x, args))
    return out


class Iterable(object):
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(list(self.items))


def package(items, form):
    """wrap [(x, args)] into a training data form"""
    def one(it, i):
        x, args = it
        if not args and form != 'tuples':
            return x
        return (x,) + args if i % 2 == 0 or form == 'tuples' else [x] + list(args)
    its = [one(it, i) for i, it in enumerate(items)]
    if form in ('lists', 'tuples'):
        return its
    if form == 'iterable':
        return Iterable(its)
    if form == 'gen':
        return (x for x in its)
    if form == 'iterator':
        return iter(its)
    raise ValueError(form)


def hand(kinds, data):
    """train by hand, node by node; returns the nodes"""
    nodes = I.build(kinds)
    for i, k in enumerate(kinds):
        nd = nodes[i]
        if k not in NEED:
            continue
        while nd.get_remaining_train_phase() > 0:
            for x, args in data[i]:
                for p in nodes[:i]:
                    x = p.execute(x)
                nd.train(x, *args)
            nd.stop_training()
    return nodes


def compare(kinds, flow, ref, where):
    for i, (a, b) in enumerate(zip(flow, ref)):
        last_open = a.is_training() and a.get_remaining_train_phase() == 1 and i < len(ref) - 1
        if last_open:
            a.stop_training()       # the flow closes it at its first execution
        check(a.log == b.log, lambda: where() + 'node %d (%s) saw\n%r\nby hand\n%r' % (i, kinds[i], a.log, b.log), 'log')
        check(a.acc == b.acc and a.is_training() == b.is_training(), lambda: where() + 'node %d state differs' % i, 'state')


def training(ctx, kinds, form, code):
    opt = code % 2 == 1
    data = [chunks((code + i) % len(CH), ARGS[k], opt and k == 'O') for i, k in enumerate(kinds)]
    where = lambda: 'flow %s, form %s, chunking %d: ' % (kinds, form, code)
    nodes = I.build(kinds)
    flow = mdp.Flow(nodes)
    if form == 'array':
        data = [[(X.copy(), ())] for k in kinds]
        arg = X.copy()
        keep = arg
    else:
        f = form.split('+')[0]
        arg = [package(d, f) for d in data]
        if form.endswith('+none'):
            arg = [None if k in 'UWNPQ' else a for a, k in zip(arg, kinds)]
        keep = None
    multi_gen = form.split('+')[0] in ('gen', 'iterator') and any(k in MULTI for k in kinds)
    flow_err = None
    try:
        flow.train(arg)
    except Exception as e:
        flow_err = e
    ctx.step()
    if multi_gen:
        check(isinstance(flow_err, mdp.FlowException), lambda: where() + 'one-shot iterator for a multi-phase node: %r' % flow_err, 'iterator')
        ctx.mark()
        return
    check(flow_err is None, lambda: where() + 'training failed: %r' % flow_err, 'failed')
    if keep is not None:
        check((keep == X).all(), lambda: where() + 'input modified', 'input')
    check(not flow[-1].is_training(), lambda: where() + 'last node still training', 'last-open')
    ref = hand(kinds, data)
    compare(kinds, flow, ref, where)
    check([id(a) for a in flow] == [id(b) for b in nodes], lambda: where() + 'nodes replaced', 'nodes')
    ctx.execution()
    ctx.state(kinds, form, code)
    ctx.outcome(tuple(n.acc for n in nodes))
    if len(kinds) > 1 and any(k in NEED for k in kinds[1:]):
        ctx.mark()


def execution(ctx, kinds):
    data = [chunks(0, ARGS[k]) for k in kinds]
    flow = mdp.Flow(hand(kinds, data))
    ref = hand(kinds, data)
    x = X.copy()
    where = lambda: 'flow %s: ' % kinds
    for nr in [None] + list(range(len(kinds))):
        y = x
        for nd in ref[:len(ref) if nr is None else nr + 1]:
            y = nd.execute(y)
        ways = [('execute', lambda: flow.execute(x, nr)), ('call', lambda: flow(x, nr)), ('kw', lambda: flow.execute(x, nodenr=nr)),
                ('list', lambda: flow.execute([x[:1], x[1:2], x[2:]], nr)), ('gen', lambda: flow((r[None, :] for r in x), nr)),
                ('iterable', lambda: flow(Iterable([x[:3], x[3:]]), nodenr=nr))]
        if nr is None:
            ways += [('plain', lambda: flow.execute(x))]
        elif nr + 1 <= len(kinds):
            ways += [('slice', lambda: flow[:nr + 1](x))]
        for name, f in ways:
            res = f()
            check(res.shape == y.shape and (res == y).all(), lambda: where() + 'execute (%s, nodenr=%r) gave %r, composition %r' % (name, nr, res.tolist(), y.tolist()), 'execute')
            check((x == X).all(), lambda: where() + 'input modified', 'input')
            ctx.step()
    y = x
    for nd in ref:
        y = nd.execute(y)
    inv = [('array', y), ('list', [y[:2], y[2:]]), ('gen', (r[None, :] for r in y)), ('iterable', Iterable([y]))]
    for name, arg in inv:
        try:
            res, err = flow.inverse(arg), None
        except Exception as e:
            res, err = None, e
        if 'N' in kinds:
            check(isinstance(err, mdp.FlowException) and isinstance(err.parent_exception, mdp.IsNotInvertibleException),
                  lambda: where() + 'inverse (%s) through a non-invertible node: %r' % (name, err), 'not-invertible')
        else:
            check(err is None and (res == X).all(), lambda: where() + 'inverse (%s) gave %r' % (name, err if err else res), 'inverse')
        ctx.step()
    for f in (flow.execute, flow.inverse, flow):
        try:
            f([])
            err = None
        except Exception as e:
            err = e
        check(isinstance(err, mdp.FlowException), lambda: where() + 'empty iterable: %r' % err, 'empty')
    ctx.execution()
    ctx.state('exec', kinds)
    if len(kinds) > 1:
        ctx.mark()


def refused(ctx, kinds, what, pos):
    data = [chunks((1 + i) % 3, ARGS[k]) for i, k in enumerate(kinds)]
    nodes = I.build(kinds)
    flow = mdp.Flow(nodes)
    arg = [package(d, 'lists') for d in data]
    k = kinds[pos]
    before = [(list(n.log), n.acc, n.is_training()) for n in nodes]
    upfront = False
    if what == 'short':
        arg = arg[:-1]
        upfront = True
    elif what == 'long':
        arg = arg + [[X]]
        upfront = True
    elif what == 'tuple':
        arg = tuple(arg)
        upfront = True
    elif what == 'noniter':
        arg[pos] = 5
        upfront = True
    elif what == 'int':
        arg = 3
        upfront = True
    elif what == 'None':
        if k not in NEED:
            return
        arg[pos] = None
    elif what == 'empty':
        if k not in NEED:
            return
        arg[pos] = []
    elif what == 'emptygen':
        if k not in NEED:
            return
        arg[pos] = (i for i in [])
    elif what == 'missing':
        if k not in 'SD':
            return
        arg[pos] = [it[:-1] for it in arg[pos]]
    elif what == 'extra':
        if k not in 'SD':
            return
        arg[pos] = [tuple(it) + (it[1],) for it in arg[pos]]
    elif what == 'missing2':
        if k not in 'SD':
            return
        if len(arg[pos]) < 2:
            return
        arg[pos] = [arg[pos][0], arg[pos][1][0]]
    elif what == 'width':
        if k not in NEED:
            return
        arg[pos] = [arg[pos][0], (np.ones((2, 9)),) + tuple(np.arange(2) for _ in range(ARGS[k]))]
    try:
        flow.train(arg)
        err = None
    except Exception as e:
        err = e
    ctx.step()
    where = lambda: 'flow %s with %s data for node %d: ' % (kinds, what, pos)
    check(err is not None, lambda: where() + 'accepted', 'accepted')
    check(isinstance(err, mdp.FlowException), lambda: where() + 'raised %r instead of a flow error' % err, 'error')
    lim = 0 if upfront else pos
    for i in range(pos + 1 if not upfront else 0, len(nodes)):
        check((nodes[i].log, nodes[i].acc, nodes[i].is_training()) == before[i], lambda: where() + 'node %d behind the failing one was touched' % i, 'later')
    if upfront:
        check([(n.log, n.acc, n.is_training()) for n in nodes] == before, lambda: where() + 'nodes trained although the data form is refused', 'upfront')
    else:
        for i in range(lim):
            check(nodes[i].get_remaining_train_phase() <= 1 , lambda: where() + 'node %d before the failing one is not trained' % i, 'earlier')
    ctx.execution()
    ctx.state(kinds, what, pos)
    ctx.mark()


SCENARIOS = {'training': training, 'execution': execution, 'refused': refused}
REFUSED = ['short', 'long', 'tuple', 'noniter', 'int', 'None', 'empty', 'emptygen', 'missing', 'extra', 'missing2', 'width']


def cases(tier):
    deep = tier == 'thorough'
    full = 'UW123SDOPQHJN'
    for n in (1, 2, 3):
        for kinds in itertools.product(full if n < 3 or deep else 'UW12SOPJ', repeat=n):
            kinds = ''.join(kinds)
            yield 'execution', dict(kinds=kinds)
            for form in ('array', 'lists', 'tuples', 'iterable', 'gen', 'iterator', 'lists+none', 'gen+none', 'iterable+none'):
                if form == 'array' and ('S' in kinds or 'D' in kinds):
                    continue
                for code in ((0,) if form == 'array' else range(4) if n < 3 or deep else (1, 2)):
                    yield 'training', dict(kinds=kinds, form=form, code=code)
            if n < 3 or deep:
                for what in REFUSED:
                    for pos in range(n):
                        yield 'refused', dict(kinds=kinds, what=what, pos=pos)
    for kinds in itertools.product('U2S' if not deep else 'U2SPW', repeat=4):
        kinds = ''.join(kinds)
        yield 'execution', dict(kinds=kinds)
        yield 'training', dict(kinds=kinds, form='lists', code=1)
        for what in REFUSED:
            for pos in range(4):
                yield 'refused', dict(kinds=kinds, what=what, pos=pos)
