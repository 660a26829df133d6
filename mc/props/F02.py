"""F02: flow editing against a plain list, all edit sequences up to a depth, for batch, online, circular and bi flows."""
import itertools
import mdp
import bimdp
from ..core import check

LEVEL = 'model_checking'
RULE = 'edit sequence with at least one accepted and one refused edit'
ASSUMPTIONS = ['a flow cannot be edited to be empty for online flows: refusing or accepting is both allowed there',
               'alphabet of node dimensions 2->2, 2->3, 3->2, 3->3, unset; flows of up to 4 nodes at the start']


class K(mdp.Node):
    @staticmethod
    def is_trainable():
        return False

    def _execute(self, x):
        return x


class KO(mdp.OnlineNode):
    def _train(self, x):
        pass

    def _execute(self, x):
        return x


class KT(mdp.Node):
    def _train(self, x):
        pass


DIMS = {'a': (2, 2), 'b': (2, 3), 'c': (3, 2), 'd': (3, 3), 'u': (None, None), 'v': (None, 2)}


def flow_cls(kind):
    return {'flow': mdp.Flow, 'online': mdp.OnlineFlow, 'circular': mdp.CircularOnlineFlow, 'checkpoint': mdp.CheckpointFlow,
            'biflow': bimdp.BiFlow, 'parallel': mdp.parallel.ParallelFlow}[kind]


def mk(kind, ch):
    if ch == 'T':
        return KT()
    i, o = DIMS[ch]
    cls = KO if kind in ('online', 'circular') else K
    return cls(input_dim=i, output_dim=o)


def consistent(nodes):
    for a, b in zip(nodes, nodes[1:]):
        if a.output_dim is not None and b.input_dim is not None and a.output_dim != b.input_dim:
            return False
    return True


def ok_online(nodes):
    return all(isinstance(x, mdp.OnlineNode) or not x.is_training() for x in nodes[:-1])


SLICES = {':': slice(None), '0:1': slice(0, 1), '1:2': slice(1, 2), '1:1': slice(1, 1), '-1:': slice(-1, None), '::2': slice(None, None, 2),
          '::-1': slice(None, None, -1), '5:9': slice(5, 9), '0:2': slice(0, 2), '-2:-1': slice(-2, -1)}


def run(ctx, kind, start, seq):
    cls = flow_cls(kind)
    orig = [mk(kind, c) for c in start]
    given = list(orig)
    flow = cls(given)
    ref = list(orig)
    derived = []            # (flow object, expected nodes)
    acc = rej = 0
    for n, op in enumerate(seq):
        where = lambda: '%s(%s) after %r: ' % (kind, start, seq[:n + 1])
        o, arg = op[0], op[1:]
        new = list(ref)
        exp = None
        ret = None
        nd = [mk(kind, c) for c in (arg[-1] if arg and isinstance(arg[-1], str) and set(arg[-1]) <= set('abcduT') else '')]
        other_expected = None
        refuse_type = False
        before = list(flow)
        try:
            if o == 'append':
                act = lambda: flow.append(nd[0])
                new.append(nd[0])
            elif o == 'insert':
                act = lambda: flow.insert(arg[0], nd[0])
                new.insert(arg[0], nd[0])
            elif o == 'extend':
                other = cls(nd)
                other_expected = list(nd)
                act = lambda: flow.extend(other)
                new.extend(nd)
            elif o == 'extendself':
                act = lambda: flow.extend(flow)
                new.extend(list(new))
            elif o == 'set':
                act = lambda: flow.__setitem__(arg[0], nd[0])
                new[arg[0]] = nd[0]
            elif o == 'setslice':
                act = lambda: flow.__setitem__(SLICES[arg[0]], nd)
                new[SLICES[arg[0]]] = nd
            elif o == 'setslicegen':
                act = lambda: flow.__setitem__(SLICES[arg[0]], (x for x in nd))
                new[SLICES[arg[0]]] = nd
            elif o == 'del':
                act = lambda: flow.__delitem__(arg[0])
                del new[arg[0]]
            elif o == 'delslice':
                act = lambda: flow.__delitem__(SLICES[arg[0]])
                del new[SLICES[arg[0]]]
            elif o == 'pop':
                act = (lambda: flow.pop()) if not arg else (lambda: flow.pop(arg[0]))
                ret = new.pop(*arg)
            elif o == 'iaddnode':
                def act():
                    f = flow
                    f += nd[0]
                    check(f is flow, lambda: where() + 'in-place sum returned another object', 'iadd-identity')
                new.append(nd[0])
            elif o == 'iaddflow':
                other = cls(nd)
                other_expected = list(nd)

                def act():
                    f = flow
                    f += other
                new.extend(nd)
            elif o == 'bad':
                refuse_type = True
                what = arg[0]
                if what == 'append':
                    act = lambda: flow.append('x')
                elif what == 'insert':
                    act = lambda: flow.insert(0, 3)
                elif what == 'set':
                    act = lambda: flow.__setitem__(0, None)
                elif what == 'setslice':
                    act = lambda: flow.__setitem__(slice(0, 1), [orig[0], 'x'])
                elif what == 'extend':
                    act = lambda: flow.extend([orig[0]])
                elif what == 'iadd':
                    def act():
                        f = flow
                        f += [orig[0]]
                elif what == 'add':
                    act = lambda: flow + 3
            elif o in ('addnode', 'addflow', 'slice'):
                if o == 'addnode':
                    val = list(ref) + [nd[0]]
                    act = lambda: flow + nd[0]
                elif o == 'addflow':
                    other = cls(nd)
                    other_expected = list(nd)
                    val = list(ref) + nd
                    act = lambda: flow + other
                else:
                    val = ref[SLICES[arg[0]]]
                    act = lambda: flow[SLICES[arg[0]]]
                good = consistent(val) and (kind not in ('online', 'circular') or ok_online(val))
                if not val and kind in ('online', 'circular'):
                    good = None
                try:
                    res, err = act(), None
                except Exception as e:
                    res, err = None, e
                ctx.step()
                if good is True:
                    check(err is None, lambda: where() + 'refused: %r' % err, 'refused')
                    check(type(res) is cls, lambda: where() + 'result is a %s' % type(res).__name__, 'type')
                    check([id(x) for x in res] == [id(x) for x in val], lambda: where() + 'result holds the wrong nodes', 'result-nodes')
                    derived.append((res, val))
                    acc += 1
                elif good is False:
                    check(isinstance(err, (ValueError, TypeError)), lambda: where() + 'inconsistent result, got %r' % err, 'not-refused')
                    rej += 1
                new = list(ref)
                o = None
        except IndexError:
            exp = IndexError
        except ValueError:
            exp = ValueError        # extended slice of a different size
        if o is not None:
            if exp is not None:
                pass
            elif refuse_type:
                exp = TypeError
            elif not consistent(new):
                exp = (ValueError, TypeError)
            elif kind in ('online', 'circular') and not ok_online(new):
                exp = TypeError
            elif kind == 'circular' and any(isinstance(x, KT) for x in new):
                exp = TypeError
            maybe = exp is None and not new and kind in ('online', 'circular')
            try:
                res, err = act(), None
            except Exception as e:
                res, err = None, e
            ctx.step()
            if maybe and err is not None:
                new = list(ref)
            elif exp is None:
                check(err is None, lambda: where() + 'accepted edit refused with %r' % err, 'refused')
                if ret is not None:
                    check(res is ret, lambda: where() + 'wrong node returned', 'return')
                acc += 1
            else:
                check(err is not None, lambda: where() + 'edit that must be refused was accepted', 'not-refused')
                check(isinstance(err, exp), lambda: where() + 'wrong error %r' % err, 'error-type')
                new = list(ref)
                rej += 1
        ref = new
        got = list(flow)
        check([id(x) for x in got] == [id(x) for x in ref],
              lambda: where() + 'flow holds %s, a list would hold %s' % (names(got, before), names(ref, before)), 'nodes')
        check(len(flow) == len(ref), lambda: where() + 'len wrong', 'len')
        for i in range(-len(ref), len(ref)):
            check(flow[i] is ref[i], lambda: where() + 'flow[%d] wrong' % i, 'getitem')
        check(all(x in flow for x in ref) and orig[0].__class__() not in flow, lambda: where() + 'membership wrong', 'contains')
        check(consistent(list(flow)), lambda: where() + 'flow is inconsistent', 'consistent')
        check([id(x) for x in given] == [id(x) for x in orig], lambda: where() + "the caller's list was changed", 'callers-list')
        if other_expected is not None:
            check([id(x) for x in other] == [id(x) for x in other_expected], lambda: where() + 'the added flow was changed', 'operand')
            derived.append((other, other_expected))
        for f, val in derived:
            check([id(x) for x in f] == [id(x) for x in val], lambda: where() + 'an independent flow (slice, sum or operand) was changed', 'aliasing')
        if kind == 'circular' and len(ref):
            check(0 <= flow.output_node_idx < len(ref), lambda: where() + 'output node index %r out of range' % flow.output_node_idx, 'output-idx')
        if kind in ('online', 'circular') and not ref:
            return
        ctx.state(kind, tuple((x.input_dim, x.output_dim) for x in ref))
    ctx.execution()
    ctx.outcome(kind, len(ref), acc, rej)
    if acc and rej:
        ctx.mark(str(seq))


def names(l, before):
    return [before.index(x) if x in before else 'new' for x in l]


def alphabet(kind, small):
    ops = []
    for c in ('abu' if small else 'abcdu'):
        ops.append(('append', c))
    for i in (0, 1, -1, 9):
        for c in ('ab' if small else 'abcu'):
            ops.append(('insert', i, c))
    for c in ('a', 'bc', 'bd', ''):
        if c or kind not in ('online', 'circular'):
            ops.append(('extend', c))
    ops.append(('extendself',))
    for i in (0, 1, -1, 7):
        for c in ('ab' if small else 'abcu'):
            ops.append(('set', i, c))
    for s in (':', '0:1', '1:1', '-1:', '::2', '5:9'):
        for c in ('', 'a', 'bc') if small else ('', 'a', 'b', 'bc', 'au'):
            ops.append(('setslice', s, c))
    ops.append(('setslicegen', '0:1', 'aa'))
    for i in (0, 1, -1, 8):
        ops.append(('del', i))
    for s in ('0:1', '1:2', '-1:', '::2', ':'):
        ops.append(('delslice', s))
    ops += [('pop',), ('pop', 0), ('pop', 1), ('pop', 6)]
    ops += [('iaddnode', 'a'), ('iaddnode', 'b'), ('iaddnode', 'd'), ('iaddflow', 'a'), ('iaddflow', 'bc'), ('iaddflow', 'dd')]
    ops += [('addnode', 'a'), ('addnode', 'd'), ('addflow', 'bc'), ('addflow', 'd')]
    ops += [('slice', s) for s in (':', '1:2', '::-1', '-2:-1', '0:2')]
    ops += [('bad', w) for w in ('append', 'insert', 'set', 'setslice', 'extend', 'iadd', 'add')]
    if kind in ('online', 'circular'):
        ops += [('append', 'T'), ('insert', 0, 'T'), ('set', -1, 'T')]
    return ops


def edits(ctx, kind, start, first, depth, small):
    ops = alphabet(kind, small)
    for tail in itertools.product(range(len(ops)), repeat=depth - 1):
        seq = [ops[first]] + [ops[i] for i in tail]
        ctx.at(kind, start, seq)
        run(ctx, kind, start, seq)


def construct(ctx, kind, n):
    """constructing a flow accepts exactly the consistent node lists"""
    cls = flow_cls(kind)
    for start in itertools.product('abcdu', repeat=n):
        nodes = [mk(kind, c) for c in start]
        try:
            f, err = cls(nodes), None
        except Exception as e:
            f, err = None, e
        if consistent(nodes):
            check(err is None and list(f) == nodes, lambda: '%s(%s) refused: %r' % (kind, start, err), 'refused')
            for show in (str, repr):
                text, at = show(f), 0
                for x in nodes:
                    i = text.find(show(x), at)
                    check(i >= 0, lambda: '%s(%s) is printed as %s' % (kind, start, text), 'print')
                    at = i + len(show(x))
        else:
            check(isinstance(err, ValueError), lambda: '%s(%s) accepted or wrong error %r' % (kind, start, err), 'not-refused')
        # node + node, node + flow give a flow as well
        if kind == 'flow' and n == 2:
            try:
                f, err = nodes[0] + nodes[1], None
            except Exception as e:
                f, err = None, e
            check((err is None) == consistent(nodes), lambda: 'node + node for %s: %r' % (start, err), 'node-sum')
            check(err is not None or list(f) == nodes, lambda: 'node + node for %s holds wrong nodes' % (start,), 'node-sum-nodes')
        ctx.step()
        ctx.execution()
        ctx.state(kind, start)
        if not consistent(nodes):
            ctx.mark(start)


SCENARIOS = {'edits': edits, 'construct': construct}


def cases(tier):
    deep = tier == 'thorough'
    for kind in ('flow', 'online', 'circular', 'checkpoint', 'biflow', 'parallel'):
        for n in (1, 2, 3, 4):
            yield 'construct', dict(kind=kind, n=n)
        for start in ('a', 'bc', 'aau', 'bdc') + (('uuuu', 'abdc') if deep else ()):
            for small in (False, True):
                m = len(alphabet(kind, small))
                depth = 2 if not small else 3
                if kind in ('checkpoint', 'biflow', 'parallel') and not deep:
                    if small:
                        continue
                if small and not deep and start not in ('bc',):
                    continue
                for i in range(m):
                    yield 'edits', dict(kind=kind, start=start, first=i, depth=depth, small=small)
