"""N01: the training life cycle, explored as all call sequences against a reference state machine.

Scenario `machine`: instrumented nodes with k=0..3 phases (plain node or classifier node), all sequences of operations.
Scenario `real`: every real node class; a sequence that mixes accepted and refused calls must leave the node with the
status of the reference machine and, once completed, the behaviour of a fresh node given only the accepted calls.
"""
import itertools
import numpy as np
import mdp
from ..core import Violation, check
from .. import catalog as C

LEVEL = 'model_checking'
RULE = 'sequence in which at least one call is refused and at least one training call is accepted'
ASSUMPTIONS = ['a training routine that raises may have changed the node: only calls refused before the routine runs are required to leave no trace',
               'call sequences up to the stated depth, 0..3 phases, one good and several bad argument values per operation']
X = [np.array([[1., 2.], [3., 4.]]), np.array([[5., -6.], [0., 8.], [2., 2.]]), np.array([[1., 0.]])]
BADW = np.array([[1., 2., 3.]])
BADR = np.array([1., 2.])
EMPTY = np.zeros((0, 2))


class Boom(Exception):
    pass


def make_machine(k, invertible, classifier, fixed_dims, preserve=False):
    base = mdp.ClassifierNode if classifier else mdp.Node

    class M(base):
        @staticmethod
        def is_trainable():
            return k > 0

        @staticmethod
        def is_invertible():
            return invertible

        def _get_train_seq(self):
            return [((lambda x, tag=0, fail=False, i=i: self._tr(i, x, tag, fail)),
                     (lambda tag=0, fail=False, i=i: self._st(i, tag, fail))) for i in range(k)]

        def _train(self, x, tag=0, fail=False):
            raise RuntimeError('unused')

        def _check_train_args(self, x, tag=0, fail=False):
            if tag == 'bad':
                raise mdp.TrainingException('bad argument')

        def _tr(self, i, x, tag, fail):
            if fail:
                raise Boom()
            self.log.append(('t', i, x.tolist(), tag))

        def _st(self, i, tag, fail):
            if fail:
                raise Boom()
            self.log.append(('s', i, tag))

        def _execute(self, x):
            self.log.append(('e', x.tolist()))
            return x * 2.

        def _inverse(self, y):
            self.log.append(('i', y.tolist()))
            return y * .5

        if classifier:
            def _label(self, x):
                self.log.append(('l', x.tolist()))
                return [7] * len(x)

            def _prob(self, x):
                self.log.append(('p', x.tolist()))
                return [{7: 1.}] * len(x)
    node = M(input_dim=2, dtype='d') if fixed_dims else M()
    node.log = []
    return node


class Ref(object):
    """Reference machine: phase index, open phase has data, log of routine calls."""
    def __init__(self, k, invertible):
        self.k, self.inv = k, invertible
        self.phase, self.started, self.log = 0, False, []

    @property
    def training(self):
        return self.phase < self.k

    def refuse_train(self):
        if self.k == 0:
            return mdp.IsNotTrainableException
        if not self.training:
            return mdp.TrainingFinishedException

    def close(self, tag=0):
        """stop_training"""
        if not self.training:
            return mdp.TrainingFinishedException
        if not self.started:
            return mdp.TrainingException
        self.log.append(('s', self.phase, tag))
        self.phase += 1
        self.started = False

    def pre_exec(self):
        if self.training:
            err = self.close()
            if err:
                return err
            if self.training:
                return mdp.TrainingException

    def op(self, o):
        """returns (exception type or None, value or None)"""
        kind, arg = o
        if kind == 'train':
            e = self.refuse_train()
            if e:
                return e, None
            if arg in ('badw', 'badr', 'empty'):
                return mdp.NodeException, None
            if arg == 'badarg':
                return mdp.TrainingException, None
            if arg == 'fail':
                self.started = True
                return Boom, None
            self.started = True
            self.log.append(('t', self.phase, X[arg].tolist(), 0 if arg == 0 else 'T%d' % arg))
            return None, None
        if kind == 'stop':
            if arg == 'fail' and self.training and self.started:
                return Boom, None
            return self.close(tag='S' if arg == 'tag' else 0), None
        if kind in ('exec', 'label', 'prob', 'rank'):
            bad = arg in ('badw', 'badr')
            if self.training and self.phase == 0 and not self.started:
                if bad:
                    return mdp.NodeException, None
                while True:
                    self.log.append(('t', self.phase, X[arg].tolist(), 0))
                    self.started = True
                    if self.k - self.phase > 1:
                        self.close()
                    else:
                        break
            e = self.pre_exec()
            if e:
                return e, None
            if bad:
                return mdp.NodeException, None
            x = X[arg]
            self.log.append(({'exec': 'e', 'label': 'l', 'prob': 'p', 'rank': 'p'}[kind], x.tolist()))
            return None, {'exec': (x * 2).tolist(), 'label': [7] * len(x), 'prob': [{7: 1.}] * len(x), 'rank': [[7]] * len(x)}[kind]
        if kind == 'inv':
            if not self.inv:
                return mdp.IsNotInvertibleException, None
            e = self.pre_exec()
            if e:
                return e, None
            if arg in ('badw', 'badr'):
                return mdp.NodeException, None
            self.log.append(('i', X[arg].tolist()))
            return None, (X[arg] * .5).tolist()


def apply(node, o):
    kind, arg = o
    x = {'badw': BADW, 'badr': BADR, 'empty': EMPTY}.get(arg)
    if kind == 'train':
        if arg == 'badarg':
            return node.train(X[0], tag='bad')
        if arg == 'fail':
            return node.train(X[0], fail=True)
        if x is None:
            return node.train(X[arg]) if arg == 0 else node.train(X[arg], tag='T%d' % arg)
        return node.train(x)
    if kind == 'stop':
        if arg == 'fail':
            return node.stop_training(fail=True)
        return node.stop_training(tag='S') if arg == 'tag' else node.stop_training()
    x = X[arg] if x is None else x
    return getattr(node, {'exec': 'execute', 'inv': 'inverse'}.get(kind, kind))(x)


OPS = [('train', 0), ('stop', None), ('exec', 0), ('inv', 1), ('train', 1), ('train', 'badw'), ('train', 'badarg'), ('stop', 'fail'),
       ('exec', 'badw'), ('train', 'badr'), ('stop', 'tag'), ('inv', 'badw'), ('train', 'empty'), ('train', 'fail')]
OPS_C = [('train', 0), ('stop', None), ('label', 0), ('prob', 1), ('rank', 0), ('exec', 2), ('train', 'badw'), ('label', 'badw')]


def status(node, ref):
    return (node.is_training(), node.get_remaining_train_phase(), node.get_current_train_phase() if ref.k else None,
            node.is_trainable())


def machine(ctx, k, inv, classifier, fixed, prefix, depth):
    ops = OPS_C if classifier else OPS
    for tail in itertools.product(range(len(ops)), repeat=depth - len(prefix)):
        seq = [ops[i] for i in list(prefix) + list(tail)]
        if not fixed and (k == 0 and seq[0][0] == 'train' or seq[0] not in (('train', 0), ('exec', 0), ('exec', 2), ('label', 0), ('rank', 0), ('prob', 1))):
            continue
        run_machine(ctx, k, inv, classifier, fixed, seq)


def run_machine(ctx, k, inv, classifier, fixed, seq):
    ctx.at(seq)
    node = make_machine(k, inv, classifier, fixed)
    ref = Ref(k, inv)
    acc = rej = 0
    for n, o in enumerate(seq):
        if o == ('train', 'fail') and not (ref.training and ref.started):
            return                      # a first training call that raises: whether the phase counts as started is not specified
        exp_err, exp_val = ref.op(o)
        xs = [a.copy() for a in X]
        try:
            val, err = apply(node, o), None
        except Exception as e:
            val, err = None, e
        ctx.step()
        where = lambda: 'k=%d after %r: ' % (k, seq[:n + 1])
        if exp_err is None:
            check(err is None, lambda: where() + 'accepted call raised %r' % err, 'refused')
            if exp_val is not None:
                v = val.tolist() if hasattr(val, 'tolist') else list(val)
                check(v == exp_val, lambda: where() + 'returned %r, expected %r' % (v, exp_val), 'value')
            acc += o[0] == 'train'
        else:
            check(err is not None, lambda: where() + 'forbidden call was accepted', 'accepted')
            check(isinstance(err, exp_err), lambda: where() + 'raised %s: %s, documented %s' % (type(err).__name__, err, exp_err.__name__), 'wrong-error')
            rej += 1
        check(node.log == ref.log, lambda: where() + 'routine calls %r, expected %r' % (node.log, ref.log), 'log')
        st = status(node, ref)
        exp = (ref.training, max(0, ref.k - ref.phase), ref.phase if ref.k else None, k > 0)
        check(st == exp, lambda: where() + 'status (training, remaining, current, trainable) = %r, expected %r' % (st, exp), 'status')
        check(node.has_multiple_training_phases() == (k > 1) or k == 0, 'has_multiple_training_phases wrong', 'multi')
        check(all((a == b).all() for a, b in zip(xs, X)), 'input array modified', 'input')
        ctx.state(k, inv, classifier, ref.phase, ref.started, tuple(map(str, ref.log)))
    ctx.execution()
    ctx.outcome(k, str(ref.log))
    if acc and rej:
        ctx.mark(str(seq))


# ---------------------------------------------------------------------------------------------------- real nodes
R_OPS = ['A', 'B', 'w', 'r', 's', 'x', 'i', 'X']


def _chunks(e):
    n = len(e.x)
    h = n // 2
    return [(0, h), (h, n)]


def real(ctx, name, first, depth):
    e = C.E[name]
    ca, cb = _chunks(e)
    widths = e.x.shape[1]
    badw = np.hstack([e.x[:2], e.x[:2, :1]])
    ref_cache = {}

    def final(accepted):
        """behaviour of a fresh node that only sees the accepted calls (list per phase of chunk ids)"""
        key = repr(accepted)
        if key not in ref_cache:
            nd = e.make()
            C._seed()
            for ph in accepted:
                for c in ph:
                    a, b = {'A': ca, 'B': cb, 'P': (0, len(e.x))}[c]
                    mdp.numx_rand.seed(5)
                    nd.train(e.x[a:b].copy(), *e.extra(a, b))
                mdp.numx_rand.seed(9)
                nd.stop_training()
            mdp.numx_rand.seed(11)
            ref_cache[key] = C.execute(nd, e)
        return ref_cache[key]
    for tail in itertools.product(R_OPS, repeat=depth - 1):
        seq = (first,) + tail
        if seq[0] in 'wrX':
            continue        # the first call fixes the dimensions
        ctx.at(seq)
        node = e.make()
        k = len(node._train_seq) if node.is_trainable() else 0
        inv = node.is_invertible()
        ref = Ref(k, inv)
        phases = [[]]
        ok = True
        for n, o in enumerate(seq):
            if o in 'AB':
                exp = ref.refuse_train()
                a, b = ca if o == 'A' else cb
                mdp.numx_rand.seed(5)
                f = lambda: node.train(e.x[a:b].copy(), *e.extra(a, b))
                if exp is None:
                    ref.started = True
                    phases[-1].append(o)
            elif o in 'wr':
                exp = ref.refuse_train() or Exception
                f = lambda: node.train(badw if o == 'w' else e.x[0], *e.extra(0, 2 if o == 'w' else 1))
                if node.input_dim is None:
                    ok = False
                    break
            elif o == 's':
                exp = ref.close()
                f = lambda: node.stop_training()
                if exp is None:
                    phases.append([])
            elif o == 'i' or o in 'xX':
                if o == 'i' and not inv:
                    exp = mdp.IsNotInvertibleException
                    f = lambda: node.inverse(np.ones((1, 1)))
                else:
                    if o != 'i' and ref.training and ref.phase == 0 and not ref.started:
                        if e._extra is not None or e.needs_exec_arg:   # supervised: cannot be trained implicitly
                            ok = False
                            break
                        if o == 'X':
                            ok = False
                            break
                    before = ref.phase
                    auto = o != 'i' and ref.training and ref.phase == 0 and not ref.started
                    if auto:
                        exp = None
                        for _ in range(k):
                            phases[-1].append('P')
                            phases.append([])
                        ref.phase, ref.started = k, False
                    else:
                        exp = ref.pre_exec()
                        if ref.phase > before:
                            phases.append([])
                    if exp is None:
                        if o == 'X':
                            if node.input_dim is None:
                                ok = False
                                break
                            exp = Exception
                            f = lambda: node.execute(np.hstack([e.probe, e.probe]))
                        elif o == 'i':
                            if ref.k and node.output_dim is None and ref.phase == before:
                                ok = False
                                break
                            od = node.output_dim or (node.input_dim if ref.k == 0 else None)
                            if od is None:
                                ok = False
                                break
                            f = lambda: node.inverse(np.ones((2, od)).astype(node.dtype))
                        else:
                            mdp.numx_rand.seed(9)
                            f = (lambda: C.execute(node, e, e.x, seed=False)) if auto else (lambda: C.execute(node, e, seed=False))
                    else:
                        f = (lambda: node.inverse(np.ones((2, 1)))) if o == 'i' else (lambda: C.execute(node, e, seed=False))
            mdp.numx_rand.seed(5 if o in 'AB' else 9)
            try:
                f()
                err = None
            except Exception as ex:
                err = ex
            ctx.step()
            where = lambda: '%s after %s: ' % (name, ' '.join(seq[:n + 1]))
            if exp is None:
                check(err is None, lambda: where() + 'accepted call raised %r' % err, 'refused')
            else:
                check(err is not None and isinstance(err, exp), lambda: where() + 'forbidden call gave %r, expected %s' % (err, exp.__name__), 'not-refused')
            st = (node.is_training(), node.get_remaining_train_phase())
            if e.dynphases and node.is_trainable():     # the number of phases depends on the data dimension
                k = ref.k = len(node._train_seq)
            want = (ref.training, max(0, k - ref.phase))
            check(st == want, lambda: where() + 'status %r expected %r' % (st, want), 'status')
            ctx.state(name, ref.phase, ref.started, str(phases))
        if not ok:
            continue
        # complete the training in the canonical way, then compare with the fresh node
        while ref.training:
            if not ref.started:
                a, b = ca
                mdp.numx_rand.seed(5)
                node.train(e.x[a:b].copy(), *e.extra(a, b))
                phases[-1].append('A')
                a, b = cb
                mdp.numx_rand.seed(5)
                node.train(e.x[a:b].copy(), *e.extra(a, b))
                phases[-1].append('B')
                ref.started = True
            mdp.numx_rand.seed(9)
            node.stop_training()
            ref.close()
            phases.append([])
        mdp.numx_rand.seed(11)
        y = C.execute(node, e)
        if e.random and not e.randtrain:
            pass
        acc = [p for p in phases if p]
        if 'P' in str(acc) and (e.randtrain or e.randstop or e.random):
            continue
        yy = final(acc)
        check(C.close(y, yy, 1e-7), lambda: '%s: final behaviour after %s differs from a node given only the accepted calls %r' % (name, ' '.join(seq), acc), 'model')
        ctx.execution()
        ctx.outcome(name, str(acc))
        if len(acc) and len(''.join(map(str, acc))) and any(o in 'wrXi' for o in seq):
            ctx.mark(seq)


SCENARIOS = {'machine': machine, 'real': real}
# nodes whose phases cannot be ended after half the data, or that follow another life cycle (online nodes: see O01)
SKIP = {'DiscreteHopfieldClassifier', 'TimeDelaySlidingWindowNode', 'LLENode', 'HLLENode', 'FastICANode', 'NoiseNode', 'NormalNoiseNode',
        'RBMWithLabelsNode', 'LibSVMClassifier', 'XSFANode'}   # XSFANode: number of phases depends on the data


def cases(tier):
    deep = tier == 'thorough'
    for k in (0, 1, 2, 3):
        for inv in (True, False):
            for fixed in (True, False):
                depth = (5 if k in (0, 1) else 6) if deep else 4
                if inv is False and not deep:
                    depth = 4
                for a in range(len(OPS)):
                    for b in (range(len(OPS)) if depth > 4 else [None]):
                        yield 'machine', dict(k=k, inv=inv, classifier=False, fixed=fixed, prefix=[a] if b is None else [a, b], depth=depth)
    for k in (0, 1, 2):
        for fixed in (True, False):
            depth = 6 if deep else 5
            for a in range(len(OPS_C)):
                yield 'machine', dict(k=k, inv=True, classifier=True, fixed=fixed, prefix=[a], depth=depth)
    for name, e in C.E.items():
        if name in SKIP or e.online:
            continue
        for f in R_OPS:
            if f in 'wrX':
                continue
            yield 'real', dict(name=name, first=f, depth=4 if deep else 3)
