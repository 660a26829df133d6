"""Instrumented nodes: exact integer arithmetic, behaviour depends on every training chunk, its order and its phase, and
every call is logged.  Module level classes, so that they can be pickled."""
import numpy as np
import mdp


class Injected(Exception):
    pass


class InjNode(Injected, mdp.NodeException):
    pass


class InjTraining(Injected, mdp.TrainingException):
    pass


class InjFlow(Injected, mdp.MDPException):
    pass


class InjAttr(Injected, AttributeError):
    pass


class InjKey(Injected, KeyError):
    def __str__(self):
        return Exception.__str__(self)


class InjIO(Injected, OSError):
    pass


class InjStop(Injected, StopIteration):
    pass


class InjType(Injected, TypeError):
    pass


INJ = {'plain': Injected, 'node': InjNode, 'training': InjTraining, 'mdp': InjFlow, 'attr': InjAttr, 'key': InjKey, 'io': InjIO, 'stop': InjStop, 'type': InjType}
ETYPE = ['plain']


class Rec(mdp.Node):
    """base; kinds are subclasses"""
    PH = 1
    WIDEN = 0

    def __init__(self, tag='n', input_dim=None, output_dim=None, dtype=None):
        super(Rec, self).__init__(input_dim=input_dim, output_dim=output_dim, dtype=dtype)
        self.tag = tag
        self.acc = 0
        self.log = []
        self.elog = []
        self.fault = None         # (op, phase or None, index)
        self.count = {}

    def _trip(self, op, phase=None):
        k = (op, phase)
        n = self.count.get(k, 0)
        self.count[k] = n + 1
        if self.fault is not None and tuple(self.fault) == (op, phase, n):
            raise INJ[ETYPE[0]]('injected %s %s %s' % (op, phase, n))

    def _get_train_seq(self):
        return [((lambda x, *a, **k: self._tr(0, x, *a, **k)), (lambda: self._st(0))),
                ((lambda x, *a, **k: self._tr(1, x, *a, **k)), (lambda: self._st(1))),
                ((lambda x, *a, **k: self._tr(2, x, *a, **k)), (lambda: self._st(2)))][:self.PH]

    def _train(self, x):
        raise RuntimeError('not reached')

    def _tr(self, i, x, *args, **kw):
        self._trip('train', i)
        self.log.append(('t', i, x.tolist(), [np.asarray(a).tolist() for a in args], sorted(kw.items())))
        w = np.arange(1, x.size + 1).reshape(x.shape)
        v = int((x * w).sum()) + len(x)
        for a in args:
            v += 31 * int(np.sum(a))
        self.acc = (self.acc * 3 + (i + 1) * v) % 10007

    def _st(self, i):
        self._trip('stop', i)
        self.log.append(('s', i))
        self.acc = (self.acc * 5 + 1 + i) % 10007

    @property
    def bias(self):
        return float(self.acc % 13)

    def _execute(self, x):
        self._trip('execute')
        self.elog.append(x.shape)
        y = x * 2 + self.bias
        if self.WIDEN:
            y = np.hstack([y, y[:, :1]])
        return y

    def _inverse(self, y):
        self._trip('inverse')
        if self.WIDEN:
            y = y[:, :-1]
        return (y - self.bias) / 2.

    def _check_input(self, x):
        super(Rec, self)._check_input(x)
        if self.output_dim is None:
            self.output_dim = self.input_dim + self.WIDEN


class RecU(Rec):
    @staticmethod
    def is_trainable():
        return False


class RecW(RecU):
    WIDEN = 1


class RecN(RecU):
    @staticmethod
    def is_invertible():
        return False


class Rec1(Rec):
    pass


class Rec2(Rec):
    PH = 2


class Rec3(Rec):
    PH = 3


class RecS(Rec):
    def _train(self, x, lab):
        raise RuntimeError('not reached')


class RecS2(Rec):
    PH = 2

    def _train(self, x, lab, w):
        raise RuntimeError('not reached')


class RecO(Rec):
    def _train(self, x, lab=None):
        raise RuntimeError('not reached')

    def _tr(self, i, x, lab=None):
        if lab is None:
            super(RecO, self)._tr(i, x)
        else:
            super(RecO, self)._tr(i, x, lab)


KINDS = {'U': RecU, 'W': RecW, 'N': RecN, '1': Rec1, '2': Rec2, '3': Rec3, 'S': RecS, 'D': RecS2, 'O': RecO}
PRE = np.array([[3., 1.], [2., 5.]])


def make(k, tag=''):
    """kinds of KINDS; 'P'/'Q' = already trained Rec1/Rec2, 'H' = Rec2 after its first phase, 'J' = Rec2 in its open first phase"""
    if k in 'PQHJ':
        return (Rec1 if k == 'P' else Rec2)(tag + k)
    return KINDS[k](tag + k)


def build(kinds, width=2):
    """nodes for a chain; pre-trained ones are trained on fixed data of the right width"""
    nodes = []
    w = width
    for i, k in enumerate(kinds):
        n = make(k, '%d' % i)
        if k in 'PQHJ':
            x = np.arange(1., 1 + 2 * w).reshape(2, w)
            for _ in range(1 if k in 'HJ' else n.PH):
                n.train(x + i)
                if k != 'J':
                    n.stop_training()
            n.log = []
            n.count = {}
        w += n.WIDEN
        nodes.append(n)
    return nodes
