"""Instrumented nodes for the parallel extension: training is commutative and exact, every phase needs fork state of the
phases before it, and the phase at which forking is refused can be chosen."""
import numpy as np
import mdp
import mdp.parallel
from .inst import Injected

FORKLOG = []


class Com(mdp.Node):
    """PH training phases; learns a commutative (sum, count, multiset hash) summary per phase"""
    PH = 1

    def __init__(self, tag='n', nofork=(), input_dim=None, output_dim=None, dtype=None):
        super(Com, self).__init__(input_dim=input_dim, output_dim=output_dim, dtype=dtype)
        self.tag = tag
        self.nofork = tuple(nofork)     # phases that refuse to fork
        self.part = [0, 0, 0]           # running phase
        self.done = []
        self.fault = None
        self.nstop = 0

    def _get_train_seq(self):
        return [((lambda x, *a, i=i, **k: self._tr(i, x, *a, **k)), (lambda i=i: self._st(i))) for i in range(self.PH)]

    def _train(self, x):
        raise RuntimeError('not reached')

    def _tr(self, i, x, *args, **kw):
        if self.fault is not None and self.fault[0] == 'train' and self.fault[1] == i and float(x[0, 0]) in self.fault[2]:
            raise Injected('injected train %s' % self.tag)
        base = sum(self.done[j][0] for j in range(len(self.done))) % 11
        w = np.arange(1, x.shape[1] + 1)
        v = int(np.round((x * w).sum() * 64))
        for a in args:
            v += 31 * int(np.sum(a))
        self.part = [self.part[0] + v + base, self.part[1] + len(x), self.part[2] + (v % 1009) ** 2 + 1]

    def _st(self, i):
        if self.fault is not None and self.fault[0] == 'stop' and self.fault[1] == i:
            raise Injected('injected stop %s' % self.tag)
        self.done = self.done + [tuple(self.part) + (i,)]
        self.part = [0, 0, 0]
        self.nstop += 1

    @property
    def bias(self):
        return float(sum((k + 1) * (a[0] + 3 * a[1] + 7 * a[2]) for k, a in enumerate(self.done)) % 13)

    def _execute(self, x):
        if self.fault is not None and self.fault[0] == 'execute' and float(x[0, 0]) in self.fault[1]:
            raise Injected('injected execute %s' % self.tag)
        return x * .5 + self.bias

    def _inverse(self, y):
        return (y - self.bias) * 2.


class Com1(Com):
    pass


class Com2(Com):
    PH = 2


class Com3(Com):
    PH = 3


class ComS(Com):
    def _train(self, x, lab):
        raise RuntimeError('not reached')


class ParallelCom(mdp.parallel.ParallelExtensionNode, Com):
    def _fork(self):
        FORKLOG.append(self.tag)
        if self.get_current_train_phase() in self.nofork:
            raise mdp.parallel.NotForkableParallelException('phase is not parallel')
        f = self.copy()
        f.part = [0, 0, 0]
        return f

    def _join(self, f):
        self.part = [a + b for a, b in zip(self.part, f.part)]


class Loc(Com):
    """no support for forking"""
    pass


class Loc2(Loc):
    PH = 2


class ParallelLoc(mdp.parallel.ParallelExtensionNode, Loc):
    def _fork(self):
        return mdp.parallel.ParallelExtensionNode._fork(self)

    def _join(self, f):
        return mdp.parallel.ParallelExtensionNode._join(self, f)


class Cnt(mdp.Node):
    """not trainable; counts the rows it executes and requires fork and join for execution"""
    def __init__(self, tag='n', input_dim=None, output_dim=None, dtype=None):
        super(Cnt, self).__init__(input_dim=input_dim, output_dim=output_dim, dtype=dtype)
        self.tag = tag
        self.rows = 0

    @staticmethod
    def is_trainable():
        return False

    def _execute(self, x):
        self.rows += len(x)
        return x + 1.


class ParallelCnt(mdp.parallel.ParallelExtensionNode, Cnt):
    def _fork(self):
        f = self.copy()
        f.rows = 0
        return f

    def _join(self, f):
        self.rows += f.rows

    @staticmethod
    def use_execute_fork():
        return True


class CntT(Com1):
    """trainable, and counts the rows it executes, so that it requires fork and join for execution"""
    def __init__(self, *args, **kw):
        super(CntT, self).__init__(*args, **kw)
        self.rows = 0

    def _execute(self, x):
        y = super(CntT, self)._execute(x)
        self.rows += len(x)
        return y


class ParallelCntT(mdp.parallel.ParallelExtensionNode, CntT):
    def _fork(self):
        f = self.copy()
        f.part = [0, 0, 0]
        f.rows = 0
        return f

    def _join(self, f):
        self.part = [a + b for a, b in zip(self.part, f.part)]
        self.rows += f.rows

    @staticmethod
    def use_execute_fork():
        return True


class Unt(mdp.Node):
    @staticmethod
    def is_trainable():
        return False

    def _execute(self, x):
        return x * 2. - 1.

    def _inverse(self, y):
        return (y + 1.) / 2.


KINDS = {'U': Unt, '1': Com1, '2': Com2, '3': Com3, 'S': ComS, 'L': Loc, 'M': Loc2, 'C': Cnt,
         'A': Com2, 'B': Com2, 'K': CntT}
NOFORK = {'A': (0,), 'B': (1,)}       # A: phase 0 local, B: phase 1 local


def make(k, tag='', dim=None):
    """P: already trained Com1, Q: already trained CntT, H: Com2 with its first phase closed, J: Com2 with an open, used first phase"""
    if k in 'PHJQ':
        n = (Com1 if k == 'P' else CntT if k == 'Q' else Com2)(tag + k, input_dim=dim)
        d = dim or 2
        n.train(np.arange(2. * d).reshape(2, d))
        if k != 'J':
            n.stop_training()
        return n
    if k == 'U':
        return Unt(input_dim=dim)
    if k == 'C':
        return Cnt(tag + k, input_dim=dim)
    return KINDS[k](tag + k, nofork=NOFORK.get(k, ()), input_dim=dim)


def learned(n):
    """what a node has learned, as plain data"""
    if isinstance(n, CntT):
        return (n.tag, n.get_current_train_phase(), n.is_training(), tuple(n.done), tuple(n.part), n.nstop, n.rows)
    if isinstance(n, Com):
        return (n.tag, n.get_current_train_phase(), n.is_training(), tuple(n.done), tuple(n.part), n.nstop)
    if isinstance(n, Cnt):
        return (n.tag, n.rows)
    return (type(n).__name__,)


# ---------------------------------------------------------------- bimdp versions
import bimdp
import bimdp.parallel


class BiCom1(bimdp.BiNode, Com1):
    def __init__(self, tag='n', nofork=(), node_id=None, stop_result=None, input_dim=None, output_dim=None, dtype=None):
        super(BiCom1, self).__init__(node_id=node_id, stop_result=stop_result, tag=tag, nofork=nofork, input_dim=input_dim, output_dim=output_dim, dtype=dtype)


class BiCom2(bimdp.BiNode, Com2):
    def __init__(self, tag='n', nofork=(), node_id=None, stop_result=None, input_dim=None, output_dim=None, dtype=None):
        super(BiCom2, self).__init__(node_id=node_id, stop_result=stop_result, tag=tag, nofork=nofork, input_dim=input_dim, output_dim=output_dim, dtype=dtype)
