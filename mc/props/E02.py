"""E02: cached execution, all histories of executions, training, edits, directory switches and selections against the same
history without caching; the number of computations against a set of seen (directory, class, state, input) keys."""
import itertools, os, pickle, shutil, subprocess, sys, tempfile
import numpy as np
import mdp
import mdp.caching
from ..core import check, Violation, HarnessError
from .. import catalog as C

LEVEL = 'model_checking'
RULE = 'history in which at least one execution is answered from the cache'
ASSUMPTIONS = ['execution of the node has no side effects and the node can be pickled (documented limits of the extension)',
               'cache contexts are not nested', 'bidirectional nodes override execute and need not be cached']
HANG_S = 120
STATE = {}


class Counting(mdp.Node):
    scale = 1
    phases = 0
    _execute_count = 0

    def __init__(self, tag):
        self.log = []
        self.tag = tag
        super(Counting, self).__init__()

    def is_trainable(self):
        return bool(self.phases)

    def _get_supported_dtypes(self):
        return ['d']

    def _get_train_seq(self):
        return [(self._tr, self._st)] * self.phases

    def _tr(self, x):
        self.log.append(float(x.sum()))

    def _st(self):
        self.log.append('stop')

    def result(self, x, off):
        d = {k: repr(v) for k, v in vars(self).items() if 'rng' not in k}
        STATE['computed'].append((type(self).__name__, tuple(sorted(d.items())), x.tobytes(), repr(off)))
        return x * self.scale + sum(v for v in self.log if v != 'stop') + off


class U(Counting):
    def _execute(self, x, off=0):
        return self.result(x, off)


class W(U):
    """wrapped twice: overrides a method which has been overridden by its base class"""
    def _execute(self, x, off=0):
        return -self.result(x, off)


class X(W):
    pass


class T(Counting):
    phases = 2

    def _execute(self, x, off=0):
        return self.result(x, off)


class T2(T):
    phases = 1

    def _execute(self, x, off=1):
        return self.result(x, off) + 1


class O(mdp.OnlineNode):
    scale = 1

    def __init__(self, tag):
        self.log = []
        self.tag = tag
        super(O, self).__init__()

    def _get_supported_dtypes(self):
        return ['d']

    def _train(self, x):
        self.log.append(float(x.sum()))

    def _execute(self, x, off=0):
        return Counting.result(self, x, off)


CLS = dict(U=U, W=W, X=X, T=T, S=T2, O=O)
XS = [np.array([[1., 2.], [3., 4.]]), np.array([[1., 2.], [3., 5.]]), np.array([[1., 2., 3.]])]
CACHE_OPS = ('dir', 'on', 'off', 'xoff', 'xon', 'sel')


def alphabet(nodes, full):
    n = len(nodes)
    ops = []
    for i in range(n):
        ops += [('x', i, 0), ('x', i, 1)]
        if full:
            ops += [('x', i, 2), ('xa', i, 0)]
        if nodes[i] in 'TSO':
            ops += [('t', i)]
            if full:
                ops += [('s', i)]
        ops += [('e', i)]
        if full or i == 0:
            ops += [('c', i)]
        ops += [('sel', i, True), ('sel', i, False), ('on', 'i%d' % i, 0)]
    ops += [('on', 'all', 0), ('on', 'c0', 0), ('off',)]
    if full:
        ops += [('on', 'all', 1), ('on', 'all', None), ('on', 'none', 0), ('on', 'c0i', 1), ('dir', 0), ('dir', 1), ('dir', None), ('xoff',), ('xon',), ('ctx', 0)]
    else:
        ops += [('dir', 1), ('xoff',), ('xon',)]
    return ops


class Run(object):
    """one history; with the caching operations (cached) or without them"""
    def __init__(self, nodes, cached, root):
        self.nodes = [CLS[k](str(i)) for i, k in enumerate(nodes)]
        self.first = [CLS[k] for k in nodes]
        self.cached = cached
        self.root = root

    def execute(self, i, j, args=()):
        node = self.nodes[i]
        STATE['computed'] = []
        x = XS[j].copy()
        try:
            y = node.execute(x, *args)
            r = (y.tobytes(), y.shape, str(y.dtype))
            y[:] = 99          # the caller may do what he likes with the result
        except mdp.MDPException as e:
            r = ('raises', type(e).__name__, str(e))
        if not np.array_equal(x, XS[j]):
            r = ('input modified',)
        return (r, (node.is_training(), node.get_remaining_train_phase(), node.input_dim, node.output_dim, str(node.dtype), list(node.log))), STATE['computed']

    def other(self, op):
        """operation which is not a caching operation"""
        k = op[0]
        node = self.nodes[op[1]]
        try:
            if k == 't':
                node.train(XS[0].copy())
            elif k == 's':
                node.stop_training()
            elif k == 'e':
                node.scale = 3 - node.scale if node.scale in (1, 2) else 1
            elif k == 'c':
                self.nodes[op[1]] = node.copy()
        except mdp.MDPException as e:
            return type(e).__name__, str(e)


def history(nodes, seq, root, ctx, where, replay_dirs):
    plain = Run(nodes, False, root)
    base = []
    for op in seq:
        if op[0] in ('x', 'xa'):
            base.append(plain.execute(op[1], op[2], (2,) if op[0] == 'xa' else ()))
        elif op[0] == 'ctx':
            base.append([plain.execute(0, 0), plain.execute(0, 0)])
        elif op[0] in CACHE_OPS:
            base.append(None)
        else:
            base.append(plain.other(op))
    run = Run(nodes, True, root)
    d = [os.path.join(root, '%s%d' % (replay_dirs, k)) for k in (0, 1)]
    active, glob, classes, insts = False, True, set(), set()
    store, cur, fresh = {}, None, itertools.count()
    hits = 0
    mc = mdp.caching

    def one(i, j, args, want, on, glob, classes, insts, cur, w):
        got, comp = run.execute(i, j, args)
        want, key = want
        check(got[0] == want[0], lambda: w() + 'execute gives %s, without caching %s' % (short(got[0]), short(want[0])), 'result')
        check(got[1] == want[1], lambda: w() + '(is_training, remaining phases, input_dim, output_dim, dtype, training log) after execute is %r, without caching %r' % (got[1], want[1]), 'node-state')
        sel = on and (glob or type(run.nodes[i]) in classes or id(run.nodes[i]) in insts)
        if on:
            check(run.nodes[i].is_cached() == bool(sel), lambda: w() + 'is_cached() is %r' % (not sel), 'is-cached')
        n = len(key)
        if sel and n:
            s = store.setdefault(cur, set())
            if key[0] in s:
                n = 0
            s.add(key[0])
        check(len(comp) == n, lambda: w() + 'the computation was done %d times, expected %d (%s)' % (len(comp), n, 'selected for caching' if sel else 'not cached'), 'computations')
        ctx.outcome(sel, n, got[0][0] == 'raises')
        return sel and n == 0 and key
    try:
        for k, op in enumerate(seq):
            w = lambda: 'step %d of %r on nodes %s: ' % (k, seq, nodes)
            if op[0] in ('x', 'xa'):
                hits += bool(one(op[1], op[2], (2,) if op[0] == 'xa' else (), base[k], active, glob, classes, insts, cur, w))
            elif op[0] == 'ctx':
                before = mdp.get_active_extensions()
                if active:
                    for b in base[k]:
                        hits += bool(one(0, 0, (), b, active, glob, classes, insts, cur, w))
                else:
                    with mc.cache(cachedir=d[op[1]]):
                        cur = d[op[1]]
                        for b in base[k]:
                            hits += bool(one(0, 0, (), b, True, True, set(), set(), cur, w))
                    glob, classes, insts = True, set(), set()
                    check(mdp.get_active_extensions() == before, lambda: w() + 'extension active after the context', 'context')
            elif op[0] == 'dir':
                mc.set_cachedir(d[op[1]] if op[1] is not None else None)
                cur = d[op[1]] if op[1] is not None else next(fresh)
            elif op[0] == 'on':
                sel = op[1]
                kw = {}
                if sel == 'c0':
                    kw = dict(cache_classes=[run.first[0]])
                elif sel == 'none':
                    kw = dict(cache_classes=[])
                elif sel == 'c0i':
                    kw = dict(cache_classes=[run.first[0]], cache_instances=[run.nodes[-1]])
                elif sel[0] == 'i':
                    kw = dict(cache_instances=[run.nodes[int(sel[1])]])
                mc.activate_caching(d[op[2]] if op[2] is not None else None, **kw)
                cur = d[op[2]] if op[2] is not None else next(fresh)
                active, glob = True, not kw
                classes = set(kw.get('cache_classes', ()))
                insts = {id(n) for n in kw.get('cache_instances', ())}
            elif op[0] == 'off':
                mc.deactivate_caching()
                active, glob, classes, insts = False, True, set(), set()
            elif op[0] == 'xoff':
                mdp.deactivate_extension('cache_execute')
                active = False
            elif op[0] == 'xon':
                mdp.activate_extension('cache_execute')
                active = True
                if cur is None:
                    mc.set_cachedir(None)
                    cur = next(fresh)
            elif op[0] == 'sel':
                if active:
                    run.nodes[op[1]].set_instance_cache(op[2])
                    (insts.add if op[2] else insts.discard)(id(run.nodes[op[1]]))
            else:
                if op[0] == 'c':
                    run.keep = getattr(run, 'keep', []) + [run.nodes[op[1]]]
                got = run.other(op)
                check(got == base[k], lambda: w() + 'gives %r, without caching %r' % (got, base[k]), 'other')
            check(mdp.get_active_extensions() == (['cache_execute'] if active else []), lambda: w() + 'active extensions %r' % mdp.get_active_extensions(), 'active')
            ctx.step()
            ctx.state(active, glob, len(classes), len(insts), tuple(len(n.log) for n in run.nodes), tuple(n.is_training() for n in run.nodes))
    finally:
        mc.deactivate_caching()
    y = U('last')
    STATE['computed'] = []
    y.execute(XS[0])
    y.execute(XS[0])
    check(len(STATE['computed']) == 2, lambda: '%r: caching not switched off' % (seq,), 'off')
    return hits


def short(r):
    return r if r[0] == 'raises' or len(r) == 1 else np.frombuffer(r[0], r[2]).reshape(r[1]).tolist()


def scratch():
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    return tempfile.mkdtemp(prefix='verif-e02-', dir=base)


def histories(ctx, nodes, first, depth, full):
    ops = alphabet(nodes, full)
    root = scratch()
    old = tempfile.tempdir
    tempfile.tempdir = root
    try:
        execs = [i for i, o in enumerate(ops) if o[0] in ('x', 'xa', 'ctx')]
        for mid in itertools.product(range(len(ops)), repeat=depth - 2):
            for last in execs:
                seq = [ops[i] for i in (first,) + mid + (last,)]
                if not any(o[0] in ('on', 'xon', 'ctx') for o in seq):
                    continue
                ctx.at(seq)
                hits = history(nodes, seq, root, ctx, None, 'h%d-' % ctx.executions if hasattr(ctx, 'executions') else 'h%d-' % next(COUNT))
                ctx.execution()
                if hits:
                    ctx.mark(tuple(seq))
    finally:
        tempfile.tempdir = old
        shutil.rmtree(root, ignore_errors=True)


COUNT = itertools.count()


# ---------------------------------------------------------------- real nodes
def library(ctx, name, full=False):
    """every node class: histories of executions before and after activation compared with an identical uncached node"""
    e = C.E[name]
    root = scratch()
    old = tempfile.tempdir
    tempfile.tempdir = root
    cls = type(e.make())
    orig = cls._execute
    calls = []

    def counting(self, x, *a, **k):
        if self is STATE['top']:
            calls.append(1)
        return orig(self, x, *a, **k)
    counting.__doc__ = orig.__doc__
    try:
        for sel in ('all', 'class', 'inst'):
            for pretrained in (True, False):
                if not pretrained and (e.online or e.extra(0, 1)):
                    continue
                for seq in itertools.product('01ofp', repeat=4):
                    if seq[-1] not in '01' or 'o' not in seq or (not full and (seq.index('o') > 1 or seq.count('o') > 1)):
                        continue
                    outs = []
                    for cached in (False, True):
                        node = e.make()
                        C._seed()
                        if pretrained:
                            C.train(node, e)
                        STATE['top'] = node
                        xs = [e.probe, e.probe[::-1].copy()]
                        out = []
                        cls._execute = counting
                        try:
                            for k, op in enumerate(seq):
                                if op in '01':
                                    C._seed()
                                    del calls[:]
                                    # nodes may finish their initialisation in the first execution
                                    state = pickle.dumps(node)
                                    try:
                                        y = node.execute(xs[int(op)].copy())
                                    except Exception as ex:
                                        y = (type(ex).__name__, str(ex))
                                    out.append((op, y, len(calls), node.is_training(), state))
                                elif op == 'p':
                                    node = node.copy()
                                    STATE['top'] = node
                                    out.append(('p',))
                                elif cached and op == 'o':
                                    mdp.caching.activate_caching(os.path.join(root, 'd%d' % next(COUNT)), **(dict(cache_classes=[cls]) if sel == 'class' else dict(cache_instances=[node]) if sel == 'inst' else {}))
                                    out.append(('o',))
                                elif cached:
                                    mdp.caching.deactivate_caching()
                                    out.append(('f',))
                                else:
                                    out.append((op,))
                        finally:
                            cls._execute = orig
                            mdp.caching.deactivate_caching()
                        outs.append(out)
                    ctx.execution()
                    on = False
                    done = set()
                    w = lambda: '%s, %s, selection %s, %s: ' % (name, 'trained' if pretrained else 'untrained', sel, ''.join(seq))
                    for a, b in zip(*outs):
                        op = a[0]
                        if op == 'o':
                            on, done = True, set()
                        elif op == 'f':
                            on = False
                        elif op == 'p':
                            if sel == 'inst':
                                on = False
                            done = set()
                        else:
                            same = repr(a[1]) == repr(b[1]) if isinstance(a[1], tuple) or isinstance(b[1], tuple) else same_array(a[1], b[1])
                            check(same, lambda: w() + 'execute gives %r, without caching %r' % (b[1], a[1]), 'lib-result')
                            check(a[3] == b[3], lambda: w() + 'is_training %r, without caching %r' % (b[3], a[3]), 'lib-training')
                            if not isinstance(a[1], tuple):
                                if on and (op, a[4]) in done:
                                    check(b[2] == 0, lambda: w() + 'computation repeated although neither state nor input have changed', 'lib-repeated')
                                    ctx.mark(name, sel, pretrained, seq)
                                elif not on:
                                    check(b[2] == a[2], lambda: w() + 'computation not done although the node is not selected', 'lib-not-done')
                                if on:
                                    done.add((op, a[4]))
                            ctx.outcome(name, on, b[2])
                        ctx.step()
                    ctx.state(name, sel, seq)
    finally:
        cls._execute = orig
        tempfile.tempdir = old
        shutil.rmtree(root, ignore_errors=True)


def same_array(a, b):
    try:
        return a.shape == b.shape and a.dtype == b.dtype and np.allclose(a, b, rtol=1e-12, atol=1e-14, equal_nan=True)
    except (TypeError, AttributeError):
        return repr(a) == repr(b)


CODE = '''
import sys
sys.path.insert(0, %r)
import tempfile
tempfile.tempdir = %r
import mdp, numpy as np
class N(mdp.Node):
    n = 0
    def is_trainable(self): return False
    def _execute(self, x):
        N.n += 1
        return x * 2
N.__module__ = 'fresh'
import types
m = types.ModuleType('fresh'); m.N = N; sys.modules['fresh'] = m
x = np.ones((2, 2))
node = N()
how = %r
if how == 'activate':
    mdp.activate_extension('cache_execute')
elif how == 'many':
    mdp.activate_extensions(['cache_execute'])
elif how == 'context':
    c = mdp.extension('cache_execute'); c.__enter__()
elif how == 'caching':
    mdp.caching.activate_caching()
f = lambda: node.execute(x)
if how == 'decorator':
    f = mdp.with_extension('cache_execute')(lambda: node.execute(x))
assert (f() == x * 2).all() and (f() == x * 2).all()
assert N.n == 1, N.n
if how not in ('decorator', 'context'):
    mdp.deactivate_extension('cache_execute')
elif how == 'context':
    c.__exit__(None, None, None)
assert (node.execute(x) == x * 2).all() and N.n == 2
print('done')
'''


def fresh(ctx, how):
    """first activation in a new interpreter"""
    root = scratch()
    try:
        repo = os.path.dirname(os.path.dirname(os.path.abspath(mdp.__file__)))
        r = subprocess.run([sys.executable, '-c', CODE % (repo, root, how)], capture_output=True, text=True, cwd='/', timeout=100)
        check(r.stdout.strip() == 'done', lambda: 'new interpreter, activation by %s: %s' % (how, r.stderr.strip()[-400:]), 'fresh')
        ctx.execution()
        ctx.mark(how)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def cases(tier):
    t = tier == 'thorough'
    for how in ('activate', 'many', 'context', 'caching', 'decorator'):
        yield 'fresh', dict(how=how)
    for name in sorted(C.E):
        if not C.E[name].random and not C.E[name].nopickle and not C.E[name].window:
            yield 'library', dict(name=name, full=t)
    for nodes in ('U', 'W', 'X', 'T', 'S', 'O'):
        for first in range(len(alphabet(nodes, True))):
            yield 'histories', dict(nodes=nodes, first=first, depth=4 if t else 3, full=True)
        for first in range(len(alphabet(nodes, False))):
            yield 'histories', dict(nodes=nodes, first=first, depth=5 if t else 4, full=False)
    for nodes in ('UU', 'UW', 'WX', 'TT', 'TS', 'OU', 'OO'):
        for first in range(len(alphabet(nodes, False))):
            yield 'histories', dict(nodes=nodes, first=first, depth=4 if t else 3, full=False)


SCENARIOS = dict(histories=histories, library=library, fresh=fresh)
