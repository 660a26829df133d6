"""Controlled scheduler: runs real multi-threaded Python code one thread at a time and enumerates its schedules.

Every operation on a lock, every sleep, every start/join of a thread, every pipe operation and (in instrumented modules)
every statement that touches attributes, items or calls something, and the gap between read and write of an augmented
assignment, is a scheduling point.  Schedules are enumerated depth first; switching away from a thread that could
continue costs one unit.  With free=True (preemption bounding) the choice at blocking points is free; with free=False
(delay bounding) every choice other than the next thread in round-robin order costs one unit.
"""
import _thread, ast, inspect, queue, threading, types
from .core import HarnessError, Violation

_real_alloc = _thread.allocate_lock
_orig = {}
RT = None            # the active runtime
MAX_SLEEPS = 4       # idle wake-ups of a sleeper without any progress before this counts as a livelock


class _Abort(BaseException):
    pass


class Deadlock(Exception):
    pass


class T(object):
    def __init__(self, rt, fn, name):
        self.rt, self.fn, self.name = rt, fn, name
        self.quiet = False           # no scheduling points in instrumented code (a separate process)
        self.go = _real_alloc()
        self.go.acquire()
        self.state = 'ready'
        self.cond = None             # predicate that ends a block
        self.timed = False           # the block may time out
        self.timeout = False
        self.idle = 0
        self.where = None
        self.error = None
        self.exited = False

    def boot(self):
        self.go.acquire()
        try:
            self.state, self.cond = 'ready', None
            if not self.rt.abort:
                self.fn()
        except _Abort:
            pass
        except SystemExit as e:
            self.error = None
        except BaseException as e:
            self.error = e
            self.rt.errors.append((self.name, e))
        finally:
            self.rt.finish(self)


class Runtime(object):
    def __init__(self, prefix, bound, free, max_points=20000):
        self.prefix, self.bound, self.free = prefix, bound, free
        self.threads = []
        self.cur = None
        self.abort = False
        self.reason = None
        self.decisions = []          # (number of options, chosen)
        self.used = 0
        self.points = 0
        self.max_points = max_points
        self.errors = []
        self.done = _real_alloc()
        self.done.acquire()
        self.alive = 0
        self.log = []
        self.snaps = set()

    # -- scheduling ---------------------------------------------------------------------------------------------
    def enabled(self, t):
        if t.state == 'ready':
            return True
        if t.state == 'blocked':
            return bool(t.cond())
        return False

    def point(self, where=None):
        """the running thread offers to be switched"""
        me = self.cur
        if me is None or self.abort:
            if self.abort:
                raise _Abort()
            return
        me.where = where
        self.points += 1
        if self.points > self.max_points:
            self.stop('no progress after %d steps (livelock)' % self.points)
            raise _Abort()
        for t in self.threads:
            t.idle = 0 if t is not me and t.state != 'sleeping' else t.idle
        self.switch(True)

    def block(self, cond, where=None, timed=False):
        """the running thread waits for cond(); returns False if it timed out"""
        me = self.cur
        me.where = where
        self.points += 1
        if not cond():
            me.state, me.cond, me.timed, me.timeout = 'blocked', cond, timed, False
            self.switch(False)
            me.state, me.cond = 'ready', None
            if me.timeout:
                return False
        return True

    def sleep(self, where='sleep'):
        me = self.cur
        if me is None:
            return
        me.where = where
        self.points += 1
        if self.points > self.max_points:
            self.stop('no progress after %d steps (livelock)' % self.points)
            raise _Abort()
        me.state = 'sleeping'
        self.switch(False)
        me.state = 'ready'

    def choose(self, options):
        """options: list; costs are already accounted for. Returns the chosen one."""
        if len(options) == 1:
            return options[0]
        d = len(self.decisions)
        c = self.prefix[d] if d < len(self.prefix) else 0
        if c >= len(options):
            self.stop('HARNESS: schedule prefix does not fit (nondeterministic replay)')
            raise _Abort()
        self.decisions.append((len(options), c))
        return options[c]

    def switch(self, can_stay):
        me = self.cur
        others = [t for t in self.threads if t is not me and self.enabled(t)]
        if can_stay:
            options = [me]
            if self.used < self.bound:
                # a sleeper may wake while a task is running (elsewhere only before the others have run, see below)
                options = options + others + ([t for t in self.threads if t.state == 'sleeping'] if type(me.where) is tuple and me.where[0] == 'task' else [])
        else:
            if me.state == 'sleeping':
                me.idle += 1
            options = others
            if not options:
                # nothing else can run: wake the sleepers, then the timed waits
                sl = [t for t in self.threads if t.state == 'sleeping']
                fresh = [t for t in sl if t.idle <= MAX_SLEEPS]
                options = fresh
                if not options:
                    options = [t for t in self.threads if t.state == 'blocked' and t.timed]
                    for t in options:
                        t.timeout = True
                    options = options[:1]
                if not options:
                    if self.enabled(me) and me.state == 'blocked':
                        options = [me]
                    else:
                        self.stop('deadlock: ' + ', '.join('%s %s at %s' % (t.name, t.state, t.where) for t in self.threads if t.state != 'done'))
                        raise _Abort()
            else:
                k = self.threads.index(me)
                options.sort(key=lambda t: (self.threads.index(t) - k) % len(self.threads))
                if not self.free and self.used >= self.bound:
                    options = options[:1]
                # sleepers may also wake before the others have run; that counts like a preemption of the others
                if self.used < self.bound:
                    options = options + [t for t in self.threads if t.state == 'sleeping' and t is not me and t.idle <= 1]
        nxt = self.choose(options)
        if can_stay and nxt is not me:
            self.used += 1
        elif not can_stay and others and nxt is not options[0] and (not self.free or nxt not in others):
            self.used += 1
        if nxt is me:
            return
        if len(self.snaps) < 5000:
            self.snaps.add(tuple((t.name, t.state, t.where) for t in self.threads))
        self.cur = nxt
        nxt.go.release()
        me.go.acquire()
        if self.abort:
            raise _Abort()

    def finish(self, t):
        """thread t ended: hand over"""
        t.state = 'done'
        t.where = None
        self.alive -= 1
        if self.abort:
            if self.alive == 0:
                self.done.release()
            return
        if self.alive == 0:
            self.done.release()
            return
        for o in self.threads:
            o.idle = 0
        options = [o for o in self.threads if self.enabled(o)]
        if not options:
            options = [o for o in self.threads if o.state == 'sleeping']
        if not options:
            options = [o for o in self.threads if o.state == 'blocked' and o.timed][:1]
            for o in options:
                o.timeout = True
        if not options:
            self.stop('deadlock: ' + ', '.join('%s %s at %s' % (o.name, o.state, o.where) for o in self.threads if o.state != 'done'))
            return
        if not self.free:
            k = self.threads.index(t)
            options.sort(key=lambda o: (self.threads.index(o) - k) % len(self.threads))
            if self.used >= self.bound:
                options = options[:1]
        try:
            nxt = self.choose(options)
        except _Abort:
            return
        if not self.free and nxt is not options[0]:
            self.used += 1
        self.cur = nxt
        nxt.go.release()

    def stop(self, reason):
        if not self.abort:
            self.reason = reason
            self.abort = True
            for t in self.threads:
                if t.state != 'done' and t is not self.cur:
                    try:
                        t.go.release()
                    except RuntimeError:
                        pass

    def spawn(self, fn, name, cond=None):
        t = T(self, fn, name)
        if cond is not None:
            t.state, t.cond, t.where = 'blocked', cond, 'start'
        self.threads.append(t)
        self.alive += 1
        _thread.start_new_thread(t.boot, ())
        return t

    def run(self, fn):
        global RT
        RT = self
        try:
            t = self.spawn(fn, 'main')
            self.cur = t
            t.go.release()
            if not self.done.acquire(True, 30):
                raise HarnessError('controlled run did not end (a thread blocked outside the scheduler): %s' % [(t.name, t.state, t.where) for t in self.threads])
        finally:
            RT = None
            self.cur = None


def current():
    return RT.cur if RT is not None else None


# ------------------------------------------------------------------------------------------------ replacement primitives
class CoopLock(object):
    def __init__(self):
        self.held = False
        self.waiting = 0

    def acquire(self, blocking=True, timeout=-1):
        rt = RT
        if rt is None or rt.cur is None:
            if self.held and not blocking:
                return False
            self.held = True
            return True
        rt.point('acquire')
        if self.held:
            if not blocking or timeout == 0:
                return False
            if not rt.block(lambda: not self.held, 'lock', timed=timeout > 0):
                return False
        self.held = True
        return True

    def release(self):
        if not self.held:
            raise RuntimeError('release unlocked lock')
        self.held = False
        if RT is not None and RT.cur is not None and not RT.abort:
            RT.point('release')

    def locked(self):
        return self.held

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        if self.held:
            self.release()

    def _at_fork_reinit(self):
        self.held = False

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


class CoopRLock(object):
    def __init__(self):
        self.owner, self.n = None, 0

    def acquire(self, blocking=True, timeout=-1):
        rt = RT
        me = current() or 'outside'
        if rt is not None and rt.cur is not None:
            rt.point('acquire')
            if self.owner not in (None, me):
                if not blocking or timeout == 0:
                    return False
                if not rt.block(lambda: self.owner is None, 'rlock', timed=timeout > 0):
                    return False
        self.owner = me
        self.n += 1
        return True

    __enter__ = acquire

    def release(self):
        if self.owner != (current() or 'outside'):
            raise RuntimeError('cannot release un-acquired lock')
        self.n -= 1
        if self.n == 0:
            self.owner = None
            if RT is not None and RT.cur is not None and not RT.abort:
                RT.point('release')

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner == (current() or 'outside')

    def _release_save(self):
        s = (self.n, self.owner)
        self.n, self.owner = 0, None
        return s

    def _acquire_restore(self, s):
        if RT is not None and RT.cur is not None:
            RT.block(lambda: self.owner is None, 'rlock')
        self.n, self.owner = s

    def _recursion_count(self):
        return self.n if self._is_owned() else 0

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.RLock' object")


FAIL_STARTS = []      # set of thread start numbers that fail
_starts = [0]
START_HOOK = [None]


def _start(self):
    rt = RT
    if rt is None or rt.cur is None:
        return _orig['start'](self)
    k = _starts[0]
    _starts[0] += 1
    rt.point('start')
    if k in FAIL_STARTS:
        raise RuntimeError("can't start new thread")

    def body():
        threading._active[_thread.get_ident()] = self
        self._ident = _thread.get_ident()
        try:
            self.run()
        finally:
            threading._active.pop(_thread.get_ident(), None)
    self._coop = rt.spawn(body, 'thread%d' % k)
    self._started._flag = True
    rt.point('started')


def _join(self, timeout=None):
    t = getattr(self, '_coop', None)
    if t is None or RT is None or RT.cur is None:
        if t is not None:
            return
        return _orig['join'](self, timeout)
    RT.point('join')
    RT.block(lambda: t.state == 'done', 'join', timed=timeout is not None)


def _is_alive(self):
    t = getattr(self, '_coop', None)
    if t is None:
        return _orig['is_alive'](self)
    return t.state != 'done'


def _sleep(s=0):
    if RT is None or RT.cur is None:
        return _orig['sleep'](s)
    RT.sleep()


def install(modules=()):
    """replace the primitives in the threading/time/queue modules (and in modules that imported them by name)"""
    if _orig:
        return
    import time as _t
    _orig.update(start=threading.Thread.start, join=threading.Thread.join, is_alive=threading.Thread.is_alive, sleep=_t.sleep,
                 Lock=threading.Lock, RLock=threading.RLock, alloc=threading._allocate_lock, SQ=queue.SimpleQueue, tl=_thread.allocate_lock)
    threading.Thread.start, threading.Thread.join, threading.Thread.is_alive = _start, _join, _is_alive
    threading.Lock, threading.RLock, threading._allocate_lock = CoopLock, CoopRLock, CoopLock
    _t.sleep = _sleep
    queue.SimpleQueue = queue._PySimpleQueue
    for m in modules:
        for k, v in list(vars(m).items()):
            if v is _orig['Lock'] or v is _orig['tl']:
                setattr(m, k, CoopLock)
            elif v is _orig['RLock']:
                setattr(m, k, CoopRLock)
            elif v is _orig['sleep']:
                setattr(m, k, _sleep)


# -------------------------------------------------------------------------------------------------- instrumentation
def _pt(where):
    rt = RT
    if rt is not None and rt.cur is not None and not rt.cur.quiet:
        rt.point(where)


class _Instr(ast.NodeTransformer):
    def __init__(self):
        self.fn = []
        self.n = 0

    def call(self, node):
        name = '.'.join(self.fn) + ':%d' % node.lineno
        c = ast.Call(ast.Name('__verif_point__', ast.Load()), [ast.Constant(name)], [])
        return ast.fix_missing_locations(ast.copy_location(c, node))

    @staticmethod
    def touches(node):
        return any(isinstance(x, (ast.Attribute, ast.Subscript, ast.Call, ast.With)) for x in ast.walk(node))

    def visit_FunctionDef(self, node):
        self.fn.append(node.name)
        node.body = self.block(node.body)
        self.fn.pop()
        return node

    def visit_ClassDef(self, node):
        node.body = [self.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x for x in node.body]
        return node

    def visit_Module(self, node):
        node.body = [self.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x for x in node.body]
        return node

    def block(self, body):
        out = []
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                out.append(self.visit(st))
                continue
            for f in ('body', 'orelse', 'finalbody'):
                if getattr(st, f, None):
                    setattr(st, f, self.block(getattr(st, f)))
            for h in getattr(st, 'handlers', ()):
                h.body = self.block(h.body)
            if isinstance(st, ast.While):
                if self.touches(st.test):
                    st.test = ast.copy_location(ast.BoolOp(ast.Or(), [self.call(st), st.test]), st.test)
            elif isinstance(st, (ast.If, ast.For, ast.With, ast.Try)):
                head = {'If': 'test', 'For': 'iter'}.get(type(st).__name__)
                if isinstance(st, ast.With) or head and self.touches(getattr(st, head)):
                    out.append(ast.copy_location(ast.Expr(self.call(st)), st))
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                pass
            elif self.touches(st):
                out.append(ast.copy_location(ast.Expr(self.call(st)), st))
                if (isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Attribute) and isinstance(st.target.value, ast.Name)):
                    tmp = '_verif_tmp'
                    ld = ast.Attribute(ast.Name(st.target.value.id, ast.Load()), st.target.attr, ast.Load())
                    a = ast.Assign([ast.Name(tmp, ast.Store())], ld)
                    b = ast.AugAssign(ast.Name(tmp, ast.Store()), st.op, st.value)
                    c = ast.Expr(self.call(st))
                    d = ast.Assign([st.target], ast.Name(tmp, ast.Load()))
                    out += [ast.fix_missing_locations(ast.copy_location(x, st)) for x in (a, b, c, d)]
                    continue
            out.append(st)
        return out


def instrument(module):
    """insert scheduling points into the functions of a loaded module (in place, by exchanging their code objects)"""
    if getattr(module, '__verif_point__', None) is not None:
        return
    src = inspect.getsource(module)
    tree = _Instr().visit(ast.parse(src))
    ast.fix_missing_locations(tree)
    new = {}

    def collect(code):
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                new.setdefault((c.co_qualname, c.co_firstlineno), c)
                collect(c)
    collect(compile(tree, module.__file__, 'exec'))
    module.__verif_point__ = _pt
    done = 0

    def swap(f):
        c = new.get((f.__code__.co_qualname, f.__code__.co_firstlineno))
        if c is not None and c.co_freevars == f.__code__.co_freevars and f.__globals__ is vars(module):
            f.__code__ = c
            return 1
        return 0
    for v in list(vars(module).values()):
        if isinstance(v, types.FunctionType):
            done += swap(v)
        elif isinstance(v, type):
            for w in list(vars(v).values()):
                for f in (w, getattr(w, '__func__', None), getattr(w, 'fget', None), getattr(w, 'fset', None), getattr(w, '__wrapped__', None)):
                    if isinstance(f, types.FunctionType):
                        done += swap(f)
    return done


# ------------------------------------------------------------------------------------------------------- enumeration
def one(body, prefix, bound, free=True):
    """run one schedule; returns (runtime, error message or None)"""
    _starts[0] = 0
    rt = Runtime(list(prefix), bound, free)
    box = {}

    def main():
        box['check'] = body(rt)
    rt.run(main)
    return rt, box.get('check')


def explore(ctx, body, verdict, bound, free=True, shard=(0, 1), limit=None, what=''):
    """All schedules with at most `bound` preemptions whose first deviation from the default schedule is at a decision
    d with d % shard[1] == shard[0].  body(rt) is the main thread; verdict(rt, result) raises Violation."""
    k, m = shard

    def run(prefix):
        rt, res = one(body, prefix, bound, free)
        if rt.reason and rt.reason.startswith('HARNESS'):
            raise HarnessError(rt.reason + ' prefix=%r' % (prefix,))
        ctx.execution()
        ctx.step(rt.points)
        for s in rt.snaps:
            ctx.state(what, s)
        ctx.note_max('scheduling points in one schedule', rt.points)
        try:
            if rt.reason:
                raise Violation(rt.reason, 'deadlock' if 'deadlock' in rt.reason else 'livelock')
            main_err = rt.threads[0].error
            if main_err is not None:
                if isinstance(main_err, Violation):
                    raise main_err
                raise Violation('the calling thread got %r' % main_err, 'caller-error-' + type(main_err).__name__)
            verdict(rt, res)
        except Violation as v:
            ch = [c for _, c in rt.decisions]
            while ch and ch[-1] == 0:
                ch.pop()
            dev = [(i, c) for i, c in enumerate(ch) if c]
            raise Violation('%s\n  schedule (decision, choice): %r, %d preemptions' % (v, dev, rt.used), v.sig, {'replay_params': {'schedule': ch}})
        return [n for n, _ in rt.decisions], [c for _, c in rt.decisions]

    n0, c0 = run([])
    count = 1
    if limit == 0:
        return count
    for d in range(len(n0)):
        if d % m != k:
            continue
        # subtree: zeros before d, a deviation at d, anything after
        for first in range(1, n0[d]):
            stack = [[0] * d + [first]]
            while stack:
                prefix = stack.pop()
                n, c = run(prefix)
                count += 1
                if c[:len(prefix)] != prefix:
                    raise HarnessError('schedule prefix diverged: %r %r' % (prefix, c[:len(prefix)]))
                for e in range(len(n) - 1, len(prefix) - 1, -1):
                    for alt in range(1, n[e]):
                        stack.append(c[:e] + [alt])
    ctx.note_max('schedules of one case', count)
    return count
