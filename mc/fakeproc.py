"""In-memory worker processes for the process scheduler: the real worker loop of mdp/parallel/process_schedule.py runs in a
controlled thread behind cooperative pipes."""
import io, subprocess, sys
from . import sched


class Pipe(object):
    def __init__(self):
        self.buf = bytearray()
        self.wclosed = False
        self.rclosed = False


class Writer(object):
    """file object, buffered until flush"""
    def __init__(self, pipe, name):
        self.pipe, self.name, self.closed, self.pend = pipe, name, False, bytearray()

    def write(self, data):
        if self.closed:
            raise ValueError('write to closed file')
        data = bytes(data)
        self.pend += data
        return len(data)

    def flush(self):
        if self.closed:
            raise ValueError('flush of closed file')
        point('flush')
        if self.pipe.rclosed:
            del self.pend[:]
            raise BrokenPipeError(32, 'Broken pipe')
        self.pipe.buf += self.pend
        del self.pend[:]

    def close(self):
        if not self.closed:
            try:
                if self.pend:
                    self.flush()
            finally:
                self.closed = True
                self.pipe.wclosed = True

    def writable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def point(w):
    if sched.RT is not None and sched.RT.cur is not None:
        sched.RT.point(w)


class Reader(object):
    def __init__(self, pipe):
        self.pipe = pipe
        self.closed = False

    def _wait(self, cond):
        if sched.RT is not None and sched.RT.cur is not None:
            sched.RT.block(lambda: cond() or self.pipe.wclosed, 'pipe')

    def read(self, n=-1):
        if self.closed:
            raise ValueError('read of closed file')
        b = self.pipe.buf
        if n is None or n < 0:
            self._wait(lambda: False)
            n = len(b)
        elif len(b) < n:
            self._wait(lambda: len(b) >= n)
        out = bytes(b[:n])
        del b[:n]
        return out

    def readinto(self, buf):
        d = self.read(len(buf))
        buf[:len(d)] = d
        return len(d)

    def readline(self, limit=-1):
        b = self.pipe.buf
        if b'\n' not in b:
            self._wait(lambda: b'\n' in b)
        i = b.find(b'\n')
        n = len(b) if i < 0 else i + 1
        out = bytes(b[:n])
        del b[:n]
        return out

    def close(self):
        self.closed = True
        self.pipe.rclosed = True

    def readable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Std(object):
    """text layer of a worker's stdin/stdout with .buffer"""
    def __init__(self, raw):
        self.buffer = raw

    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def __getattr__(self, k):
        return getattr(self.buffer, k)


class Sink(object):
    def write(self, s):
        return len(s)

    def flush(self):
        pass


class SysProxy(object):
    """module `sys` whose std streams belong to the controlled thread that asks"""
    def __init__(self):
        object.__setattr__(self, '_std', {})

    def _mine(self):
        c = sched.current()
        return self._std.get(c) if c is not None else None

    def exc_info(self):
        return sys.exc_info()

    def __getattr__(self, k):
        m = self._mine()
        if m is not None and k in m:
            return m[k]
        if k in ('stderr', 'stdout', '__stdout__', '__stderr__'):
            return SINK
        return getattr(sys, k)

    def __setattr__(self, k, v):
        m = self._mine()
        if m is not None and k in ('stdin', 'stdout', 'stderr'):
            m[k] = v
        else:
            setattr(sys, k, v)


SINK = Sink()
PROXY = SysProxy()
PROCS = []
MODULE = [None]      # the process_schedule module


class WorkerKilled(BaseException):
    pass


class FakePopen(object):
    def __init__(self, args=None, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, **kw):
        self.args = list(args)
        a, b = Pipe(), Pipe()
        self.stdin, self.stdout, self.stderr = Writer(a, 'stdin'), Reader(b), None
        self.returncode = None
        self.pid = 1000 + len(PROCS)
        self.busy = 0
        self.tasks = []
        PROCS.append(self)
        win, wout = Reader(a), Writer(b, 'stdout')
        rest = [x for x in self.args if not str(x).startswith('-')]
        # python [-u] module.py cache_flag paths...
        i = [k for k, x in enumerate(rest) if str(x).endswith('.py')][0]
        cache = rest[i + 1] == 'True'
        rt = sched.RT
        box = {}

        def worker():
            PROXY._std[box['t']] = dict(stdin=Std(win), stdout=Std(wout), stderr=SINK)
            try:
                MODULE[0]._process_run(cache_callable=cache)
                self.code = 0
            except SystemExit:
                self.code = 0
            finally:
                self.returncode_ = 0
                a.rclosed = True
                b.wclosed = True
                self.ended = True
        self.ended = False
        box['t'] = self.t = rt.spawn(worker, 'worker%d' % len(PROCS), cond=lambda: a.buf or a.wclosed)
        self.t.quiet = True

    def poll(self):
        if self.ended:
            self.returncode = 0
        return self.returncode

    def wait(self, timeout=None):
        sched.RT.point('wait')
        sched.RT.block(lambda: self.ended, 'wait', timed=timeout is not None)
        if not self.ended:
            raise subprocess.TimeoutExpired(self.args, timeout)
        self.returncode = 0
        return 0

    def kill(self):
        self.stdin.pipe.wclosed = True
        self.stdin.closed = True

    terminate = kill

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class SubprocessProxy(object):
    Popen = FakePopen

    def __getattr__(self, k):
        return getattr(subprocess, k)


def install(module):
    MODULE[0] = module
    module.sys = PROXY
    module.subprocess = SubprocessProxy()
    for k in ('Popen',):
        if getattr(module, k, None) is subprocess.Popen:
            setattr(module, k, FakePopen)

    class TB(object):
        def __getattr__(self, k):
            import traceback
            if k.startswith('print_'):
                return lambda *a, **kw: None
            return getattr(traceback, k)
    module.traceback = TB()
