"""Canonical description of an object graph (sharing included), for comparing the complete state of two objects."""
import types
import numpy as np


def deep(obj, skip=()):
    seen = {}
    keep = []

    def go(o, depth=0):
        if o is None or isinstance(o, (bool, int, float, complex, str, bytes, type(Ellipsis))):
            return repr(o)
        if isinstance(o, np.generic):
            return (str(o.dtype), repr(o))
        if isinstance(o, np.dtype):
            return ('dtype', str(o))
        if isinstance(o, type):
            return ('class', o.__module__, o.__qualname__)
        if id(o) in seen:
            return ('#', seen[id(o)])
        seen[id(o)] = len(seen)
        keep.append(o)
        if isinstance(o, np.ndarray):
            if o.dtype.kind == 'O':
                return ('oarray', o.shape, [go(v) for v in o.ravel()])
            return ('array', o.shape, str(o.dtype), o.tobytes())
        if isinstance(o, dict):
            return (type(o).__name__, [(go(k), go(v)) for k, v in sorted(o.items(), key=lambda kv: repr(kv[0]))])
        if isinstance(o, (list, tuple)):
            return (type(o).__name__, [go(v) for v in o])
        if isinstance(o, (set, frozenset)):
            return (type(o).__name__, sorted(repr(go(v)) for v in o))
        if isinstance(o, types.MethodType):
            return ('method', o.__func__.__qualname__, go(o.__self__))
        if isinstance(o, (types.FunctionType, types.BuiltinFunctionType)):
            return ('function', o.__qualname__)
        if isinstance(o, np.random.RandomState):
            return ('rng',)
        d = getattr(o, '__dict__', None)
        if d is None:
            return ('object', type(o).__name__)
        return (type(o).__name__, [(k, go(v)) for k, v in sorted(d.items()) if k not in skip])
    return go(obj)


def diff(a, b, path=''):
    """first difference of two descriptions"""
    if type(a) != type(b):
        return '%s: %s / %s' % (path, str(a)[:80], str(b)[:80])
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            ka = [x[0] if isinstance(x, tuple) else '' for x in a]
            kb = [x[0] if isinstance(x, tuple) else '' for x in b]
            return '%s: %d / %d entries %s %s' % (path, len(a), len(b), [k for k in ka if k not in kb][:5], [k for k in kb if k not in ka][:5])
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                tag = a[0] if isinstance(a[0], str) and i == 1 else i
                return diff(x, y, '%s.%s' % (path, tag))
        return ''
    return '' if a == b else '%s: %s / %s' % (path, str(a)[:80], str(b)[:80])
