"""E01: extensions, all sequences of activations, deactivations, contexts and decorated calls against freshly built classes."""
import inspect, itertools
import mdp
from mdp import extension as _ext_cls
from ..core import check, Violation, HarnessError

LEVEL = 'model_checking'
RULE = 'sequence with a refused step, or with two extensions active at the same time'
ASSUMPTIONS = ['extensions are completely declared before they are activated for the first time',
               'nobody else changes the classes while an extension is active', 'failing teardown functions only have to leave the list of active extensions correct']


def sup(self, name, attr):
    """next definition of a method behind the class with this name"""
    mro = type(self).__mro__
    i = [c.__name__ for c in mro].index(name)
    for c in mro[i + 1:]:
        if attr in c.__dict__:
            return c.__dict__[attr](self)
    return '-'


def fn(tag, cls=None, attr=None, non=None):
    def f(self):
        r = tag + ':' + type(self).__name__
        if cls:
            r += '>' + sup(self, cls, attr)
        if non:
            # the original definition kept for the class which has been extended
            here = [c for c in type(self).__mro__ if c.__name__ == non][0]
            o = getattr(here, '_non_extension_' + attr, None)
            r += '(' + str(o(self) if o else None) + ')'
        return r
    return f


def originals():
    """namespaces of the class hierarchy"""
    return {
        'A': dict(foo=fn('A.foo'), bar=fn('A.bar'), val=7, none=None, stat=staticmethod(lambda: 'A.stat'),
                  cm=classmethod(lambda c: 'A.cm:' + c.__name__), prop=property(lambda self: 'A.prop:' + type(self).__name__)),
        'B': dict(foo=fn('B.foo', 'B', 'foo'), stat=staticmethod(lambda: 'B.stat')),
        'C': dict(val=8, cm=classmethod(lambda c: 'C.cm:' + c.__name__)),
        'D': dict(bar=fn('D.bar', 'D', 'bar')),
    }


PARENT = {'A': (), 'B': ('A',), 'C': ('A',), 'D': ('B', 'C')}
ORIG = originals()
# extension -> attributes in the order in which they are declared
DECL = {
    'e1': [('A', 'foo', fn('e1.A.foo', None, 'foo', 'A')), ('A', 'new', fn('e1.new')), ('A', 'stat', staticmethod(lambda: 'e1.stat')),
           ('B', 'foo', fn('e1.B.foo', 'B', 'foo', 'B')), ('A', 'none', 1)],
    'e2': [('C', 'foo', fn('e2.C.foo', 'C', 'foo', 'C')), ('B', 'bar', fn('e2.B.bar', None, 'bar', 'B')), ('A', 'val', 70), ('D', 'new', fn('e2.D.new', 'D', 'new'))],
    'e3': [('C', 'bar', fn('e3.C.bar', None, 'bar', 'C')), ('D', 'prop', property(lambda self: 'e3.prop')), ('B', 'foo', fn('e3.B.foo')), ('A', 'foo', fn('e3.A.foo')), ('A', 'cm', classmethod(lambda c: 'e3.cm:' + c.__name__))],
    'e4': [('A', 'bar', fn('e4.bar'))],
    'e5': [('B', 'stat', staticmethod(lambda: 'e5.stat')), ('C', 'cm', classmethod(lambda c: 'e5.cm:' + c.__name__)), ('A', 'prop', property(lambda self: 'e5.prop')), ('C', 'bar', fn('e5.C.bar', None, 'bar', 'C'))],
    'e6': [('D', 'foo', fn('e6.D.foo', None, 'foo', 'D')), ('C', 'val', 80), ('A', 'bar', fn('e6.A.bar', None, 'bar', 'A'))],
}
NAMES = sorted(DECL)
PROBES = ['foo', 'bar', 'new', 'stat', 'cm', 'prop', 'val', 'none']
STATE = {}


class Boom(Exception):
    pass


def build(names, overlay=()):
    """fresh classes; overlay: {(class, attr): value}"""
    out = {}
    for c in names:
        ns = dict(ORIG[c])
        ns.update({a: v for (k, a), v in overlay if k == c})
        out[c] = type(c, tuple(out[p] for p in PARENT[c]) or (object,), ns)
    return out


def lookup(cls, attr):
    """original definition as seen from class name cls"""
    order = {'A': 'A', 'B': 'BA', 'C': 'CA', 'D': 'DBCA'}[cls]
    for c in order:
        if attr in ORIG[c]:
            return [ORIG[c][attr]]
    return []


def ref_probe(active):
    k = frozenset(active)
    if k not in STATE.setdefault('ref', {}):
        ov = []
        for e in k:
            for c, a, v in DECL[e]:
                ov.append(((c, a), v))
                for o in lookup(c, a):
                    ov.append(((c, '_non_extension_' + a), o))
        STATE['ref'][k] = probe(build('ABCD', ov))
    return STATE['ref'][k]


def value(get):
    try:
        v = get()
    except AttributeError:
        return 'missing'
    if callable(v):
        try:
            return v()
        except RecursionError:
            raise
        except Exception as e:
            return 'raises ' + type(e).__name__
    return v


def probe(classes):
    out = []
    for c in 'ABCD':
        cls = classes[c]
        obj = cls()
        for a in PROBES:
            out.append(value(lambda: getattr(obj, a)))
            out.append(value(lambda: getattr(obj, '_non_extension_' + a)))
            if a in ('stat', 'cm', 'val', 'none'):
                out.append(value(lambda: getattr(cls, a)))
    return out


def worker_setup():
    STATE['classes'] = build('ABCD')
    STATE['calls'] = []
    cl = STATE['classes']
    for e in NAMES:
        if e == 'e6':
            # declared through extension node classes
            base = type(mdp.ExtensionNode)('E6Base', (mdp.ExtensionNode,), {'extension_name': '__v_e6'})
            for c, a, v in DECL[e]:
                type(mdp.ExtensionNode)('E6' + c, (base, cl[c]), {a: v})
        else:
            for c, a, v in DECL[e]:
                mdp.extension_method('__v_' + e, cl[c], a)(v)

    @mdp.extension_setup('__v_e4')
    def setup4():
        raise Boom('setup fails')

    @mdp.extension_setup('__v_e5')
    def setup5():
        STATE['calls'].append('setup')

    @mdp.extension_teardown('__v_e5')
    def teardown5():
        STATE['calls'].append('teardown')
    STATE['snap'] = {c: dict(vars(cl[c])) for c in cl}
    STATE['known'] = {'__v_' + e for e in NAMES}


def reset():
    """hard reset, whatever the state"""
    from mdp import extension as m
    import sys
    mod = sys.modules['mdp.extension']
    mdp.deactivate_extensions(mdp.get_active_extensions())
    dirty = False
    for c, cls in STATE['classes'].items():
        now = dict(vars(cls))
        if now != STATE['snap'][c]:
            dirty = True
    del STATE['calls'][:]
    return dirty


# ---------------------------------------------------------------- the model
def m_activate(st, e):
    if e not in DECL:
        return False
    if e in st:
        return True
    if e == 'e4':
        return False
    mine = {(c, a) for c, a, _ in DECL[e]}
    for o in st:
        if mine & {(c, a) for c, a, _ in DECL[o]}:
            return False
    st.add(e)
    return True


def m_many(st, es):
    old = set(st)
    for e in es:
        if not m_activate(st, e):
            st.clear()
            st.update(old)
            return False
    return True


OPS = [('a', e) for e in NAMES + ['nope']] + [('d', e) for e in NAMES if e != 'e4'] + \
      [('m', ('e2', 'e1')), ('m', ('e6', 'e3', 'e1')), ('m', ('e5', 'e4')), ('m', ('e2', 'nope')), ('dm', ('e1', 'e2', 'e5')), ('dm', ('e3', 'nope'))] + \
      [('w', ('e1',)), ('w', ('e5', 'e6')), ('w', ('e2', 'e4')), ('w', ('e6', 'e5', 'e3')), ('x',), ('xe',)] + \
      [('f', 'e1', ()), ('f', 'e3', ('raise',)), ('f', 'e4', ()), ('f', 'e2', ('d', 'e2')), ('f', 'e6', ('a', 'e5'))]


class Runner(object):
    def __init__(self):
        self.st = set()
        self.stack = []
        self.refused = 0
        self.two = False
        self.inside = []
        self.ctxs = {}

    def call(self, real, ok, where):
        try:
            real()
            err = None
        except (mdp.ExtensionException, Boom) as e:
            err = e
        check((err is None) == ok, lambda: where() + ('raised %r' % (err,) if ok else 'was not refused'), 'refused')
        if err is not None:
            self.refused += 1

    def step(self, op, where):
        n = lambda e: '__v_' + e
        st = self.st
        if op[0] == 'a':
            ok = m_activate(st, op[1])
            self.call(lambda: mdp.activate_extension(n(op[1])), ok, where)
        elif op[0] == 'd':
            st.discard(op[1])
            self.call(lambda: mdp.deactivate_extension(n(op[1])), True, where)
        elif op[0] == 'm':
            ok = m_many(st, op[1])
            self.call(lambda: mdp.activate_extensions([n(e) for e in op[1]]), ok, where)
        elif op[0] == 'dm':
            ok = True
            for e in op[1]:
                if e not in DECL:
                    ok = False
                    break
                st.discard(e)
            self.call(lambda: mdp.deactivate_extensions([n(e) for e in op[1]]), ok, where)
        elif op[0] == 'w':
            before = set(st)
            ok = m_many(st, op[1])
            # the same context object is used again when it is entered again
            c = self.ctxs.setdefault(op[1], mdp.extension([n(e) for e in op[1]] if len(op[1]) > 1 else n(op[1][0])))
            self.call(c.__enter__, ok, where)
            if ok:
                self.stack.append((c, [e for e in op[1] if e not in before]))
        elif op[0] in ('x', 'xe'):
            if not self.stack:
                return
            c, es = self.stack.pop()
            for e in es:
                st.discard(e)
            args = (None, None, None) if op[0] == 'x' else (Boom, Boom(), None)
            self.call(lambda: c.__exit__(*args), True, where)
        else:
            e, body = op[1], op[2]
            was = e in st
            ok = m_activate(st, e)
            inside = set(st)
            mine = self

            def f(x, y=2, *rest, **kw):
                mine.verify(lambda: where() + 'inside the call: ', inside)
                check((x, y, rest, kw) == (1, 3, (), {}), where() + 'wrong arguments', 'args')
                if body == ('raise',):
                    raise Boom('body')
                if body:
                    (mdp.activate_extension if body[0] == 'a' else mdp.deactivate_extension)(n(body[1]))
                return 'result'
            g = mdp.with_extension(n(e))(f)
            bodyok = True
            if ok and body and body != ('raise',):
                if body[0] == 'a':
                    bodyok = m_activate(st, body[1])
                else:
                    st.discard(body[1])
            res = []
            self.call(lambda: res.append(g(1, y=3)), ok and bodyok and body != ('raise',), where)
            if ok and bodyok and not body == ('raise',):
                check(res == ['result'], lambda: where() + 'result %r' % res, 'result')
            if ok and not was:
                st.discard(e)
        if len(st) > 1:
            self.two = True

    def verify(self, where, st):
        act = mdp.get_active_extensions()
        check(sorted(act) == sorted('__v_' + e for e in st), lambda: where() + 'active extensions %r, expected %r' % (sorted(act), sorted(st)), 'active-list')
        got, want = probe(STATE['classes']), ref_probe(st)
        if got != want:
            names = [(c, a) for c in 'ABCD' for a0 in PROBES for a in [a0, '_non_extension_' + a0] + ([a0 + ' (class)'] if a0 in ('stat', 'cm', 'val', 'none') else [])]
            bad = [(k, g, w) for k, g, w in zip(names, got, want) if g != w][0]
            raise Violation(where() + '%s.%s gives %r, expected %r (active: %s)' % (bad[0][0], bad[0][1], bad[1], bad[2], sorted(st)), 'overlay-' + bad[0][1])
        c = STATE['calls']
        check(c == ['setup', 'teardown'] * (len(c) // 2) + ['setup'] * (len(c) % 2) and len(c) % 2 == ('e5' in st), lambda: where() + 'setup/teardown calls %r (e5 active: %r)' % (c, 'e5' in st), 'setup-calls')


QUICK = [o for o in OPS if o not in (('a', 'nope'), ('d', 'e6'), ('d', 'e2'), ('m', ('e2', 'nope')), ('dm', ('e3', 'nope')), ('w', ('e2', 'e4')), ('m', ('e6', 'e3', 'e1')),
                                     ('f', 'e3', ('raise',)), ('xe',), ('f', 'e6', ('a', 'e5')), ('a', 'e6'), ('w', ('e6', 'e5', 'e3')))]


def sequences(ctx, first, depth, part=False):
    ops = QUICK if part else OPS
    for d in range(depth - len(first) + 1):
        for rest in itertools.product(range(len(ops)), repeat=d):
            seq = [ops[i] for i in tuple(first) + rest]
            if reset():
                worker_setup_again()
            r = Runner()
            ctx.at(seq)
            for i, op in enumerate(seq):
                where = lambda: 'step %d of %r: ' % (i, seq)
                r.step(op, where)
            r.verify(where, r.st)
            st = frozenset(r.st)
            # everything off again
            while r.stack:
                r.step(('x',), where)
            mdp.deactivate_extensions(mdp.get_active_extensions())
            r.verify(lambda: 'after %r and deactivating everything: ' % (seq,), set())
            ctx.execution()
            ctx.step(len(seq))
            ctx.state(st, tuple(tuple(es) for _, es in r.stack))
            ctx.outcome(st, r.refused)
            if r.refused or r.two:
                ctx.mark(tuple(seq))


def worker_setup_again():
    raise Violation('the namespaces of the classes changed although no extension is active', 'leftover')


# ---------------------------------------------------------------- declaration order and kind of attribute
def mkval(kind, tag):
    if kind == 'method':
        return lambda self: tag + type(self).__name__
    if kind == 'static':
        return staticmethod(lambda: tag)
    if kind == 'class':
        return classmethod(lambda c: tag + c.__name__)
    if kind == 'prop':
        return property(lambda self: tag + type(self).__name__)
    if kind == 'none':
        return None if tag[0] != 'e' else tag
    return tag


COUNT = [0]


def declare(ctx, own, d1, d2, kind, node):
    """chain A<-B<-C; own: classes defining the attribute; d1, d2: classes extended by the two extensions, in order of declaration"""
    COUNT[0] += 1
    names = ['__w%d_%d' % (COUNT[0], i) for i in (1, 2)]
    base = mdp.Node if node else object
    orig = {c: mkval(kind, c) for c in own}

    def chain(over):
        out, b = {}, base
        for c in 'ABC':
            ns = {'attr': orig[c]} if c in own else {}
            ns.update(over.get(c, {}))
            b = out[c] = type(base)(c, (b,), ns)
        return out

    def first_orig(c):
        for k in 'CBA'['CBA'.index(c):]:
            if k in own:
                return [orig[k]]
        return []
    real = chain({})
    vals = [{c: mkval(kind, 'e%d%s' % (i + 1, c)) for c in d} for i, d in enumerate((d1, d2))]
    for i, d in enumerate((d1, d2)):
        for c in d:
            mdp.extension_method(names[i], real[c], 'attr')(vals[i][c])
    clash = bool(set(d1) & set(d2))

    def look(classes):
        r = []
        for c in 'ABC':
            o = classes[c]()
            for a in ('attr', '_non_extension_attr'):
                r.append(value(lambda: getattr(o, a)))
                if kind in ('static', 'class', 'value', 'none'):
                    r.append(value(lambda: getattr(classes[c], a)))
        return r
    refs = {}

    def ref(st):
        if st not in refs:
            over = {}
            for i in st:
                for c in (d1, d2)[i]:
                    o = over.setdefault(c, {})
                    o['attr'] = vals[i][c]
                    for v in first_orig(c):
                        o['_non_extension_attr'] = v
            refs[st] = look(chain(over))
        return refs[st]
    try:
        for seq in itertools.product(range(4), repeat=4):
            st = set()
            for k, op in enumerate(seq):
                i = op % 2
                if op < 2:
                    ok = not (d1 and d2 and clash and (1 - i) in st and i not in st)
                    if not (d1, d2)[i]:
                        continue
                    try:
                        mdp.activate_extension(names[i])
                        err = None
                    except mdp.ExtensionException as e:
                        err = e
                    check((err is None) == ok, lambda: 'own %s, extensions %s and %s, %s, %r: %r' % (own, d1, d2, kind, seq[:k + 1], err), 'refused')
                    if ok:
                        st.add(i)
                else:
                    if not (d1, d2)[i]:
                        continue
                    mdp.deactivate_extension(names[i])
                    st.discard(i)
                # every prefix is the end of some sequence only once: look when the rest is trivial
                if k == 3 or not any(seq[k + 1:]):
                    got, want = look(real), ref(frozenset(st))
                    check(got == want, lambda: 'attribute (%s) defined in %s; extension 1 in %s, extension 2 in %s; after %s: classes A, B, C give %r, expected %r' % (
                        kind, own, d1, d2, ['%s%d' % ('+-'[o // 2], o % 2 + 1) for o in seq[:k + 1]], got, want), 'declared')
                    ctx.state(own, d1, d2, kind, node, frozenset(st))
            ctx.execution()
            ctx.step(4)
            mdp.deactivate_extensions(names[:1 + bool(d2)] if d1 else names[1:] if d2 else [])
        got, want = look(real), ref(frozenset())
        check(got == want, lambda: 'attribute (%s) defined in %s; extension 1 in %s, extension 2 in %s: classes A, B, C give %r after deactivation, expected %r' % (kind, own, d1, d2, got, want), 'declared')
        if clash or d1 and d2:
            ctx.mark()
        ctx.outcome(own, d1, d2)
    finally:
        for n in names:
            mdp.deactivate_extensions([n] if n in mdp.get_active_extensions() else [])
            mdp.get_extensions().pop(n, None)


# ---------------------------------------------------------------- extensions of the library
def library(ctx, first, depth):
    import bimdp
    exts = ['html', 'switchboard_factory', 'parallel', 'cache_execute', 'gradient']
    reg = mdp.get_extensions()
    todo = {c for e in exts for c in reg[e] if isinstance(c, type)}
    classes = set(todo)
    while todo:
        c = todo.pop()
        for s in type.__subclasses__(c):
            if s not in classes and (s.__module__.startswith('mdp') or s.__module__.startswith('bimdp')):
                classes.add(s)
                todo.add(s)
    classes = sorted(classes, key=lambda c: (c.__module__, c.__name__))
    mdp.deactivate_extensions(mdp.get_active_extensions())
    snap = [dict(vars(c)) for c in classes]
    ops = [('a', e) for e in exts] + [('d', e) for e in exts] + [('w', (e, f)) for e, f in (('parallel', 'gradient'), ('html', 'parallel'))] + [('x',)]
    for rest in itertools.product(range(len(ops)), repeat=depth - len(first)):
        seq = [ops[i] for i in tuple(first) + rest]
        ctx.at(seq)
        st, stack = set(), []
        for op in seq:
            if op[0] == 'a':
                mdp.activate_extension(op[1])
                st.add(op[1])
            elif op[0] == 'd':
                mdp.deactivate_extension(op[1])
                st.discard(op[1])
            elif op[0] == 'w':
                c = mdp.extension(list(op[1]))
                c.__enter__()
                stack.append((c, set(op[1]) - st))
                st |= set(op[1])
            elif stack:
                c, es = stack.pop()
                c.__exit__(None, None, None)
                st -= es
        check(set(mdp.get_active_extensions()) == st, lambda: '%r: active %r, expected %r' % (seq, mdp.get_active_extensions(), st), 'active-list')
        for e in exts:
            for c, attrs in reg[e].items():
                if not isinstance(c, type):
                    continue
                for a, v in attrs.items():
                    if e in st:
                        check(inspect.getattr_static(c, a, None) is v, lambda: '%r: %s is active but %s.%s is not its method' % (seq, e, c.__name__, a), 'library-inject')
        mdp.deactivate_extensions(mdp.get_active_extensions())
        for c, s in zip(classes, snap):
            now = vars(c)
            for k in set(now) | set(s):
                if k in ('__abstractmethods__', '_abc_impl', '__doc__'):
                    continue
                check(k in now and k in s and now[k] is s[k] or k not in s and k.startswith('_') and k not in {a for e in exts for at in reg[e].values() if isinstance(at, dict) for a in at} and not k.startswith('_non_extension_') and not k.startswith('_extension_for_'),
                      lambda: '%r: %s.%s differs after all extensions were deactivated' % (seq, c.__name__, k), 'library-restore')
        ctx.execution()
        ctx.step(len(seq))
        ctx.state('lib', frozenset(st))
        if len(st) > 1:
            ctx.mark(tuple(seq))
    ctx.note_max('library classes watched', len(classes))


def badteardown(ctx, how):
    """an extension whose teardown (and setup) fails"""
    COUNT[0] += 1
    name = '__t%d' % COUNT[0]

    class K(object):
        def foo(self):
            return 'K'
    mdp.extension_method(name, K, 'foo')(lambda self: 'ext')

    @mdp.extension_teardown(name)
    def td():
        raise Boom('teardown')
    if how == 'setup':
        mdp.extension_setup(name)(lambda: (_ for _ in ()).throw(Boom('setup')))
    try:
        if how == 'setup':
            try:
                mdp.activate_extension(name)
                raise Violation('failing setup function was ignored', 'refused')
            except Boom:
                pass
        elif how == 'context':
            try:
                with mdp.extension(name):
                    check(K().foo() == 'ext', 'not active', 'overlay')
            except Boom:
                pass
        elif how == 'decorator':
            try:
                mdp.with_extension(name)(lambda: None)()
            except Boom:
                pass
        else:
            mdp.activate_extension(name)
            try:
                mdp.deactivate_extension(name)
            except Boom:
                pass
        check(K().foo() == 'K', '%s: failing teardown function: class not restored' % how, 'overlay')
        check(name not in mdp.get_active_extensions(), '%s: failing teardown function: the extension is still listed as active' % how, 'active-list')
    finally:
        import sys
        mdp.get_extensions().pop(name, None)
        sys.modules['mdp.extension']._active_extensions.discard(name)
    ctx.execution()
    ctx.mark()
    ctx.state('teardown', how)


SCENARIOS = {'sequences': sequences, 'declare': declare, 'library': library, 'badteardown': badteardown}


def cases(tier):
    t = tier == 'thorough'
    for a in range(len(OPS)):
        for b in range(len(OPS)):
            yield 'sequences', dict(first=[a, b], depth=4 if t else 3)
            if a < len(QUICK) and b < len(QUICK):
                yield 'sequences', dict(first=[a, b], depth=5 if t else 4, part=True)
    subs = [''.join(p) for r in (0, 1, 2, 3) for p in itertools.permutations('ABC', r)]
    for own in ('', 'A', 'B', 'AB', 'AC', 'BC', 'ABC', 'C'):
        for d1 in subs:
            for d2 in subs:
                if d1 and (d2 == '' or d1 <= d2 or t):
                    for kind in ('method', 'static', 'class', 'prop', 'value', 'none'):
                        if kind in ('prop', 'value', 'none') and not t and (len(d1) == 3 or len(d2) == 3):
                            continue
                        yield 'declare', dict(own=own, d1=d1, d2=d2, kind=kind, node=False)
                    if len(d1) + len(d2) < 4:
                        yield 'declare', dict(own=own, d1=d1, d2=d2, kind='method', node=True)
    for a in range(13):
        yield 'library', dict(first=[a], depth=4 if t else 3)
    for how in ('direct', 'setup', 'context', 'decorator'):
        yield 'badteardown', dict(how=how)
