"""H02: switchboards - all connection lists, all small geometries, against coordinates worked out independently."""
import importlib
import itertools
import numpy as np
import mdp
import bimdp
import bimdp.hinet as bh
from mdp.hinet import (Switchboard, MeanInverseSwitchboard, ChannelSwitchboard, Rectangular2dSwitchboard, DoubleRect2dSwitchboard,
                       DoubleRhomb2dSwitchboard, SwitchboardException)
from ..core import check, Violation

LEVEL = 'model_checking'
RULE = 'accepted switchboard whose connections are not simply the identity'
ASSUMPTIONS = ['channel, field and spacing sizes are positive integers', 'connections are integers',
               'a rhombic field arrangement is accepted exactly when it lies symmetrically on the lattice; its first field is aligned as documented (least cut away)']


class MeanRect(MeanInverseSwitchboard, Rectangular2dSwitchboard):
    pass


def data(w, dtype, rows=2):
    x = np.arange(1, 1 + rows * w).reshape(rows, w)
    if dtype == 'S':
        return np.array([['%c' % (64 + v) for v in r] for r in x]).astype('S1')
    if dtype in 'FD':
        return (x + 1j * x[:, ::-1]).astype(dtype)
    return x.astype(dtype)


def same(a, b):
    return isinstance(a, np.ndarray) and a.shape == b.shape and bool(np.all(a == b))


def routing(ctx, sb, conn, n_in, mean, dtypes, where):
    """execute / inverse of a switchboard with the given connections"""
    once = len(conn) == n_in and len(set(conn)) == n_in
    check(sb.input_dim == n_in and sb.output_dim == len(conn), lambda: '%s: dimensions %s -> %s' % (where, sb.input_dim, sb.output_dim), 'dims')
    check(not sb.is_trainable(), lambda: '%s: trainable' % where, 'trainable')
    check(bool(sb.is_invertible()) == (once or mean), lambda: '%s: is_invertible() = %r' % (where, sb.is_invertible()), 'invertible')
    for dt in dtypes:
        n = sb.copy()
        x = data(n_in, dt)
        x0 = x.copy()
        y = n.execute(x)
        exp = np.array([[r[c] for c in conn] for r in x0]).astype(x0.dtype)
        ctx.execution()
        check(same(y, exp) and y.dtype == x0.dtype, lambda: '%s: %s data %s routed to %s instead of %s' % (where, dt, x0.tolist(), y.tolist(), exp.tolist()), 'route')
        y[...] = y[::-1].copy()
        check(same(x, x0), lambda: '%s: execution changed its input or returned part of it' % where, 'alias')
        ctx.step(2)
        if once and not mean:
            back = n.inverse(exp)
            check(same(back, x0) and back.dtype == x0.dtype, lambda: '%s: inverse gives %s instead of %s' % (where, back.tolist(), x0.tolist()), 'inverse')
        elif mean:
            if dt == 'S':
                continue
            yy = data(len(conn), dt)
            y0 = yy.copy()
            back = n.inverse(yy)
            ref = np.zeros((len(yy), n_in), dtype='D')
            for i in range(n_in):
                src = [o for o, c in enumerate(conn) if c == i]
                if src:
                    ref[:, i] = sum(y0[:, o].astype('D') for o in src) / len(src)
            check(back.shape == ref.shape and np.allclose(back, ref, rtol=1e-6, atol=0), lambda: '%s: mean inverse of %s is %s instead of %s' % (where, y0.tolist(), back.tolist(), ref.tolist()), 'mean-inverse')
            check(np.dtype(dt).kind not in 'fc' or back.dtype == np.dtype(dt), lambda: '%s: mean inverse of %s data has type %s' % (where, dt, back.dtype), 'mean-dtype')
            check(same(yy, y0), lambda: '%s: inverse changed its input' % where, 'alias')
        else:
            try:
                r = n.inverse(exp)
            except mdp.IsNotInvertibleException:
                pass
            else:
                raise Violation('%s: inverting a non-invertible switchboard returned %r' % (where, r), 'inverse-accepted')
        # wrong width
        for w in (n_in - 1, n_in + 1):
            if w < 1 or dt == 'S':
                continue
            try:
                n.execute(data(w, dt))
            except mdp.NodeException:
                pass
            else:
                raise Violation('%s: data of width %d accepted' % (where, w), 'width')


DT = ('f', 'd', 'F', 'i', 'l', 'S')


def generic(ctx, n_in, first, max_out):
    """every connection list over -1..n_in (illegal ones included) of up to max_out entries that starts with `first`"""
    for n_out in range(0, max_out + 1):
        for rest in itertools.product(range(-1, n_in + 1), repeat=max(0, n_out - 1)):
            conn = list(((first,) + rest)[:n_out])
            if n_out == 0 and first != -1:
                continue
            ok = bool(conn) and max(conn) < n_in and min(conn) >= 0
            for kind in (list, tuple, np.array):
                if kind is not list and n_out > 2:
                    continue
                for cls in (Switchboard, MeanInverseSwitchboard, bh.BiSwitchboard):
                    where = '%s(%d, %s)' % (cls.__name__, n_in, conn)
                    ctx.at(where)
                    ctx.execution()
                    try:
                        sb = cls(input_dim=n_in, connections=kind(conn))
                    except SwitchboardException:
                        check(not ok, lambda: where + ' refused', 'refused')
                        continue
                    check(ok, lambda: where + ' accepted', 'accepted')
                    ctx.state(n_in, tuple(conn))
                    if conn != list(range(n_in)):
                        ctx.mark(cls.__name__, tuple(conn), kind.__name__)
                    if cls is bh.BiSwitchboard:
                        bi(ctx, sb, conn, n_in, where)
                    else:
                        routing(ctx, sb, conn, n_in, cls is MeanInverseSwitchboard, DT if n_out <= 3 else ('f',), where)
                        if cls is Switchboard:
                            bundles(ctx, conn, n_in)


def bi(ctx, sb, conn, n_in, where):
    """data and every matching array of the message are routed, the rest is passed on"""
    once = len(conn) == n_in and len(set(conn)) == n_in
    x, a3, v = data(n_in, 'd'), np.arange(2. * n_in * 2).reshape(2, n_in, 2), np.arange(1. * n_in)
    odd = data(n_in + len(conn) + 1, 'd')
    y0, y3 = x[:, conn], a3[:, conn]
    for with_x in (True, False):
        msg = dict(a=x, b=a3, v=v, s='text', odd=odd)
        r = sb.execute(x if with_x else None, dict(msg))
        check(isinstance(r, tuple) and len(r) == 2, lambda: '%s: result %r' % (where, r), 'bi-form')
        y, m = r
        check((same(y, y0) if with_x else y is None), lambda: '%s: data routed to %r' % (where, y), 'bi-x')
        check(set(m) == set(msg) and same(m['a'], y0) and same(m['b'], y3) and same(m['v'], v) and m['s'] == 'text' and same(m['odd'], odd), lambda: '%s: message routed to %r' % (where, m), 'bi-msg')
        ctx.step()
    check(same(sb.execute(x), y0) and same(np.asarray(sb.execute(x, {})), y0), lambda: '%s: without message' % where, 'bi-none')
    if once:
        for with_x in (True, False):
            y, m = sb.execute(y0 if with_x else None, dict(a=y0, b=y3, v=v, method='inverse'))[:2]
            check((same(y, x) if with_x else y is None) and same(m['a'], x) and same(m['b'], a3) and same(m['v'], v), lambda: '%s: inverse gives %r, %r' % (where, y, m), 'bi-inverse')
            ctx.step()


def bundles(ctx, conn, n_in):
    """every division into channels"""
    for od in range(1, len(conn) + 2):
        for idim in range(1, n_in + 2):
            ok = len(conn) % od == 0 and n_in % idim == 0
            where = 'ChannelSwitchboard(%d, %s, %d, %d)' % (n_in, conn, od, idim)
            try:
                sb = ChannelSwitchboard(n_in, conn, od, idim)
            except SwitchboardException:
                check(not ok, lambda: where + ' refused', 'refused')
                continue
            check(ok, lambda: where + ' accepted', 'accepted')
            channels(ctx, sb, [conn[i:i + od] for i in range(0, len(conn), od)], idim, where)


def channels(ctx, sb, fields, idim, where, limit=3):
    """channel queries; fields: connections of every output channel"""
    check(sb.out_channel_dim == len(fields[0]) and sb.in_channel_dim == idim and sb.output_channels == len(fields) and sb.input_channels * idim == sb.input_dim,
          lambda: '%s: channel counts %s' % (where, (sb.out_channel_dim, sb.in_channel_dim, sb.output_channels, sb.input_channels)), 'channel-counts')
    x = data(sb.input_dim, 'd')
    y = sb.execute(x)
    for c, f in enumerate(fields):
        f = list(map(int, f))
        check(list(sb.get_out_channel_input(c)) == f, lambda: '%s: inputs of channel %d are %s instead of %s' % (where, c, sb.get_out_channel_input(c), f), 'channel-input')
        node = sb.get_out_channel_node(c)
        r = node.execute(x)
        check(same(r, y[:, c * len(f):(c + 1) * len(f)]) and node.input_dim == sb.input_dim and node.output_dim == len(f), lambda: '%s: node of channel %d gives %s' % (where, c, r.tolist()), 'channel-node')
        check(list(sb.get_out_channels_input_channels(c)) == sorted({v // idim for v in f}), lambda: '%s: input channels of %d are %s' % (where, c, sb.get_out_channels_input_channels(c)), 'input-channels')
        ctx.step(3)
    n = len(fields)
    for k in range(1, min(n, limit) + 1):
        if n > 6 and k > 2:
            break
        for sel in itertools.combinations(range(n), k):
            exp = sorted({int(v) // idim for c in sel for v in fields[c]})
            got = sb.get_out_channels_input_channels(list(sel))
            check(list(got) == exp, lambda: '%s: input channels of %s are %s instead of %s' % (where, sel, got, exp), 'input-channels')
            ctx.step()


def expand(points, width, idim):
    return [(y * width + x) * idim + k for x, y in points for k in range(idim)]


def finish(ctx, sb, fields, idim, where, bicls=None, bikw=None):
    conn = [c for f in fields for c in f]
    check(list(sb.connections) == conn, lambda: '%s: connections %s instead of %s' % (where, list(sb.connections), conn), 'connections')
    routing(ctx, sb, conn, sb.input_dim, False, ('f',), where)
    channels(ctx, sb, fields, idim, where, 2)
    if bicls is not None:
        b = bicls(**bikw)
        check(list(b.connections) == conn, lambda: '%s: connections of the bi version differ' % where, 'bi-connections')
        x = data(sb.input_dim, 'd')
        check(same(b.execute(x), x[:, conn]), lambda: '%s: bi version routes differently' % where, 'bi-x')
    if conn != list(range(sb.input_dim)):
        ctx.mark(where)
    ctx.state(where)


def rect(ctx, nx, ny, top):
    for fx, fy, sx, sy in itertools.product(range(1, min(nx + 1, top) + 1), range(1, min(ny + 1, top) + 1), range(1, top + 1), range(1, top + 1)):
        for idim in ((1, 2) if nx * ny <= 12 else (1,)):
            for ignore in (False, True):
                kw = dict(in_channels_xy=(nx, ny), field_channels_xy=(fx, fy), field_spacing_xy=(sx, sy), in_channel_dim=idim, ignore_cover=ignore)
                where = 'Rectangular2dSwitchboard(%s)' % kw
                ctx.at(where)
                ctx.execution()
                xs, ys = range(0, nx - fx + 1, sx), range(0, ny - fy + 1, sy)
                cov = {(x0 + dx, y0 + dy) for x0 in xs for y0 in ys for dx in range(fx) for dy in range(fy)}
                full = len(cov) == nx * ny
                ok = bool(cov) and (full or ignore)
                try:
                    sb = Rectangular2dSwitchboard(**kw)
                except SwitchboardException:
                    check(not ok, lambda: where + ' refused', 'refused')
                    continue
                check(ok, lambda: where + ' accepted although fields cover %d of %d channels' % (len(cov), nx * ny), 'accepted')
                ctx.outcome(ok, full)
                fields = [expand([(x0 + dx, y0 + dy) for dy in range(fy) for dx in range(fx)], nx, idim) for y0 in ys for x0 in xs]
                check(tuple(sb.out_channels_xy) == (len(xs), len(ys)), lambda: '%s: out_channels_xy %s' % (where, sb.out_channels_xy), 'geometry')
                unused = (nx - (xs[-1] + fx), ny - (ys[-1] + fy))
                check(tuple(sb.unused_channels_xy) == unused, lambda: '%s: unused_channels_xy %s instead of %s' % (where, sb.unused_channels_xy, unused), 'unused')
                finish(ctx, sb, fields, idim, where, bh.Rectangular2dBiSwitchboard, kw)
                if idim == 1:
                    routing(ctx, MeanRect(**kw), [c for f in fields for c in f], sb.input_dim, True, ('f',), 'Mean' + where)
                if nx == ny and fx == fy and sx == sy:
                    for a in ((nx, fx, sx), ([nx, ny], [fx, fy], [sx, sy])):
                        s2 = Rectangular2dSwitchboard(a[0], a[1], a[2], idim, ignore)
                        check(list(s2.connections) == list(sb.connections), lambda: where + ': other ways of giving the sizes differ', 'sizes')


def drect(ctx, nx, ny, top):
    for fx, fy in itertools.product(range(1, top + 1), repeat=2):
        for idim in ((1, 2) if nx * ny <= 16 else (1,)):
            for ignore in (False, True):
                kw = dict(in_channels_xy=(nx, ny), field_channels_xy=(fx, fy), in_channel_dim=idim, ignore_cover=ignore)
                where = 'DoubleRect2dSwitchboard(%s)' % kw
                ctx.at(where)
                ctx.execution()
                even = fx % 2 == 0 and fy % 2 == 0
                xs, ys = range(0, nx - fx + 1, fx), range(0, ny - fy + 1, fy)
                ok = even and bool(len(xs)) and bool(len(ys))
                if ok:
                    rx, ry = nx - (xs[-1] + fx), ny - (ys[-1] + fy)
                    # no room for another short field next to the last long one, everything covered unless that is waived
                    ok = rx < fx // 2 and ry < fy // 2 and (ignore or (rx, ry) == (0, 0))
                try:
                    sb = DoubleRect2dSwitchboard(**kw)
                except SwitchboardException:
                    check(not ok, lambda: where + ' refused', 'refused')
                    continue
                check(ok, lambda: where + ' accepted', 'accepted')
                tops = [(x, y) for y in ys for x in xs] + [(x + fx // 2, y + fy // 2) for y in list(ys)[:-1] for x in list(xs)[:-1]]
                fields = [expand([(x0 + dx, y0 + dy) for dy in range(fy) for dx in range(fx)], nx, idim) for x0, y0 in tops]
                check(tuple(sb.long_out_channels_xy) == (len(xs), len(ys)), lambda: '%s: long_out_channels_xy %s' % (where, sb.long_out_channels_xy), 'geometry')
                check(tuple(sb.unused_channels_xy) == (rx, ry), lambda: '%s: unused_channels_xy %s' % (where, sb.unused_channels_xy), 'unused')
                finish(ctx, sb, fields, idim, where, bh.DoubleRect2dBiSwitchboard, kw)


def lattice(lx, ly):
    """points of a rhombic lattice in input order"""
    return [(2 * x, 2 * y) for y in range(ly) for x in range(lx)] + [(2 * x + 1, 2 * y + 1) for y in range(ly - 1) for x in range(lx - 1)]


def drhomb(ctx, lx, ly, top):
    pts = lattice(lx, ly)
    index = {p: i for i, p in enumerate(pts)}
    for d in range(1, top + 1):
        for idim in (1, 2):
            kw = dict(long_in_channels_xy=(lx, ly), diag_field_channels=d, in_channel_dim=idim)
            where = 'DoubleRhomb2dSwitchboard(%s)' % kw
            ctx.at(where)
            ctx.execution()
            s = int(lx < ly)
            mx, my = 1 - s, s               # lattice columns / rows cut away at either side
            # a field spans 2d-1 columns and rows; fields are d apart; what is left must equal what was cut away
            fx, fy = 2 * lx - 1 - 2 * mx - (2 * d - 1), 2 * ly - 1 - 2 * my - (2 * d - 1)
            ok = d % 2 == 0 and fx >= 0 and fy >= 0 and fx % d == 0 and fy % d == 0
            try:
                sb = DoubleRhomb2dSwitchboard(**kw)
            except SwitchboardException:
                check(not ok, lambda: where + ' refused', 'refused')
                continue
            check(ok, lambda: where + ' accepted', 'accepted')
            tops = [(mx + d - 1 + i * d, my + j * d) for j in range(fy // d + 1) for i in range(fx // d + 1)]
            fields = []
            for tx, ty in tops:
                sq = sorted([(tx + a - b, ty + a + b) for a in range(d) for b in range(d)], key=lambda p: (p[1], p[0]))
                fields.append([index[p] * idim + k for p in sq for k in range(idim)])
            check(tuple(sb.out_channels_xy) == (fx // d + 1, fy // d + 1), lambda: '%s: out_channels_xy %s' % (where, sb.out_channels_xy), 'geometry')
            check(sb.input_dim == len(pts) * idim, lambda: '%s: input_dim %s' % (where, sb.input_dim), 'dims')
            # documented: inner points are covered twice
            cover = {}
            for f in fields:
                for c in f:
                    cover[c] = cover.get(c, 0) + 1
            check(max(cover.values()) <= 2, lambda: where + ': cover', 'cover')
            finish(ctx, sb, fields, idim, where, bh.DoubleRhomb2dBiSwitchboard, kw)


def factory(ctx, nx, ny, top):
    """hierarchies of up to three switchboards assembled by the factory extension"""
    R, D, H = Rectangular2dSwitchboard, DoubleRect2dSwitchboard, DoubleRhomb2dSwitchboard
    CH = ChannelSwitchboard

    def grid(sb):
        return tuple(sb.long_out_channels_xy if isinstance(sb, D) else sb.out_channels_xy) if isinstance(sb, (R, D, H)) else None

    def options(sb):
        for f in range(1, top + 1):
            for sp in range(1, f + 1):
                yield R, dict(field_channels_xy=f, field_spacing_xy=sp)
                if sp == f:
                    yield R, dict(field_channels_xy=f, field_spacing_xy=sp, ignore_cover=False)
        for f in (2, (2, 4)):
            yield D, dict(field_channels_xy=f)
        for f in (2, 4):
            yield H, dict(field_size=f)
        yield CH, dict()

    def make(cls, free, prev, dim):
        """the same switchboard made directly; None when it cannot follow"""
        k = dim // prev.output_channels
        if cls is CH:
            return lambda: CH(dim, list(range(dim)), dim, k)
        if cls in (R, D):
            if not isinstance(prev, (R, H)):
                return None
            kw = dict(free)
            kw.setdefault('ignore_cover', True)
            return lambda: cls(in_channels_xy=prev.out_channels_xy, in_channel_dim=k, **kw)
        if not isinstance(prev, D):
            return None
        return lambda: H(prev.long_out_channels_xy, free['field_size'], k)

    def explore(prev, path):
        for cls, free in options(prev):
            for per in (1, 3):
                dim = prev.output_channels * per
                p = path + [(cls.__name__, tuple(sorted(free.items())), per)]
                ctx.at(p)
                ctx.execution()
                free0 = dict(free)
                ref = make(cls, free, prev, dim)
                try:
                    exp = ref() if ref else None
                except SwitchboardException:
                    exp = None
                made = []
                for bi in (False, True):
                    real = getattr(bh, cls.__name__.replace('Switchboard', 'BiSwitchboard')) if bi else cls
                    fr = dict(free)
                    try:
                        sb = real.create_switchboard(fr, prev, dim, *(['sb'] if bi else []))
                    except SwitchboardException:
                        check(exp is None, lambda: 'factory refused %s' % (p,), 'factory-refused')
                        continue
                    check(exp is not None, lambda: 'factory accepted %s' % (p,), 'factory-accepted')
                    check(bi or fr == free0, lambda: 'factory changed the parameters %s to %s' % (free0, fr), 'factory-params')
                    check(type(sb) is real and sb.input_dim == dim and list(sb.connections) == list(exp.connections) and (sb.out_channel_dim, sb.in_channel_dim) == (exp.out_channel_dim, exp.in_channel_dim),
                          lambda: 'factory made %r for %s, expected %r' % (sb, p, exp), 'factory-made')
                    check(grid(sb) == grid(exp), lambda: 'factory output grid for %s' % (p,), 'factory-grid')
                    check(not bi or sb.node_id == 'sb', lambda: 'factory node_id', 'factory-id')
                    made.append(sb)
                if made:
                    ctx.mark(repr(p))
                    ctx.state(repr(p))
                    if len(path) < 2 and per == 1:
                        explore(made[0], p)

    with mdp.extension('switchboard_factory'):
        for base in (mdp.hinet.get_2d_image_switchboard((nx, ny)),):
            check(list(base.connections) == list(range(nx * ny)) and tuple(base.out_channels_xy) == (nx, ny), lambda: 'image switchboard', 'image')
            explore(base, [('image', nx, ny)])
    check(not hasattr(R, 'create_switchboard'), lambda: 'factory left behind', 'factory-left')


def coords(ctx, nx, ny):
    """the coordinate translator: all conversions are inverse to each other and reject everything outside"""
    t = importlib.import_module('mdp.hinet.switchboard').CoordinateTranslator(nx, ny)
    a = np.arange(nx * ny).reshape(ny, nx)

    def refused(f, *args):
        try:
            f(*args)
        except Exception:
            return
        raise Violation('%s%r of a %dx%d image accepted' % (f.__name__, args, nx, ny), 'coords-range')
    for x, y in itertools.product(range(-1, nx + 1), range(-1, ny + 1)):
        if 0 <= x < nx and 0 <= y < ny:
            i = a[y][x]
            check(t.image_to_index(x, y) == i == t.array_to_index(y, x), lambda: 'index of %d,%d' % (x, y), 'coords')
            check(tuple(t.index_to_image(i)) == (x, y) and tuple(t.index_to_array(i)) == (y, x), lambda: 'coordinates of %d' % i, 'coords')
            check(tuple(t.image_to_array(x, y)) == (y, x) and tuple(t.array_to_image(y, x)) == (x, y), lambda: 'exchange', 'coords')
            ctx.step(6)
        else:
            refused(t.image_to_index, x, y)
            refused(t.array_to_index, y, x)
    refused(t.index_to_image, -1)
    refused(t.index_to_array, nx * ny)
    ctx.execution()
    ctx.mark()


SCENARIOS = dict(generic=generic, rect=rect, drect=drect, drhomb=drhomb, factory=factory, coords=coords)


def cases(tier):
    q = tier == 'quick'
    for n, m in ((1, 4), (2, 6), (3, 5), (4, 5)) if q else ((1, 6), (2, 7), (3, 6), (4, 6), (5, 5)):
        for first in range(-1, n + 1):
            yield 'generic', dict(n_in=n, first=first, max_out=m)
    t = 6 if q else 9
    for nx, ny in itertools.product(range(1, t + 1), repeat=2):
        yield 'rect', dict(nx=nx, ny=ny, top=4 if q else 6)
        yield 'coords', dict(nx=nx, ny=ny)
    t = 10 if q else 18
    for nx, ny in itertools.product(range(1, t + 1), repeat=2):
        yield 'drect', dict(nx=nx, ny=ny, top=8 if q else 10)
    t = 11 if q else 18
    for lx, ly in itertools.product(range(1, t + 1), repeat=2):
        yield 'drhomb', dict(lx=lx, ly=ly, top=8 if q else 10)
    for nx, ny in ((4, 4), (4, 8), (6, 6), (8, 8), (5, 6)) if q else itertools.product(range(2, 13), repeat=2):
        yield 'factory', dict(nx=nx, ny=ny, top=2 if q else 3)
