"""C03: a grid's description of itself stays consistent, and its data stay at their
world coordinates, through any history of reshaping operations."""
import numpy as np
import gridlib as gl

PROPERTY = 'C03'
gl.VERY_LONG = .15
NEEDS_DATA = False
RULE = ('a case is one random grid and a history of reshaping operations (pad, unpad, crop, scale, down-sample, collapse, '
        'add or sum properties, Fourier-space padding), each compared with an independent model of cell centers and '
        'contents; non-trivial when at least two operations were applied; told apart by operations and geometry')
MINIMUM = {'operations': 1000, 'op_pad': 50, 'op_unpad': 30, 'op_crop': 50, 'op_scale': 50, 'op_down': 50,
           'op_collapse': 50, 'op_sum': 20, 'op_newprop': 20, 'fourier_pads': 20, 'inactive_histories': 10, 'partly_transformed': 100}


class Model:
    """Centers, pixel sizes, units, data: nothing derived."""

    def __init__(self, g, geom, active):
        cen, side, pix, n = geom
        self.pix = [float(p) for p in pix]
        self.cen = [c + (np.arange(m) - (m - 1) / 2) * p for c, p, m in zip(cen, pix, n)]
        self.units = list(np.atleast_1d(g.axunits))
        self.funits = list(np.atleast_1d(g.fourier_axunits))
        self.gunits = [[u] for u in np.atleast_1d(g.gridunits).tolist()]
        self.data = g.grid.copy() if active else None
        self.nprop = int(g.n_properties)
        self.nobj = int(g.n_objects)

    @property
    def nd(self):
        return len(self.cen)


def compare(case, g, m, what):
    gl.monitor_geometry(case, g, what)
    case.check(int(g.n_dimensions) == m.nd, 'dimensions', lambda: '%s: %r dimensions, expected %d' % (what, g.n_dimensions, m.nd))
    case.check(int(g.n_properties) == m.nprop, 'properties', lambda: '%s: %r properties, expected %d' % (what, g.n_properties, m.nprop))
    u = np.atleast_1d(g.gridunits).tolist()
    case.check(len(u) == len(m.gunits) and all(a in b for a, b in zip(u, m.gunits)), 'gridunits',
               lambda: '%s: units of the properties are %r, expected one of each of %r' % (what, u, m.gunits))
    for i in range(m.nd):
        case.close(g.axes_centers[i], m.cen[i], 'world_coordinates', '%s: cell centers of axis %d' % (what, i), rtol=1e-8, atol=1e-7 * m.pix[i])
        case.close(np.array(g.pixel_size[i]), np.array(m.pix[i]), 'pixel_size', '%s: pixel size of axis %d' % (what, i), rtol=1e-8)
        case.check(g.axunits[i] == m.units[i], 'axunits', lambda: '%s: unit of axis %d is %r, expected %r' % (what, i, g.axunits[i], m.units[i]))
        case.check(g.fourier_axunits[i] == m.funits[i], 'axunits', lambda: '%s: Fourier unit of axis %d is %r, expected %r' % (what, i, g.fourier_axunits[i], m.funits[i]))
    if m.data is not None:
        case.close(g.grid, m.data, 'data', '%s: contents' % what, rtol=1e-8, atol=1e-12)


def op_pad(rng, g, m, negative=False):
    k = int(rng.integers(1, m.nd + 1))
    ax = [int(i) for i in rng.permutation(m.nd)[:k]]
    if negative:
        lim = [(len(m.cen[i]) - 1) // 2 for i in ax]
        if max(lim) == 0:
            return None
        w = [-int(rng.integers(0, l + 1)) for l in lim]
    else:
        w = [int(rng.integers(0, 3)) for _ in ax]
        if rng.random() < .3:
            w = [w[0]] * k
    val = 0 if rng.random() < .5 else float(rng.normal())
    a, b = (ax, w) if k > 1 or rng.random() < .5 else (ax[0], w[0])
    if k > 1 and len(set(w)) == 1 and rng.random() < .5:
        b = w[0]
    if val == 0 and rng.random() < .5:
        g.pad(a, b)
    else:
        g.pad(a, b, val)
    for i, p in zip(ax, w):
        if p > 0:
            c = m.cen[i]
            m.cen[i] = np.concatenate((c[0] - np.arange(p, 0, -1) * m.pix[i], c, c[-1] + np.arange(1, p + 1) * m.pix[i]))
            if m.data is not None:
                shape = list(m.data.shape)
                shape[i] = p
                m.data = np.concatenate((np.full(shape, float(val)), m.data, np.full(shape, float(val))), axis=i)
        elif p < 0:
            m.cen[i] = m.cen[i][-p:p]
            if m.data is not None:
                m.data = np.moveaxis(np.moveaxis(m.data, i, 0)[-p:p], 0, i)
    return 'pad %s %s' % (ax, w)


def op_crop(rng, g, m):
    i = int(rng.integers(m.nd))
    c, p = m.cen[i], m.pix[i]
    a, b = np.sort(rng.integers(0, len(c), size=2))
    # between two centers, so that no comparison is decided by rounding
    lo = None if rng.random() < .25 else c[a] - p * rng.uniform(.1, .9)
    hi = None if rng.random() < .25 else c[b] + p * rng.uniform(.1, .9)
    a = 0 if lo is None else a
    b = len(c) - 1 if hi is None else b
    kw = {}
    if lo is not None:
        kw['min'] = lo
    if hi is not None:
        kw['max'] = hi
    g.crop(i, **kw)
    m.cen[i] = c[a:b + 1]
    if m.data is not None:
        m.data = np.moveaxis(np.moveaxis(m.data, i, 0)[a:b + 1], 0, i)
    return 'crop %d %s' % (i, kw)


def op_scale(rng, g, m):
    k = int(rng.integers(1, m.nd + 1))
    ax = [int(i) for i in rng.permutation(m.nd)[:k]]
    f = [float(10 ** rng.uniform(-1, 1)) for _ in ax]
    if rng.random() < .3:
        f = [f[0]] * k
    center = bool(rng.random() < .6)
    u = ['same', 'same', 'arcseconds', 'km', None][int(rng.integers(5))]
    if k > 1 and rng.random() < .2:
        u = ['unit%d' % i for i in range(k)]
        if rng.random() < .3:
            u[int(rng.integers(k))] = None
        u = [u, tuple(u), np.array(u)][int(rng.integers(3))]
    elif isinstance(u, str) and u != 'same' and rng.random() < .3:
        u = [u]
    kw = {}
    if not center:
        kw['scalecenter'] = False
    if not (isinstance(u, str) and u == 'same'):
        kw['axunits'] = u
        u = [u] * k if u is None or isinstance(u, str) else list(u) * (k if len(u) == 1 else 1)
    a, b = (ax, f) if k > 1 or rng.random() < .5 else (ax[0], f[0])
    if k > 1 and len(set(f)) == 1 and rng.random() < .5:
        b = f[0]
    g.scale_axis(a, b, **kw)
    for j, (i, x) in enumerate(zip(ax, f)):
        mid = (m.cen[i][0] + m.cen[i][-1]) / 2
        m.cen[i] = m.cen[i] * x if center else mid + (m.cen[i] - mid) * x
        m.pix[i] *= x
        if isinstance(u, list):
            m.units[i] = u[j]
            m.funits[i] = None if u[j] is None else u[j] + '^-1'
    return 'scale %s %s center=%s %s' % (ax, f, center, u)


def op_down(rng, g, m):
    k = int(rng.integers(1, m.nd + 1))
    ax = [int(i) for i in rng.permutation(m.nd)[:k]]
    f = [int(rng.integers(1, min(3, len(m.cen[i])) + 1)) for i in ax]
    mode = 'average' if rng.random() < .5 else 'sum'
    kw = {} if mode == 'average' and rng.random() < .5 else {'mode': mode}
    a, b = (ax, f) if k > 1 or rng.random() < .5 else (ax[0], f[0])
    g.down_sample(a, b, **kw)
    for i, x in zip(ax, f):
        n = len(m.cen[i]) // x
        m.cen[i] = np.array([m.cen[i][j * x:(j + 1) * x].mean() for j in range(n)])
        m.pix[i] *= x
        if m.data is not None:
            d = np.moveaxis(m.data, i, 0)
            d = np.array([d[j * x:(j + 1) * x].sum(axis=0) / (x if mode == 'average' else 1) for j in range(n)])
            m.data = np.moveaxis(d, 0, i)
    return 'down_sample %s %s %s' % (ax, f, mode)


def op_collapse(rng, g, m):
    if m.nd < 2 or m.data is None:
        return None
    k = int(rng.integers(1, m.nd))
    ax = [int(i) for i in rng.permutation(m.nd)[:k]]
    mode = 'average' if rng.random() < .5 else 'sum'
    kind = int(rng.integers(4))
    w = None
    if kind == 1:
        w = [rng.uniform(.1, 2, size=len(m.cen[i])) for i in ax]
    elif kind == 2 and k == 1:
        w = [rng.uniform(.1, 2, size=m.data.shape[:-1])]
    elif kind == 3 and k == 1:
        w = [rng.uniform(.1, 2, size=m.data.shape)]
    kw = {} if mode == 'average' and rng.random() < .5 else {'mode': mode}
    if w is not None:
        kw['weights'] = w if k > 1 else w[0]
    a = ax if k > 1 or rng.random() < .5 else ax[0]
    total = np.ones(m.data.shape)
    if w is not None:
        for i, x in zip(ax, w):
            if x.ndim == 1:
                s = [1] * m.data.ndim
                s[i] = len(x)
                total = total * x.reshape(s)
            elif x.ndim == m.nd:
                total = total * x[..., None]
            else:
                total = total * x
    data = (m.data * total).sum(axis=tuple(ax))
    if mode == 'average':
        data = data / total.sum(axis=tuple(ax))
    before = g.grid.copy()
    out = g
    if rng.random() < .5:
        out = g.collapse_dimension(a, in_place=False, **kw)
        compare_case[0].check(np.array_equal(g.grid, before), 'not_in_place', 'collapse_dimension(in_place=False) changed the original')
        compare(compare_case[0], g, m, 'original after collapse to a new grid')
        if out is g:
            compare_case[0].fail('not_in_place', 'collapse_dimension(in_place=False) returned the original')
    else:
        g.collapse_dimension(a, **kw)
    keep = [i for i in range(m.nd) if i not in ax]
    m.data = data
    for name in ('cen', 'pix', 'units', 'funits'):
        setattr(m, name, [getattr(m, name)[i] for i in keep])
    return 'collapse %s %s weights %s' % (ax, mode, kind), out


def op_sum(rng, g, m):
    if m.data is None:
        return None
    p = None if rng.random() < .4 else [int(i) for i in rng.permutation(m.nprop)[:rng.integers(1, m.nprop + 1)]]
    sel = m.data if p is None else m.data[..., p]
    s = sel.sum(axis=-1)[..., None]
    unit = shared([m.gunits[i] for i in (range(m.nprop) if p is None else p)])
    if rng.random() < .6:
        g.sum_properties(p)
        m.data = np.concatenate((m.data, s), axis=-1)
        m.nprop += 1
        m.gunits.append(unit)
        return 'sum_properties %s' % (p,)
    out = g.sum_properties(p, in_place=False)
    compare(compare_case[0], g, m, 'original after summing to a new grid')
    m.data = s
    m.nprop = 1
    m.gunits = [unit]
    return 'sum_properties %s new grid' % (p,), out


def shared(units):
    """The units a combination may have: theirs if they agree, or none stated."""
    return sorted(set.intersection(*map(set, units)) | {None}, key=str)


def op_newprop(rng, g, m):
    unit = shared(m.gunits)
    if m.data is None:
        g.add_new_prop()
        m.nprop += 1
        m.gunits.append(unit)
        return 'add_new_prop'
    kind = int(rng.integers(3))
    if kind == 0:
        g.add_new_prop()
        new = np.zeros(m.data.shape[:-1] + (1,))
    elif kind == 1:
        new = rng.normal(size=m.data.shape[:-1])
        g.add_new_prop(new)
        new = new[..., None]
    else:
        new = rng.normal(size=m.data.shape[:-1] + (int(rng.integers(1, 3)),))
        g.add_new_prop(new)
    m.data = np.concatenate((m.data, new), axis=-1)
    m.nprop += new.shape[-1]
    m.gunits += [unit] * new.shape[-1]
    return 'add_new_prop %d' % kind


compare_case = [None]
OPS = [('pad', op_pad), ('unpad', lambda r, g, m: op_pad(r, g, m, True)), ('crop', op_crop), ('scale', op_scale),
       ('down', op_down), ('collapse', op_collapse), ('sum', op_sum), ('newprop', op_newprop)]


def history(case, active):
    from simim.map.gridder import Grid
    rng = case.rng
    compare_case[0] = case
    g, geom = gl.make_grid(rng, Grid, nprop=int(rng.integers(1, 3)), active=active, nmax=9)
    if active:
        gl.fill(rng, g)
    m = Model(g, geom, active)
    compare(case, g, m, 'new grid')
    done = []
    if not active:
        case.observe('inactive_histories')
    for step in range(int(rng.integers(2, 9))):
        name, op = OPS[int(rng.integers(len(OPS)))]
        if m.nprop > 6 and name in ('sum', 'newprop'):
            continue
        if m.data is not None and m.data.size > 4e4 and name == 'pad':
            continue
        other = g.copy()
        snap = None if m.data is None else other.grid.copy()
        r = op(rng, g, m)
        if r is None:
            continue
        if isinstance(r, tuple):
            r, g = r
        done.append(name)
        case.note(r)
        case.observe('operations')
        case.observe('op_' + name)
        compare(case, g, m, 'after %s (step %d)' % (r, step))
        gl.monitor_geometry(case, other, 'a copy taken before ' + r)
        if snap is not None:
            case.check(np.array_equal(other.grid, snap), 'copy_shares_data', 'changing a grid changed a copy of it')
    if len(done) > 1:
        case.nontrivial(tuple(done), tuple(np.round(geom[0], 6)))
    case.sample('%s grid of %s cells: %s' % ('active' if active else 'inactive', geom[3].tolist(), case.log))


def active_history(case):
    history(case, True)


def inactive_history(case):
    history(case, False)


def fourier_padding(case):
    """Padding along an axis in Fourier space refines the same extent, and is undone by
    unpadding; axes in map space still pad in map space."""
    from simim.map.gridder import Grid
    rng = case.rng
    g, geom = gl.make_grid(rng, Grid, nprop=int(rng.integers(1, 3)), ndim=int(rng.integers(1, 4)))
    data = gl.fill(rng, g)
    nd = len(geom[3])
    fax = [int(i) for i in rng.permutation(nd)[:rng.integers(1, nd + 1)]]
    g.fourier_transform(fax)
    F = g.grid.copy()
    pads = [int(rng.integers(0, 4)) for _ in range(nd)]
    g.pad(list(range(nd)), pads)
    gl.monitor_geometry(case, g, 'after padding axes %s in Fourier space' % fax)
    for i in range(nd):
        n = geom[3][i] + 2 * pads[i]
        case.check(g.n_pixels[i] == n, 'fourier_pad', 'wrong number of pixels after padding')
        side = geom[1][i] if i in fax else n * geom[2][i]
        case.close(np.array(g.side_length[i]), np.array(side), 'fourier_pad', 'extent of axis %d (%s space)' % (i, 'Fourier' if i in fax else 'map'), rtol=1e-9)
        case.close(np.array(g.center_point[i]), np.array(geom[0][i]), 'fourier_pad', 'center of axis %d' % i, rtol=1e-9, atol=1e-9 * geom[2][i])
    sl = tuple(slice(p, p + n) for p, n in zip(pads, geom[3]))
    case.close(g.grid[sl], F, 'fourier_pad', 'the original values inside the padding', rtol=1e-12)
    case.close(np.abs(g.grid).sum(), np.abs(F).sum(), 'fourier_pad', 'padding is not zero', rtol=1e-9)
    # a plane wave stays the wave of the same wavenumber: compare the k of each retained cell
    for i in fax:
        k0 = (np.arange(geom[3][i]) - geom[3][i] // 2) / geom[1][i]
        case.close(g.fourier_axes_centers[i][pads[i]:pads[i] + geom[3][i]], k0, 'fourier_pad', 'wavenumbers of axis %d' % i, rtol=1e-8, atol=1e-9 / geom[1][i])
    h = g.copy()
    h.pad(list(range(nd)), [-p for p in pads])
    h.fourier_transform(fax)
    gl.monitor_geometry(case, h, 'after unpadding')
    case.close(h.grid.real, data, 'fourier_pad', 'pad, unpad and inverse transform', rtol=1e-8, atol=1e-10 * np.abs(data).max())
    case.refuses('fourier_crop', 'cropping an axis in Fourier space accepted', g.crop, fax[0], max=float(geom[0][fax[0]]))
    case.refuses('fourier_down', 'down-sampling an axis in Fourier space accepted', g.down_sample, fax[0], 1)
    case.observe('fourier_pads')
    case.nontrivial('fourier', tuple(geom[3]), tuple(pads), tuple(fax))


def fourier_history(case):
    """With some axes in Fourier space, reshaping the others is the same as reshaping them
    before the transform; the transformed axes, and their state, are left as they are."""
    from simim.map.gridder import Grid
    rng = case.rng
    compare_case[0] = case
    g, geom = gl.make_grid(rng, Grid, nprop=int(rng.integers(1, 3)), ndim=int(rng.integers(2, 4)), nmax=7)
    gl.fill(rng, g)
    m = Model(g, geom, True)
    tags = [bool(rng.random() < .5) for _ in range(m.nd)]
    if all(tags) or not any(tags):
        i = int(rng.integers(m.nd))
        tags[i] = not tags[i]
    fax = [i for i in range(m.nd) if tags[i]]
    g.fourier_transform([int(i) for i in rng.permutation(fax)])
    done = []
    for step in range(int(rng.integers(1, 4))):
        free = [i for i in range(m.nd) if not tags[i]]
        name = ['crop', 'down', 'pad', 'collapse', 'collapse', 'newprop', 'sum'][int(rng.integers(7))]
        if name in ('crop', 'down', 'pad', 'collapse') and (not free or (name == 'collapse' and m.nd < 2)):
            continue
        ax = free[int(rng.integers(len(free)))] if free else None
        new_grid = False
        if name == 'crop':
            a, b = np.sort(rng.integers(0, len(m.cen[ax]), size=2))
            g.crop(ax, min=m.cen[ax][a] - m.pix[ax] * .4, max=m.cen[ax][b] + m.pix[ax] * .4)
            m.cen[ax] = m.cen[ax][a:b + 1]
            m.data = np.moveaxis(np.moveaxis(m.data, ax, 0)[a:b + 1], 0, ax)
        elif name == 'down':
            x = int(rng.integers(1, min(3, len(m.cen[ax])) + 1))
            g.down_sample(ax, x, mode='sum')
            n = len(m.cen[ax]) // x
            m.cen[ax] = m.cen[ax][:n * x].reshape(n, x).mean(axis=1)
            m.pix[ax] *= x
            d = np.moveaxis(m.data, ax, 0)[:n * x]
            m.data = np.moveaxis(d.reshape((n, x) + d.shape[1:]).sum(axis=1), 0, ax)
        elif name == 'pad':
            w = int(rng.integers(1, 3))
            g.pad(ax, w)
            m.cen[ax] = m.cen[ax][0] + np.arange(-w, len(m.cen[ax]) + w) * m.pix[ax]
            widths = [(0, 0)] * m.data.ndim
            widths[ax] = (w, w)
            m.data = np.pad(m.data, widths)
        elif name == 'collapse':
            new_grid = bool(rng.random() < .5)
            before, state = g.grid.copy(), [bool(b) for b in g.fourier_space]
            out = g.collapse_dimension(ax, mode='sum', in_place=not new_grid)
            if new_grid:
                case.check(np.array_equal(g.grid, before) and [bool(b) for b in g.fourier_space] == state, 'not_in_place',
                           'collapsing a partly transformed grid to a new one changed it')
                g = out
            m.data = m.data.sum(axis=ax)
            for q in ('cen', 'pix', 'units', 'funits'):
                v = getattr(m, q)
                setattr(m, q, v[:ax] + v[ax + 1:])
            tags = tags[:ax] + tags[ax + 1:]
        elif name == 'newprop':
            g.add_new_prop()
            m.data = np.concatenate((m.data, np.zeros(m.data.shape[:-1] + (1,))), axis=-1)
            m.nprop += 1
            m.gunits.append(shared(m.gunits))
        else:
            new_grid = bool(rng.random() < .5)
            out = g.sum_properties(in_place=not new_grid)
            s = m.data.sum(axis=-1)[..., None]
            if new_grid:
                g, m.data, m.nprop, m.gunits = out, s, 1, [shared(m.gunits)]
            else:
                m.data, m.nprop = np.concatenate((m.data, s), axis=-1), m.nprop + 1
                m.gunits.append(shared(m.gunits))
        done.append((name, ax, new_grid))
        case.observe('operations')
        case.observe('partly_transformed')
        gl.monitor_geometry(case, g, 'partly transformed grid after %s' % (done[-1],))
        case.check([bool(b) for b in g.fourier_space] == tags, 'fourier_state',
                   lambda: 'after %s axes are in Fourier space: %s, expected %s' % (done, list(g.fourier_space), tags))
    back = g.copy()
    left = [i for i in range(m.nd) if tags[i]]
    if left:
        back.fourier_transform(left)
    scale = np.abs(m.data).max() or 1.
    case.close(back.grid.imag, np.zeros(m.data.shape), 'fourier_state', 'imaginary part after transforming back (%s)' % done, atol=1e-8 * scale)
    back.grid = back.grid.real
    case.close(back.grid, m.data, 'fourier_state', 'contents after transforming back (%s)' % done, rtol=1e-7, atol=1e-8 * scale)
    m.data = None
    compare(case, back, m, 'after transforming back')
    if done:
        case.nontrivial('partly', tuple(done), tuple(geom[3]))


def from_axes(case):
    """Grids built from edges have those edges, and functions are evaluated at the centers."""
    from simim.map import GridFromAxes, GridFromAxesAndFunction
    rng = case.rng
    nd = int(rng.integers(1, 4))
    edges, kinds = [], []
    for _ in range(nd):
        n = int(rng.integers(1, 40))
        kind = int(rng.integers(3))
        kinds.append(kind)
        if kind == 0:
            e = np.linspace(rng.uniform(-5, 5), rng.uniform(6, 20), n + 1)
        elif kind == 1:
            e = rng.uniform(-5, 5) + np.arange(n + 1) * rng.choice([.1, .3, .7, 1e-3, 12.5])
        else:
            e = np.arange(n + 1)
        edges.append(e)
    nprop = int(rng.integers(1, 4))
    g = GridFromAxes(*edges, n_properties=nprop)
    gl.monitor_geometry(case, g, 'GridFromAxes')
    case.check(int(g.n_properties) == nprop, 'from_axes', 'number of properties')
    for i in range(nd):
        tol = 1e-7 * (edges[i][1] - edges[i][0])
        case.close(g.axes[i], edges[i].astype(float), 'from_axes', 'edges of axis %d' % i, rtol=1e-9, atol=tol)
    co = rng.normal(size=nd + 1)
    small = [e[:6] for e in edges]

    def f(*c, shift=0.):
        out = shift + co[-1]
        for i, x in enumerate(c):
            s = [1] * nd
            s[i] = len(x)
            out = out + co[i] * np.asarray(x).reshape(s)
        return out
    h = GridFromAxesAndFunction(f, *small, function_kwargs={'shift': 2.5})
    gl.monitor_geometry(case, h, 'GridFromAxesAndFunction')
    cen = [(e[1:] + e[:-1]) / 2 for e in small]
    ref = np.zeros([len(c) for c in cen])
    for idx in np.ndindex(*ref.shape):
        ref[idx] = 2.5 + co[-1] + sum(co[i] * cen[i][j] for i, j in enumerate(idx))
    case.close(h.grid[..., 0], ref, 'from_function', 'function values at the cell centers', rtol=1e-8, atol=1e-9)
    bad = np.array([0., 1., 2.5, 3.])
    case.refuses('accepts_uneven', 'unevenly spaced edges accepted', GridFromAxes, bad)
    case.observe('operations', 2)
    case.nontrivial('axes', nd, tuple(len(e) for e in edges), tuple(kinds))


def refusals(case):
    from simim.map.gridder import Grid
    rng = case.rng
    g, geom = gl.make_grid(rng, Grid, nprop=2)
    gl.fill(rng, g)
    m = Model(g, geom, True)
    nd = m.nd
    for what, q in (('pad of a missing axis', lambda: g.pad(nd, 1)), ('pad of a negative axis', lambda: g.pad(-1, 1)),
                    ('removal of all cells', lambda: g.pad([0], -((int(geom[3][0]) + 1) // 2))),
                    ('pad of the wrong length', lambda: g.pad([0], [1, 1])),
                    ('removal of every cell', lambda: g.pad(0, -int(geom[3][0] + 1) // 2)),
                    ('removal of every cell of the last axis', lambda: g.pad(list(range(nd)), [0] * (nd - 1) + [-int(geom[3][-1] + 1) // 2])),
                    ('pad of the wrong length, two values', lambda: g.pad(0, [1, 1])),
                    ('crop of a missing axis', lambda: g.crop(nd)), ('crop of a negative axis', lambda: g.crop(-1)),
                    ('crop to an empty range', lambda: g.crop(0, min=float(geom[0][0] + geom[1][0]))),
                    ('crop to a range between two cell centers', lambda: g.crop(0, min=float(m.cen[0][0] + .2 * m.pix[0]),
                                                                             max=float(m.cen[0][0] + .7 * m.pix[0]))),
                    ('crop to a range without extent', lambda: g.crop(0, min=float(g.axes_centers[0][0]), max=float(g.axes_centers[0][0]))),
                    ('crop with max below min', lambda: g.crop(0, min=float(geom[0][0]), max=float(geom[0][0] - 1))),
                    ('scaling of a missing axis', lambda: g.scale_axis(nd, 2.)), ('scaling of a negative axis', lambda: g.scale_axis(-1, 2.)),
                    ('scaling by factors of the wrong length', lambda: g.scale_axis([0], [2., 2.])),
                    ('scaling with units of the wrong length', lambda: g.scale_axis([0, nd - 1], [2., 3.], axunits=['a', 'b', 'c'])),
                    ('down-sampling of a missing axis', lambda: g.down_sample(nd, 1)),
                    ('down-sampling of a negative axis', lambda: g.down_sample(-1, 1)),
                    ('down-sampling by more than there is', lambda: g.down_sample(0, int(geom[3][0]) + 1)),
                    ('down-sampling of every axis, of the last one by more than there is', lambda: g.down_sample(list(range(nd)), [max(1, min(2, int(n))) for n in geom[3][:-1]] + [int(geom[3][-1]) + 1])),
                    ('down-sampling of one axis more than once, by more than there is', lambda: g.down_sample([0, 0], [int(geom[3][0]), 2])),
                    ('down-sampling by nothing', lambda: g.down_sample(list(range(nd)), [1] * (nd - 1) + [int(rng.integers(-2, 1))])),
                    ('down-sampling of every axis and a missing one', lambda: g.down_sample(list(range(nd + 1)), 1)),
                    ('scaling to units that are no text', lambda: g.scale_axis(list(range(nd)), 2., axunits=['m'] * (nd - 1) + [3])),
                    ('scaling by what is no number', lambda: g.scale_axis(list(range(nd)), [2.] * (nd - 1) + ['three'], axunits='m')),
                    ('collapse of every axis and a missing one', lambda: g.collapse_dimension(list(range(nd + 1)))),
                    ('down-sampling in an unknown mode', lambda: g.down_sample(0, 1, mode='median')),
                    ('collapse of a missing axis', lambda: g.collapse_dimension(nd)),
                    ('collapse in an unknown mode', lambda: g.collapse_dimension(0, mode='median')),
                    ('collapse with weights of the wrong length', lambda: g.collapse_dimension(0, weights=np.ones(geom[3][0] + 1))),
                    ('a property of the wrong shape', lambda: g.add_new_prop(np.ones([int(k) + 1 for k in geom[3]]))),
                    ('a sum of a missing property', lambda: g.sum_properties([2]))):
        case.refuses('accepts_invalid', what + ' accepted', q)
        compare(case, g, m, 'after refusing ' + what)
    case.nontrivial('refusals', tuple(geom[3]))


SCENARIOS = [
    ('active_history', active_history, 500, 12000),
    ('inactive_history', inactive_history, 100, 2000),
    ('fourier_padding', fourier_padding, 120, 2500),
    ('fourier_history', fourier_history, 150, 3000),
    ('from_axes', from_axes, 150, 3000),
    ('refusals', refusals, 40, 500),
]
