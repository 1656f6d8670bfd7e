"""Case generators and reference computations shared by the grid checks."""
import numpy as np


LONG = .04      # how many grids have an axis of more cells than fit in small integers
VERY_LONG = 0.  # set by checks that can afford it: how many of those more than fit in two bytes


def rand_geometry(rng, ndim=None, dyadic=False, nmax=7, nmin=1):
    """center, side, pixel, n of a grid whose side is a whole number of pixels."""
    if ndim is None:
        ndim = int(rng.integers(1, 5))
    n = rng.integers(nmin, nmax + 1, size=ndim)
    if rng.random() < LONG:     # one long axis
        n = np.minimum(n, np.maximum(nmin, 2))
        very = VERY_LONG and rng.random() < VERY_LONG
        n[int(rng.integers(ndim))] = int(rng.integers(33000, 70000)) if very else [130, 200, 257, 300][int(rng.integers(4))]
    if dyadic:
        pix = 2.0 ** rng.integers(-2, 3, size=ndim)
        cen = rng.integers(-8, 9, size=ndim) * 0.5
    else:
        pix = 10.0 ** rng.uniform(-2, 2, size=ndim)
        cen = rng.uniform(-3, 3, size=ndim) * pix * 10 ** rng.uniform(-1, 1, size=ndim)
    return cen, pix * n, pix, n


def make_grid(rng, Grid, nprop=None, ndim=None, dyadic=False, nmax=7, nmin=1, active=True, units=True):
    cen, side, pix, n = rand_geometry(rng, ndim, dyadic, nmax, nmin)
    if nprop is None:
        nprop = int(rng.integers(1, 4))
    kw = {}
    if units and rng.random() < .5:
        kw['axunits'] = [['Mpc', 'GHz', 'deg', 'arcminute'][int(rng.integers(4))] for _ in range(len(n))]
    if units and rng.random() < .5:
        kw['gridunits'] = [['Jy', 'K', 'Lsun', 'Jy/sr'][int(rng.integers(4))] for _ in range(nprop)]
    g = Grid(nprop, tuple(cen), tuple(side), tuple(pix), **kw)
    if active:
        g.init_grid()
    return g, (cen, side, pix, n)


def fill(rng, g, integer=False, complex_=False):
    shape = g.grid.shape
    if integer:
        g.grid[...] = rng.integers(-50, 51, size=shape)
    else:
        g.grid[...] = rng.normal(size=shape) * 10 ** rng.uniform(-2, 2)
    return g.grid.copy()


def rand_positions(rng, geom, nobj, dyadic=False, outside=True):
    """Positions in, on the edges of, and outside a grid.  Returns positions and
    the reference cell index of each (-1 row where outside)."""
    cen, side, pix, n = geom
    nd = len(n)
    lo = cen - side / 2
    frac = np.empty((nobj, nd))
    cell = np.empty((nobj, nd), dtype=int)
    for d in range(nd):
        a, b = (-2, n[d] + 2) if outside else (0, n[d])
        c = rng.integers(a, b, size=nobj)
        # mostly inside
        inside = rng.random(nobj) < .8
        c = np.where(inside, rng.integers(0, n[d], size=nobj), c)
        cell[:, d] = c
        if dyadic:
            # fractions are exact: the edge itself, just inside both edges, the middle
            frac[:, d] = rng.choice([0.0, 0.0, 2.0 ** -20, .25, .5, 1 - 2.0 ** -20], size=nobj)
        else:
            frac[:, d] = rng.uniform(1e-3, 1 - 1e-3, size=nobj)
    pos = lo + (cell + frac) * pix
    if outside and nobj:
        far = rng.random(nobj) < .05
        for i in np.nonzero(far)[0]:
            d = int(rng.integers(nd))
            # so many cells off that short integers start again; or further
            off = int(rng.choice([-1, 1])) * 2 ** int(rng.choice([7, 8, 9, 15, 16, 17, 31, 32, 33]))
            pos[i, d] = [1e12, -1e12, np.inf, -np.inf, None, None, None, None][int(rng.integers(8))] or pos[i, d] + off * pix[d]
            if np.abs(pos[i, d] - cen[d]) <= side[d] / 2:    # a long axis reaches that far
                pos[i, d] = np.inf
            cell[i, d] = -1
    bad = np.any((cell < 0) | (cell >= n), axis=1)
    cell[bad] = -1
    return pos, cell


def place(shape, cell, values):
    """Reference gridding: one Python loop, one object at a time."""
    out = np.zeros(tuple(shape) + (values.shape[1],), dtype=values.dtype if values.dtype.kind == 'c' else float)
    count = 0
    for c, v in zip(cell, values):
        if c[0] >= 0:
            out[tuple(c)] += v
            count += 1
    return out, count


def geometry_of(g):
    """Everything a Grid says about its own geometry, as plain arrays."""
    return {
        'n_dimensions': int(g.n_dimensions), 'n_properties': int(g.n_properties),
        'center_point': np.array(g.center_point, float), 'side_length': np.array(g.side_length, float),
        'pixel_size': np.array(g.pixel_size, float), 'n_pixels': np.array(g.n_pixels, int),
        'axes': [np.array(a, float) for a in g.axes], 'axes_centers': [np.array(a, float) for a in g.axes_centers],
        'fourier_axes': [np.array(a, float) for a in g.fourier_axes],
        'fourier_axes_centers': [np.array(a, float) for a in g.fourier_axes_centers],
        'fourier_space': [bool(f) for f in g.fourier_space],
        'axunits': [u for u in np.atleast_1d(g.axunits)], 'gridunits': [u for u in np.atleast_1d(g.gridunits)],
    }


def monitor_geometry(case, g, where, units=True):
    """Consistency of a grid's description of itself: checked after every
    operation of every grid case."""
    G = geometry_of(g)
    nd = G['n_dimensions']
    case.observe('geometry_checks')
    for k in ('center_point', 'side_length', 'pixel_size', 'n_pixels'):
        case.check(G[k].shape == (nd,), 'geometry:length', lambda: '%s: %s has %s entries for %d dimensions' % (where, k, G[k].shape, nd))
    for k in ('axes', 'axes_centers', 'fourier_axes', 'fourier_axes_centers', 'fourier_space'):
        case.check(len(G[k]) == nd, 'geometry:length', lambda: '%s: %d %s for %d dimensions' % (where, len(G[k]), k, nd))
    for i in range(nd):
        n, p, s, c = int(G['n_pixels'][i]), G['pixel_size'][i], G['side_length'][i], G['center_point'][i]
        tol = 1e-7 * (abs(p) + 1e-4 * abs(c) + 1e-4 * abs(s))
        case.check(n >= 1 and abs(n * p - s) <= n * tol, 'geometry:side', lambda: '%s: axis %d: %d pixels of %r do not make side %r' % (where, i, n, p, s))
        edges = c + (np.arange(n + 1) - n / 2) * p
        case.close(G['axes'][i], edges, 'geometry:edges', '%s: cell edges of axis %d' % (where, i), rtol=1e-7, atol=tol)
        case.close(G['axes_centers'][i], (edges[1:] + edges[:-1]) / 2, 'geometry:centers', '%s: cell centers of axis %d' % (where, i), rtol=1e-7, atol=tol)
        k = (np.arange(n) - n // 2) / (n * p)
        dk = 1 / (n * p)
        case.close(G['fourier_axes_centers'][i], k, 'geometry:fourier_centers', '%s: Fourier centers of axis %d' % (where, i), rtol=1e-7, atol=1e-6 * dk)
        case.close(G['fourier_axes'][i], np.concatenate((k - dk / 2, [k[-1] + dk / 2])), 'geometry:fourier_edges', '%s: Fourier edges of axis %d' % (where, i), rtol=1e-7, atol=1e-6 * dk)
    if g.grid_active:
        case.check(tuple(g.grid.shape) == tuple(G['n_pixels']) + (G['n_properties'],), 'geometry:data_shape',
                   lambda: '%s: data of shape %s for %s pixels, %d properties' % (where, g.grid.shape, G['n_pixels'], G['n_properties']))
    if units:
        case.check(len(G['axunits']) == nd, 'geometry:axunits', lambda: '%s: %d axis units for %d dimensions' % (where, len(G['axunits']), nd))
        case.check(len(G['gridunits']) == G['n_properties'], 'geometry:gridunits', lambda: '%s: %d units for %d properties' % (where, len(G['gridunits']), G['n_properties']))
    return G
