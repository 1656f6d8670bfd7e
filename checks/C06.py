"""C06: shell averages include every cell of a shell once, with its weight."""
import warnings

import numpy as np
import gridlib as gl

PROPERTY = 'C06'
NEEDS_DATA = False
RULE = ('a case is one random grid (map, Fourier or power spectrum), a set of averaged axes, a center, shells and weights; '
        'averages, counts and deviations are compared with a loop over cells; cases in which a cell lies within rounding '
        'of a shell edge are set aside; non-trivial when at least two shells are populated; told apart by geometry and shells')
MINIMUM = {'mixed_averages': 20, 'complex_maps': 20, 'averages': 300, 'populated_shells': 1000, 'weighted': 50, 'std_checked': 50, 'partial_axes': 50,
           'fourier_averages': 30, 'power_averages': 30, 'default_shells': 30}


def average(case):
    from simim.map.gridder import Grid
    rng = case.rng
    nd = int(rng.integers(1, 4))
    g, geom = gl.make_grid(rng, Grid, ndim=nd, nmax=7, nprop=int(rng.integers(1, 3)), units=False)
    gl.fill(rng, g)
    space = ['map', 'map', 'fourier', 'power', 'mixed'][int(rng.integers(5))]
    ax = list(range(nd)) if rng.random() < .5 else [int(i) for i in rng.permutation(nd)[:rng.integers(1, nd + 1)]]
    four = np.full(nd, space in ('fourier', 'power'))
    if space == 'mixed':
        # averaged axes are all in one space, others in any
        ax = [int(i) for i in rng.permutation(nd)[:rng.integers(1, max(nd, 2))]]
        four = rng.random(nd) < .5
        four[ax] = bool(rng.random() < .5)
        if rng.random() < .5:
            g.fourier_transform([i for i in range(nd) if four[i]])
        elif four.any():
            g = g.power_spectrum(ax=[i for i in range(nd) if four[i]])
            case.observe('power_averages')
        if len(set(four)) > 1:
            case.observe('mixed_averages')
    elif space == 'map' and rng.random() < .2:
        g.fourier_transform()
        g.fourier_transform()   # there and back
        case.observe('complex_maps')
    if space == 'fourier':
        g.fourier_transform()
        case.observe('fourier_averages')
    elif space == 'power':
        g = g.power_spectrum()
        case.observe('power_averages')
    cen = np.where(four, 0., geom[0])
    axv = [(np.arange(n) - n // 2) / s if f else c + (np.arange(n) - (n - 1) / 2) * p for c, s, p, n, f in zip(*geom[:4], four)]
    step = np.where(four, 1 / geom[1], geom[2])
    kw = {}
    if rng.random() < .5:
        cen = cen + rng.normal(size=nd) * step * 2
        kw['center'] = tuple(cen) if rng.random() < .5 else cen
    if len(ax) < nd or rng.random() < .3:
        kw['ax'] = ax if len(ax) > 1 or rng.random() < .5 else ax[0]
    data = g.grid.copy()
    rad = np.zeros([int(n) for n in geom[3]])
    for i in ax:
        s = [1] * nd
        s[i] = -1
        rad = rad + (axv[i] - cen[i]).reshape(s) ** 2
    rad = np.sqrt(rad)
    rmax = rad.max()
    auto = rng.random() < .5
    mode = 'linear'
    if auto:
        if rng.random() < .6:
            kw['shells'] = int(rng.integers(1, 8))
        else:
            case.observe('default_shells')
        if rng.random() < .4:
            kw['binmode'] = mode = 'log'
    else:
        k = int(rng.integers(1, 8))
        kw['shells'] = np.sort(rng.uniform(0, 1.2 * rmax + 1e-12, size=k + 1))
        if np.any(np.diff(kw['shells']) <= 0):
            return
        if rng.random() < .3:
            kw['shells'] = list(kw['shells'])
    wfull = np.ones(data.shape)
    if rng.random() < .5:
        case.observe('weighted')
        if rng.random() < .5:
            w = rng.uniform(.1, 2, size=data.shape[:-1])
            wfull = np.repeat(w[..., None], data.shape[-1], axis=-1)
        else:
            w = rng.uniform(.1, 2, size=data.shape)
            wfull = w.copy()
        if rng.random() < .3:
            w = np.ceil(w).astype(int)
            wfull = np.ceil(wfull)
        kw['weights'] = w
    want_std = rng.random() < .5
    want_n = rng.random() < .6
    biased = bool(rng.random() < .6)
    if want_std:
        kw['return_std'] = True
        if not biased:
            kw['biased_std'] = False
    if want_n:
        kw['return_n'] = True
    if auto and np.ptp(rad) <= 1e-9 * max(rmax, 1e-300):
        return      # a single radius: there is no automatic shell
    if auto and mode == 'log' and np.ptp(rad[rad > 1e-9 * rmax]) <= 1e-9 * rmax:
        return
    case.note('%s %s' % (space, {k: (v if not hasattr(v, 'shape') else v.shape) for k, v in kw.items()}))
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        out = g.spherical_average(**kw)
    axes, avg = out[0], out[1]
    i = 2
    n_got = std_got = None
    if want_n:
        n_got = out[i]
        i += 1
    if want_std:
        std_got = out[i]
        i += 1
    case.check(len(out) == i, 'returns', lambda: '%d results returned' % len(out))
    shells = np.array(axes[0], float)
    keep = [i for i in range(nd) if i not in ax]
    if len(keep):
        case.observe('partial_axes')
    # what the axes of the result say
    case.check(len(axes) == len(keep) + 2, 'axes', 'wrong number of axes returned')
    for j, i in enumerate(keep):
        case.close(axes[1 + j], axv[i], 'axes', 'axis %d of the average' % i, rtol=1e-7, atol=1e-7 * step[i])
    case.check(np.all(np.diff(shells) > 0), 'shells', 'shells are not increasing')
    if auto:
        case.check(len(shells) == kw.get('shells', 10) + 1, 'shells', 'wrong number of shells')
        zero = 1e-9 * rmax
        lo = rad[rad > zero].min() if mode == 'log' and rad.min() <= zero else rad.min()
        case.check(abs(shells[0] - lo) <= 1e-7 * rmax, 'shells', 'automatic shells do not start at the smallest radius')
        case.check(rmax <= shells[-1] * (1 + 1e-15) and shells[-1] <= rmax * (1 + 1e-6), 'shells', 'automatic shells do not end just beyond the largest radius')
        d = np.diff(shells if mode == 'linear' else np.log(shells))
        case.check(np.allclose(d, d[0], rtol=1e-6), 'shells', 'automatic shells are not evenly spaced')
    else:
        case.close(shells, np.array(kw['shells'], float), 'shells', 'shells returned', rtol=1e-12)
    # which shell each cell is in; the ends of automatic shells are meant to include their cells
    where = np.searchsorted(shells, rad, side='right') - 1
    tol = 1e-9 * max(rmax, 1e-300)
    if auto:
        low = np.abs(rad - shells[0]) <= tol
        where[low & (rad >= lo * (1 - 1e-12))] = 0
        near_end = np.abs(rad - rmax) <= tol
        where[near_end] = len(shells) - 2
        inner = shells[1:-1]
    else:
        inner = shells
    if len(inner) and np.min(np.abs(rad[..., None] - inner)) <= tol:
        case.observe('set_aside')
        return
    ns = len(shells) - 1
    shape = [ns] + [int(geom[3][i]) for i in keep] + [data.shape[-1]]
    case.check(list(avg.shape) == shape, 'shape', lambda: 'average of shape %s, expected %s' % (avg.shape, shape))
    S = np.zeros(shape, complex)
    W = np.zeros(shape)
    W2 = np.zeros(shape)
    N = np.zeros(shape, int)
    members = {}
    for idx in np.ndindex(*data.shape):
        b = int(where[idx[:-1]])
        if 0 <= b < ns:
            o = (b,) + tuple(idx[i] for i in keep) + (idx[-1],)
            S[o] += data[idx] * wfull[idx]
            W[o] += wfull[idx]
            W2[o] += wfull[idx] ** 2
            N[o] += 1
            members.setdefault(o, []).append((data[idx], wfull[idx]))
    with np.errstate(all='ignore'):
        ref = S / W
    ref[W == 0] = np.nan
    pop = int((N.reshape(ns, -1).sum(axis=1) > 0).sum())
    dscale = np.abs(data).max()
    case.check(four.any() or np.isrealobj(avg), 'real', 'averages of a map are complex')
    got = np.asarray(avg).astype(complex)
    case.check(np.array_equal(np.isnan(got), W == 0), 'populated', 'empty shells are not the empty ones')
    ok = W > 0
    case.close(got[ok], ref[ok], 'average', 'shell averages (%s)' % space, rtol=1e-8, atol=1e-9 * dscale)
    if n_got is not None:
        case.check(np.array_equal(n_got, N), 'counts', lambda: 'cells per shell %s, expected %s' % (np.ravel(n_got)[:10], N.ravel()[:10]))
    if std_got is not None:
        r = np.full(shape, np.nan)
        for o, mem in members.items():
            x = np.array([m[0] for m in mem])
            w = np.array([m[1] for m in mem])
            var = np.sum(w * np.abs(x - np.sum(w * x) / w.sum()) ** 2)
            den = w.sum() if biased else w.sum() - (w ** 2).sum() / w.sum()
            r[o] = np.sqrt(var / den) if den > 1e-9 else np.nan
        fin = np.isfinite(r)
        case.close(np.asarray(std_got)[fin], r[fin], 'std', 'deviation in shells (biased=%s)' % biased, rtol=1e-6, atol=1e-7 * dscale)
        case.observe('std_checked')
    case.check(np.array_equal(g.grid, data), 'grid_modified', 'averaging changed the grid')
    gl.monitor_geometry(case, g, 'averaged grid')
    case.observe('averages')
    case.observe('populated_shells', pop)
    if pop > 1:
        case.nontrivial(space, tuple(geom[3]), tuple(ax), tuple(np.round(shells, 8)))
    case.sample('%s, cells %s, axes %s, %d shells, %d populated' % (space, geom[3].tolist(), ax, ns, pop))


def conservation(case):
    """Automatic linear shells leave no cell out: counts and weighted sums add up."""
    from simim.map.gridder import Grid
    rng = case.rng
    g, geom = gl.make_grid(rng, Grid, nmin=2, nmax=9, ndim=int(rng.integers(1, 4)), units=False)
    data = gl.fill(rng, g)
    kw = {'center': tuple(geom[0] + rng.normal(size=len(geom[0])) * geom[1])} if rng.random() < .7 else {}
    k = int(rng.integers(1, 30))
    c = kw.get('center', geom[0])
    rad = sum((a.reshape([-1 if j == i else 1 for j in range(len(c))]) - c[i]) ** 2 for i, a in enumerate(g.axes_centers))
    if np.ptp(rad) <= 1e-9 * rad.max():
        return      # a single radius: there is no automatic shell
    _, avg, n = g.spherical_average(shells=k, return_n=True, **kw)
    case.check(np.all(n.sum(axis=0) == np.prod(geom[3])), 'conservation', lambda: '%s cells in shells, grid has %d' % (n.sum(axis=0), np.prod(geom[3])))
    tot = np.nansum(np.where(n > 0, avg * n, 0), axis=0)
    case.close(tot, data.reshape(-1, data.shape[-1]).sum(axis=0), 'conservation', 'sum over shells', rtol=1e-8, atol=1e-9 * np.abs(data).sum())
    case.observe('averages')
    case.observe('populated_shells', int((n[:, 0] > 0).sum()))
    case.nontrivial('conservation', tuple(geom[3]), k)


def refusals(case):
    from simim.map.gridder import Grid
    rng = case.rng
    g, geom = gl.make_grid(rng, Grid, nprop=1, ndim=2, nmin=2)
    for what, kw in (('a missing axis', {'ax': 2}), ('a center of the wrong dimensions', {'center': (0,)}), ('no shells', {'shells': 0}),
                     ('decreasing shells', {'shells': [3., 2., 1.]}), ('an unknown bin mode', {'binmode': 'cubic'}),
                     ('weights of the wrong shape', {'weights': np.ones((int(geom[3][0]) + 1, int(geom[3][1])))})):
        case.refuses('accepts_invalid', 'averaging with %s accepted' % what, g.spherical_average, **kw)
    g.fourier_transform(0)
    case.refuses('accepts_mixed', 'averaging over axes in different spaces accepted', g.spherical_average)
    h, _ = gl.make_grid(rng, Grid, active=False)
    case.refuses('accepts_inactive', 'averaging a grid without data accepted', h.spherical_average)
    case.nontrivial('refusals', tuple(geom[3]))


SCENARIOS = [
    ('average', average, 700, 12000),
    ('conservation', conservation, 150, 3000),
    ('refusals', refusals, 10, 100),
]
