"""C05: Fourier transforms and power spectra are those of the data, and are reversible."""
import numpy as np
import gridlib as gl

PROPERTY = 'C05'
NEEDS_DATA = False
RULE = ('a case is one random grid and a history of forward and inverse transforms over random sets of axes, compared after '
        'every step with an explicit sum over cells, or one (cross-)power spectrum compared with the product of such sums; '
        'non-trivial when the data have more than one cell along a transformed axis; told apart by geometry and history')
MINIMUM = {'transforms': 500, 'axes_forward': 300, 'axes_inverse': 200, 'power_spectra': 200, 'cross_spectra': 50,
           'mixed_property_spectra': 10, 'in_place_spectra': 30, 'unnormalised': 50}


def dft(data, i, k, n, dx, sign, norm):
    """Explicit Fourier sum along axis i between cells j*dx and wavenumbers k."""
    x = np.arange(n) * dx
    E = np.exp(sign * 2j * np.pi * np.outer(k, x))
    if sign > 0:
        E = E.T / n
        if norm:
            E = E / dx
    elif norm:
        E = E * dx
    return np.moveaxis(np.tensordot(E, data, axes=([1], [i])), 0, i)


def transform(model, state, ax, geom, norm):
    for i in ax:
        n, dx = int(geom[3][i]), geom[2][i]
        k = (np.arange(n) - n // 2) / (n * dx)
        if state[i]:
            model = dft(model, i, k, n, dx, +1, norm)
        else:
            model = dft(model, i, k, n, dx, -1, norm)
        state[i] = not state[i]
    return model


def pick_axes(rng, nd):
    r = rng.random()
    if r < .3:
        return None, list(range(nd))
    ax = [int(i) for i in rng.permutation(nd)[:rng.integers(1, nd + 1)]]
    return (ax if len(ax) > 1 or rng.random() < .5 else ax[0]), ax


def history(case):
    from simim.map.gridder import Grid
    rng = case.rng
    g, geom = gl.make_grid(rng, Grid, nmax=6, ndim=int(rng.integers(1, 4)))
    model = gl.fill(rng, g).astype(complex)
    state = [False] * len(geom[3])
    scale = np.abs(model).max()
    log = []
    norm = bool(rng.random() < .7)
    for step in range(int(rng.integers(1, 6))):
        arg, ax = pick_axes(rng, len(state))
        fwd = sum(not state[i] for i in ax)
        before = np.sum(np.abs(model) ** 2)
        was = list(state)
        model = transform(model, state, ax, geom, norm)
        case.note('transform %r normalize=%s' % (arg, norm))
        kw = {} if norm and rng.random() < .5 else {'normalize': norm}
        if arg is None:
            g.fourier_transform(**kw)
        else:
            g.fourier_transform(arg, **kw)
        what = 'after transform %d of axes %s' % (step, ax)
        case.check([bool(f) for f in g.fourier_space] == state, 'state', lambda: '%s: Fourier space %s, expected %s' % (what, g.fourier_space, state))
        case.close(g.grid, model, 'transform', '%s: contents' % what, rtol=1e-8, atol=1e-9 * max(np.abs(model).max(), 1e-300))
        gl.monitor_geometry(case, g, what)
        case.observe('transforms')
        case.observe('axes_forward', fwd)
        case.observe('axes_inverse', len(ax) - fwd)
        if not norm:
            case.observe('unnormalised')
        else:       # Parseval
            f = np.prod([1 / (geom[3][i] * geom[2][i]) / geom[2][i] if not was[i] else geom[3][i] * geom[2][i] * geom[2][i] for i in ax])
            after = np.sum(np.abs(g.grid) ** 2)
            case.close(np.array(after * f), np.array(before), 'parseval', '%s: summed power' % what, rtol=1e-7, atol=1e-12 * scale ** 2)
        log.append(tuple(ax))
    # and back
    g.fourier_transform([i for i in range(len(state)) if state[i]], normalize=norm)
    model = transform(model, state, [i for i in range(len(state)) if state[i]], geom, norm)
    case.check(not np.any(g.fourier_space), 'state', 'not back in map space')
    case.close(g.grid, model, 'round_trip', 'contents after the inverse transforms', rtol=1e-8, atol=1e-9 * scale)
    case.close(np.imag(g.grid), np.zeros(g.grid.shape), 'round_trip', 'imaginary part of a map', atol=1e-9 * scale)
    if any(geom[3][i] > 1 for a in log for i in a):
        case.nontrivial(tuple(geom[3]), tuple(log), norm)
    case.sample('cells %s, transforms of axes %s, normalize=%s' % (geom[3].tolist(), log, norm))


def spectra(case):
    from simim.map.gridder import Grid
    rng = case.rng
    g, geom = gl.make_grid(rng, Grid, nmax=6, ndim=int(rng.integers(1, 4)))
    nd = len(geom[3])
    d1 = gl.fill(rng, g)
    cross = rng.random() < .5
    h = d2 = None
    if cross:
        np1 = int(g.n_properties)
        np2 = np1 if rng.random() < .4 else (1 if np1 > 1 else int(rng.integers(1, 4)))
        h = Grid(np2, tuple(geom[0]), tuple(geom[1]), tuple(geom[2]), axunits=list(g.axunits))
        h.init_grid()
        d2 = gl.fill(rng, h)
        case.observe('cross_spectra')
        if np2 != np1:
            case.observe('mixed_property_spectra')
    norm = bool(rng.random() < .7)
    arg, ax = pick_axes(rng, nd)
    # some axes may be in Fourier space already
    pre1 = [i for i in range(nd) if rng.random() < .3]
    pre2 = [i for i in range(nd) if rng.random() < .3]
    if pre1:
        g.fourier_transform(pre1, normalize=norm)
    if cross and pre2:
        h.fourier_transform(pre2, normalize=norm)
    F1 = transform(d1.astype(complex), [False] * nd, ax, geom, norm)
    F2 = F1 if not cross else transform(d2.astype(complex), [False] * nd, ax, geom, norm)
    ref = (F1 * np.conj(F2)).real
    before1 = g.grid.copy()
    before2 = h.grid.copy() if cross else None
    in_place = bool(rng.random() < .35)
    kw = {'normalize': norm, 'in_place': in_place}
    if arg is not None:
        kw['ax'] = arg
    if cross:
        kw['cross_grid'] = h
    elif rng.random() < .2:
        kw['cross_grid'] = g
    case.note('power_spectrum %s in Fourier space: %s, %s' % ({k: v for k, v in kw.items() if k != 'cross_grid'}, pre1, pre2))
    P = g.power_spectrum(**kw)
    tol = 1e-9 * max(np.abs(ref).max(), 1e-300)
    case.close(P.grid, ref, 'power', 'power spectrum along axes %s' % ax, rtol=1e-7, atol=tol)
    case.check(not np.iscomplexobj(P.grid), 'power_type', 'the power spectrum is not real')
    case.check([bool(f) for f in P.fourier_space] == [i in ax for i in range(nd)], 'power_state', lambda: 'axes %s transformed, Fourier space %s' % (ax, P.fourier_space))
    case.check(bool(P.is_power_spectrum), 'power_state', 'the result does not say it is a power spectrum')
    case.check(int(P.n_properties) == ref.shape[-1], 'power_properties', lambda: '%r properties for %d products' % (P.n_properties, ref.shape[-1]))
    gl.monitor_geometry(case, P, 'power spectrum')
    if not cross:
        case.check(np.all(P.grid >= 0), 'power_sign', 'a power spectrum is negative')
    if in_place:
        case.observe('in_place_spectra')
        case.check(P is g, 'in_place', 'in_place=True returned another grid')
    else:
        case.check(P is not g, 'not_in_place', 'in_place=False returned the grid itself')
        case.check(not g.is_power_spectrum, 'not_in_place', 'in_place=False made the original a power spectrum')
        case.check([bool(f) for f in g.fourier_space] == [i in pre1 for i in range(nd)], 'not_in_place', 'in_place=False left the original transformed')
        case.close(g.grid, before1.astype(complex), 'not_in_place', 'the original\'s contents', rtol=1e-8, atol=1e-9 * np.abs(before1).max())
        gl.monitor_geometry(case, g, 'original of a power spectrum')
    if cross:
        case.check([bool(f) for f in h.fourier_space] == [i in pre2 for i in range(nd)] and not h.is_power_spectrum, 'cross_restored', 'the other grid was left transformed')
        case.close(h.grid, before2.astype(complex), 'cross_restored', 'the other grid\'s contents', rtol=1e-8, atol=1e-9 * np.abs(before2).max())
        gl.monitor_geometry(case, h, 'cross grid')
    Q = P if in_place else P
    case.refuses('power_again', 'a power spectrum of a power spectrum accepted', Q.power_spectrum)
    case.refuses('power_transformed', 'a transform of a power spectrum accepted', Q.fourier_transform)
    case.observe('power_spectra')
    case.nontrivial(tuple(geom[3]), tuple(ax), tuple(pre1), tuple(pre2), cross, in_place, norm)
    case.sample('cells %s axes %s cross=%s in_place=%s' % (geom[3].tolist(), ax, cross, in_place))


def refusals(case):
    from simim.map.gridder import Grid
    rng = case.rng
    g, geom = gl.make_grid(rng, Grid, nprop=2, ndim=2)
    d = gl.fill(rng, g)
    three = Grid(2, (0, 0, 0), 2, 1)
    three.init_grid()
    other = Grid(3, tuple(geom[0]), tuple(geom[1]), tuple(geom[2]))
    other.init_grid()
    empty = Grid(2, tuple(geom[0]), tuple(geom[1]), tuple(geom[2]))
    larger = Grid(2, tuple(geom[0]), tuple(geom[2] * (geom[3] + [2, 0])), tuple(geom[2]))
    larger.init_grid()
    large = gl.fill(rng, larger)
    for what, q in (('transform of a missing axis', lambda: g.fourier_transform(2)),
                    ('transform of a negative axis', lambda: g.fourier_transform([-1])),
                    ('transform of a grid without data', lambda: empty.fourier_transform()),
                    ('power spectrum of a missing axis', lambda: g.power_spectrum(ax=2)), ('power spectrum of a negative axis', lambda: g.power_spectrum(ax=-1)),
                    ('cross spectrum with other dimensions', lambda: g.power_spectrum(three)),
                    ('cross spectrum with other properties', lambda: g.power_spectrum(other)),
                    ('cross spectrum with a grid without data', lambda: g.power_spectrum(empty)),
                    ('cross spectrum with another number of cells', lambda: g.power_spectrum(larger, in_place=bool(rng.integers(2)))),
                    ('cross spectrum with no grid', lambda: g.power_spectrum(np.ones(3)))):
        case.refuses('accepts_invalid', what + ' accepted', q)
        case.check(np.array_equal(g.grid, d) and not np.any(g.fourier_space) and not g.is_power_spectrum, 'refusal_changes_grid', 'refusing a %s changed the grid' % what)
        case.check(np.array_equal(larger.grid, large) and not np.any(larger.fourier_space), 'refusal_changes_grid', 'refusing a %s changed the other grid' % what)
    case.nontrivial('refusals', tuple(geom[3]))


SCENARIOS = [
    ('history', history, 350, 9000),
    ('spectra', spectra, 350, 9000),
    ('refusals', refusals, 20, 300),
]
