"""C07: convolution with a beam is a linear convolution that keeps flux, and beams are
normalised Gaussians of the width asked for."""
import numpy as np
import gridlib as gl

PROPERTY = 'C07'
NEEDS_DATA = False
RULE = ('a case is one random grid convolved along random axes with a random source or a beam, compared with an explicit '
        'sum over source cells, or one beam compared with the Gaussian it describes; non-trivial when source and grid have '
        'more than one cell; told apart by shapes and axes')
MINIMUM = {'convolutions': 300, 'lower_dimensional_sources': 50, 'padded': 50, 'in_place': 50, 'beams': 100,
           'spectral_beams': 50, 'flux_checks': 30}


def direct(data, src, axes):
    """Linear convolution along axes, same size as data, source centered."""
    shape = [data.shape[i] + src.shape[i] - 1 if i in axes else data.shape[i] for i in range(data.ndim)]
    shape[-1] = max(data.shape[-1], src.shape[-1])
    full = np.zeros(shape)
    for off in np.ndindex(*[src.shape[i] if i in axes else 1 for i in range(data.ndim)]):
        sl = tuple(slice(o, o + data.shape[i]) if i in axes else slice(None) for i, o in enumerate(off))
        pick = tuple(slice(o, o + 1) if i in axes else slice(None) for i, o in enumerate(off))
        full[sl] += data * src[pick]
    out = tuple(slice((src.shape[i] - 1) // 2, (src.shape[i] - 1) // 2 + data.shape[i]) if i in axes else slice(None) for i in range(data.ndim))
    return full[out]


def convolution(case):
    from simim.map.gridder import Grid
    rng = case.rng
    nd = int(rng.integers(1, 4))
    g, geom = gl.make_grid(rng, Grid, ndim=nd, nmax=6)
    data = gl.fill(rng, g)
    nprop = data.shape[-1]
    snd = nd if rng.random() < .6 else int(rng.integers(1, nd + 1))
    if snd < nd:
        case.observe('lower_dimensional_sources')
    # axes of the convolution; elsewhere the source has one cell or as many as the grid
    if rng.random() < .4:
        axes, arg = list(range(snd)), None
    else:
        axes = [int(i) for i in rng.permutation(snd)[:rng.integers(1, snd + 1)]]
        arg = axes if len(axes) > 1 or rng.random() < .5 else axes[0]
    sn = [int(rng.integers(1, geom[3][i] + 1)) if i in axes else (1 if rng.random() < .5 else int(geom[3][i])) for i in range(snd)]
    sprop = 1 if rng.random() < .6 else nprop
    s = Grid(sprop, tuple(np.zeros(snd)), tuple(np.array(sn) * geom[2][:snd]), tuple(geom[2][:snd]))
    s.init_grid()
    src = gl.fill(rng, s)
    src_full = src.reshape(src.shape[:-1] + (1,) * (nd - snd) + (src.shape[-1],))
    ref = direct(data, src_full, axes)
    kw = {}
    if arg is not None:
        kw['ax'] = arg
    if rng.random() < .4:
        kw['pad'] = int(rng.integers(0, 4)) if rng.random() < .6 else tuple(int(i) for i in rng.integers(0, 4, size=len(axes)))
        case.observe('padded')
    in_place = bool(rng.random() < .5)
    if not in_place or rng.random() < .5:
        kw['in_place'] = in_place
    # padding only changes the cells of other axes when the source covers them fully
    case.note('convolve cells %s with %s %s' % (geom[3].tolist(), sn, kw))
    out = g.convolve(s, **kw)
    tol = 1e-9 * (np.abs(src).sum() * np.abs(data).max() + 1e-300)
    case.close(out.grid, ref, 'convolution', 'convolved contents', rtol=1e-7, atol=tol)
    gl.monitor_geometry(case, out, 'convolved grid')
    case.check(np.array_equal(s.grid, src), 'source_modified', 'the source grid was modified')
    if in_place:
        case.observe('in_place')
        case.check(out is g, 'in_place', 'in_place=True returned another grid')
    else:
        case.check(out is not g and np.array_equal(g.grid, data), 'not_in_place', 'in_place=False changed the original')
        gl.monitor_geometry(case, g, 'original of a convolution')
        for i in range(nd):
            case.check(np.allclose(out.axes[i], g.axes[i], rtol=1e-9, atol=1e-9 * geom[2][i]), 'axes', 'convolution moved the axes')
    case.check(tuple(out.n_pixels) == tuple(geom[3]), 'axes', 'convolution changed the number of cells')
    case.observe('convolutions')
    if max(sn) > 1 and data.size > 1:
        case.nontrivial(tuple(geom[3]), tuple(sn), tuple(axes), sprop, str(kw))
    case.sample('cells %s * %s along %s, %s' % (geom[3].tolist(), sn, axes, kw))


def sizes(rng):
    nd = int(rng.integers(1, 4))
    fwhm = rng.uniform(.5, 3, size=nd)
    pix = rng.uniform(.15, .5, size=nd) if nd < 3 else rng.uniform(.4, .8, size=nd)
    n = [int(np.ceil(6 * f / p)) for f, p in zip(fwhm, pix)]
    n = np.array([k + 1 - k % 2 if rng.random() < .7 else k for k in n])
    return nd, fwhm, pix, n


def beams(case):
    from simim.map import PSF
    rng = case.rng
    nd, fwhm, pix, n = sizes(rng)
    norm = 'area' if rng.random() < .5 else 'peak'
    same = rng.random() < .3
    if same:
        fwhm[:] = fwhm[0]
        pix[:] = pix[0]
        n[:] = n[0]
    kw = {'norm': norm} if norm == 'peak' or rng.random() < .5 else {}
    given = rng.random() < .7
    if given:
        side = n * pix
        kw['side_length'] = float(side[0]) if same else tuple(side)
    f = tuple(fwhm) if nd > 1 or rng.random() < .5 else float(fwhm[0])
    p = tuple(pix) if not same else float(pix[0])
    keep = np.copy(fwhm)
    B = PSF(f, p, **kw)
    gl.monitor_geometry(case, B, 'beam')
    if given:
        case.check(np.array_equal(B.n_pixels, n), 'beam_extent', lambda: 'beam of %s cells, %s asked for' % (B.n_pixels, n))
    else:
        for i in range(nd):
            case.check(abs(B.side_length[i] - 6 * fwhm[i]) <= 1.001 * pix[i], 'beam_extent', 'the default extent is not 6 FWHM')
    case.check(int(B.n_properties) == 1 and B.grid_active, 'beam', 'a beam has one property and data')
    case.check(np.allclose(B.center_point, 0), 'beam', 'the beam is not centered at the origin')
    v = np.ones([int(k) for k in B.n_pixels])
    for i in range(nd):
        k = int(B.n_pixels[i])
        x = (np.arange(k) - (k - 1) / 2) * pix[i]
        sh = [1] * nd
        sh[i] = -1
        v = v * (0.5 ** ((2 * x / fwhm[i]) ** 2)).reshape(sh)     # half at half the FWHM
    if norm == 'area':
        v = v / v.sum()
        case.close(np.array(B.grid.sum()), np.array(1.), 'beam_norm', 'total of a beam', rtol=1e-9)
    case.close(B.grid[..., 0], v, 'beam_shape', 'beam of FWHM %s (%s)' % (fwhm, norm), rtol=1e-6, atol=1e-9 * v.max())
    case.check(np.array_equal(fwhm, keep), 'inputs_modified', 'inputs modified')
    # flux of a map that is empty near its edges
    if norm == 'area' and nd < 3:
        from simim.map.gridder import Grid
        m = [int(k) * 2 + 5 for k in B.n_pixels]
        g = Grid(2, tuple(np.zeros(nd)), tuple(np.array(m) * pix), tuple(pix))
        g.init_grid()
        mid = tuple(slice(int(k), -int(k)) for k in B.n_pixels)
        g.grid[mid] = rng.uniform(0, 5, size=g.grid[mid].shape)
        before = g.grid.sum(axis=tuple(range(nd)))
        g.convolve(B)
        case.close(g.grid.sum(axis=tuple(range(nd))), before, 'flux', 'flux after convolution with a beam', rtol=1e-8)
        case.observe('flux_checks')
    case.refuses('accepts_invalid', 'unknown normalisation accepted', PSF, f, p, norm='volume')
    case.refuses('accepts_invalid', 'pixel sizes of the wrong length accepted', PSF, f, (1.,) * (nd + 1))
    case.refuses('accepts_invalid', 'side lengths of the wrong length accepted', PSF, f, p, side_length=(9.,) * (nd + 1))
    case.observe('beams')
    case.nontrivial('beam', nd, norm, tuple(np.round(fwhm, 6)))
    case.sample('beam of FWHM %s, pixels %s, %s' % (fwhm, pix, norm))


def spectral_beams(case):
    from simim.map import SpectralPSF
    rng = case.rng
    nd, fwhm, pix, n = sizes(rng)
    nd = min(nd, 2)
    fwhm, pix, n = fwhm[:nd], pix[:nd], n[:nd]
    nch = int(rng.integers(2, 8))
    spec = rng.uniform(50, 300) + np.arange(nch) * rng.choice([.1, 1., 7.5])
    spec0 = float(rng.uniform(spec[0], spec[-1]))
    exp = float(rng.choice([1, 1, .5, -1, 2]))
    norm = 'area' if rng.random() < .5 else 'peak'
    kw = {'norm': norm} if norm == 'peak' or rng.random() < .5 else {}
    if exp != 1 or rng.random() < .5:
        kw['exp'] = exp
    given = rng.random() < .7
    same = rng.random() < .3
    if same:
        fwhm[:], pix[:], n[:] = fwhm[0], pix[0], n[0]
    if given:
        kw['side_length'] = float(n[0] * pix[0]) if same else tuple(n * pix)
    p = float(pix[0]) if same else tuple(pix)
    f = tuple(fwhm) if nd > 1 or rng.random() < .5 else float(fwhm[0])
    order = slice(None, None, -1) if rng.random() < .2 else slice(None)
    B = SpectralPSF(spec[order], spec0, f, p, **kw)
    for i in range(nd):
        want = n[i] * pix[i] if given else 6 * fwhm[i] * np.max((spec0 / spec) ** exp)
        case.check(abs(B.side_length[i] - want) <= 1.001 * pix[i], 'beam_extent', lambda: 'a beam of %s along axis %d, %s asked for' % (B.side_length[i], i, want))
    case.check(int(B.n_properties) == 1 and B.grid_active, 'beam', 'a beam has one property and data')
    case.refuses('accepts_invalid', 'unknown normalisation accepted', SpectralPSF, spec, spec0, f, p, norm='volume')
    case.refuses('accepts_invalid', 'pixel sizes of the wrong length accepted', SpectralPSF, spec, spec0, f, (1.,) * (nd + 1) if nd > 0 else p)
    case.refuses('accepts_invalid', 'side lengths of the wrong length accepted', SpectralPSF, spec, spec0, f, p, side_length=(9.,) * (nd + 1))
    gl.monitor_geometry(case, B, 'spectral beam')
    case.close(B.axes_centers[-1], spec, 'spectral_axis', 'channels of the beam', rtol=1e-9)
    v = np.ones([int(k) for k in B.n_pixels])
    for i in range(nd):
        k = int(B.n_pixels[i])
        x = (np.arange(k) - (k - 1) / 2) * pix[i]
        for c in range(nch):
            w = fwhm[i] * (spec0 / spec[c]) ** exp
            sh = [1] * nd
            sh[i] = -1
            v[..., c] *= (0.5 ** ((2 * x / w) ** 2)).reshape(sh)
    if norm == 'area':
        v = v / v.sum(axis=tuple(range(nd)), keepdims=True)
        case.close(B.grid.sum(axis=tuple(range(nd)))[:, 0], np.ones(nch), 'beam_norm', 'total of each channel', rtol=1e-9)
    case.close(B.grid[..., 0], v, 'beam_shape', 'beam of FWHM %s at %s, exponent %s' % (fwhm, spec0, exp), rtol=1e-6, atol=1e-9 * v.max())
    # each channel of a cube is convolved with its own beam
    from simim.map.gridder import Grid
    m = [int(k) + 3 for k in B.n_pixels[:-1]] + [nch]
    px = np.concatenate((pix, [spec[1] - spec[0]]))
    g = Grid(1, tuple(np.concatenate((np.zeros(nd), [spec.mean()]))), tuple(np.array(m) * px), tuple(px))
    g.init_grid()
    at = tuple(k // 2 for k in m[:-1])
    flux = rng.uniform(1, 5, size=nch)
    g.grid[at + (slice(None), 0)] = flux
    ref = direct(g.grid.copy(), v[..., None], list(range(nd)))
    g.convolve(B, ax=list(range(nd)))
    case.close(g.grid, ref, 'convolution', 'cube convolved with a spectral beam', rtol=1e-6, atol=1e-9 * np.abs(ref).max())
    case.observe('spectral_beams')
    case.observe('convolutions')
    case.nontrivial('spectral', nd, nch, exp, norm, spec0)


def refusals(case):
    from simim.map.gridder import Grid
    rng = case.rng
    g, geom = gl.make_grid(rng, Grid, nprop=1, ndim=2)
    d = gl.fill(rng, g)
    s, _ = gl.make_grid(rng, Grid, nprop=1, ndim=3)
    e, _ = gl.make_grid(rng, Grid, nprop=1, ndim=2, active=False)
    n = [int(v) + 2 for v in geom[3]]      # another number of cells along the axis that is not convolved
    o = Grid(1, tuple(geom[0]), tuple(np.array(n) * geom[2]), tuple(geom[2]))
    o.init_grid()
    two = g.copy_axes(2)
    two.init_grid()
    gl.fill(rng, two)
    three = g.copy_axes(3)
    three.init_grid()
    for what, a, k in (('a source that does not match the other axis', o, {'ax': 0, 'pad': [None, 1, 2][int(rng.integers(3))]}), ('a source with too many dimensions', s, {}), ('a source of two properties', two, {'ax': 0, 'in_place': bool(rng.integers(2))}), ('a source of three properties', three, {'in_place': bool(rng.integers(2))}), ('a source without data', e, {}), ('a missing axis', g.copy(), {'ax': 2}),
                       ('padding of the wrong length', g.copy(), {'pad': (1, 1, 1)})):
        case.refuses('accepts_invalid', 'convolution with %s accepted' % what, g.convolve, a, **k)
        case.check(np.array_equal(g.grid, d), 'refusal_changes_grid', 'a refused convolution changed the grid')
        gl.monitor_geometry(case, g, 'after refusing %s' % what)
    h = g.copy()
    g.fourier_transform(0)
    case.refuses('accepts_fourier', 'convolution of a grid in Fourier space accepted', g.convolve, h)
    case.refuses('accepts_power', 'convolution of a power spectrum accepted', h.power_spectrum().convolve, h)
    case.nontrivial('refusals', tuple(geom[3]))


SCENARIOS = [
    ('convolution', convolution, 400, 9000),
    ('beams', beams, 150, 3000),
    ('spectral_beams', spectral_beams, 120, 2500),
    ('refusals', refusals, 10, 100),
]
