"""C09: a mapped field is the field seen through each detector's own response."""
import numpy as np
import gridlib as gl
import instlib as il

PROPERTY = 'C09'
NEEDS_DATA = False
RULE = ('a case is one random instrument of 1-4 detectors and 1-2 random fields, mapped with a random beam normalisation and '
        'kernel; each map is compared cell by cell with an explicit sum over beam cells and channels; non-trivial when the '
        'detectors differ or share responses in groups; told apart by detectors, geometry and mode')
MINIMUM = {'same_cells_other_frequencies': 30, 'maps': 300, 'shared_beams': 50, 'given_beams': 10, 'other_property': 50, 'integer_kernels': 30, 'default_kernels': 30}


def build(rng, ndet):
    from simim.instrument import Instrument
    dets = []
    for i in range(ndet):
        d = il.Det(rng, i)
        if i and rng.random() < .5:      # same beam as another detector, other spectral response
            o = dets[int(rng.integers(i))]
            d.spatial, d.spatial_kw, d.spatial_ref = o.spatial, dict(o.spatial_kw), o.spatial_ref
        elif i and rng.random() < .4:    # nearly the same one
            o = dets[int(rng.integers(i))]
            q = il.similar_spatial(rng, o.spatial, o.spatial_kw)
            if q is not None:
                d.spatial, d.spatial_kw, d.spatial_ref = q
        dets.append(d)
    return dets


def mapping(case):
    from simim.instrument import Instrument
    from simim.map.gridder import Grid
    rng = case.rng
    dets = build(rng, int(rng.integers(1, 5)) if rng.random() < .96 else int(rng.integers(10, 14)))
    res = float(rng.uniform(1.01, 2.)) if rng.random() < .4 else None
    inst = Instrument(spatial_unit='rad', spectral_unit='Hz', flux_unit='Jy', best_spatial_res=res)
    names = []
    for i, d in enumerate(dets):
        name = None if rng.random() < .3 else 'det%d' % i
        inst.add_detector(name=name, **d.arguments())
        names.append(str(i) if name is None else name)
    if len(dets) > 1 and any(dets[0].spatial_ref is d.spatial_ref for d in dets[1:]):
        case.observe('shared_beams')
    nf = int(rng.choice([1, 1, 2, 2, 3]))
    fields, props, fnames = [], [], []
    for i in range(nf):
        g = il.rand_field(rng, Grid, like=fields[-1] if fields and rng.random() < .6 else None)
        p = int(rng.integers(int(g.n_properties)))
        if p:
            case.observe('other_property')
        inst.add_field(g, name='f%d' % i, field_property_idx=p if p or rng.random() < .5 else None, in_place=bool(rng.random() < .5))
        fields.append(g)
        props.append(p)
        fnames.append('f%d' % i)
    keep = [g.grid.copy() for g in fields]
    norm = ['peak', 'area', 'none'][int(rng.integers(3))]
    kw = {} if norm == 'peak' and rng.random() < .5 else {'spatial_response_norm': norm}
    kernel = beam = None
    r = rng.random()
    if r < .2 and nf == 1:
        g = fields[0]
        b = Grid(1, (0, 0, float(g.center_point[2])), tuple(np.array([3, 3, int(g.n_pixels[2])]) * g.pixel_size), tuple(g.pixel_size))
        b.init_grid()
        b.grid[...] = rng.uniform(0, 1, size=b.grid.shape)
        beam = b.grid[..., 0].copy()
        kw['beam'] = b
        case.observe('given_beams')
    elif res is not None and r < .7:
        case.observe('default_kernels')
    elif r < .85:
        kernel = int(rng.integers(1, 9))
        kw['kernel_size'] = kernel
        case.observe('integer_kernels')
    else:
        kernel = rng.integers(1, 9, size=2)
        kw['kernel_size'] = kernel
    if rng.random() < .3:
        kw['pad'] = int(rng.integers(0, 4))
    which = fnames if rng.random() < .7 else fnames[:1]
    if len(which) > 1 and np.array_equal(fields[0].pixel_size, fields[1].pixel_size):
        case.observe('same_cells_other_frequencies')
    case.note('%d detectors, fields %s properties %s, %s' % (len(dets), [g.grid.shape for g in fields], props, {k: v for k, v in kw.items() if k != 'beam'}))
    inst.map_fields(*([] if which == fnames and rng.random() < .5 else which), **kw)
    for f in which:
        i = fnames.index(f)
        g = fields[i]
        pix = np.asarray(g.pixel_size, float)
        ax = il.axes_of(g)
        k = kernel if kernel is not None else (np.round(res / pix[:2]).astype(int) * 10 + 1 if res is not None else None)
        M = inst.maps[f]
        case.check(M.grid.shape == (int(g.n_pixels[0]), int(g.n_pixels[1]), len(dets)), 'map_shape', lambda: 'map of shape %s for %d detectors, field %s' % (M.grid.shape, len(dets), g.grid.shape))
        for j, d in enumerate(dets):
            ref = il.map_ref(d, keep[i][..., props[i]], pix, ax[2], k, norm, beam)
            scale = np.abs(keep[i]).sum() * (1 if norm != 'none' else 5)
            case.close(M.grid[..., j], ref, 'map', 'map of field %d property %d by detector %d (%s)' % (i, props[i], j, norm), rtol=1e-7, atol=1e-9 * scale)
            case.observe('maps')
        for a in range(2):
            case.close(M.axes_centers[a], ax[a], 'map_axes', 'axis %d of the map' % a, rtol=1e-9, atol=1e-9)
        gl.monitor_geometry(case, M, 'map')
    for g, k0 in zip(fields, keep):
        case.check(np.array_equal(g.grid, k0), 'field_modified', 'mapping changed the field')
        gl.monitor_geometry(case, g, 'field')
    case.nontrivial([(str(d.spatial), str(d.spectral)) for d in dets], [g.grid.shape for g in fields], norm, str(kw.get('kernel_size')))
    case.sample('%d detectors %s, fields %s, norm %s' % (len(dets), [(getattr(d.spatial, '__name__', d.spatial), getattr(d.spectral, '__name__', d.spectral)) for d in dets], [g.grid.shape for g in fields], norm))


def responses(case):
    """The built-in responses are the documented functions."""
    from simim.instrument import gauss_psf, gauss_psf_freq_dependent, gauss_response, boxcar_response
    rng = case.rng
    x, y = np.sort(rng.normal(size=int(rng.integers(1, 6)))), np.sort(rng.normal(size=int(rng.integers(1, 6))))
    f = np.sort(rng.uniform(50, 150, size=int(rng.integers(1, 6))))
    kw = dict(fwhmx=float(rng.uniform(.3, 3)), fwhmy=float(rng.uniform(.3, 3)), cx=float(rng.normal()), cy=float(rng.normal()))
    case.close(gauss_psf(x, y, f, **kw), il.gauss(x, y, f, **kw), 'responses', 'Gaussian beam', rtol=1e-9)
    case.close(gauss_psf(list(x), list(y), list(f)), il.gauss(x, y, f), 'responses', 'Gaussian beam, defaults', rtol=1e-9)
    e = float(rng.choice([-1, -2, 0, .5]))
    f0 = float(rng.uniform(50, 150))
    case.close(gauss_psf_freq_dependent(x, y, f, freq0=f0, freq_exp=e, **kw), il.specgauss(x, y, f, freq0=f0, freq_exp=e, **kw), 'responses', 'frequency dependent beam', rtol=1e-8)
    case.close(gauss_psf_freq_dependent(x, y, f, freq0=f0, **kw), il.specgauss(x, y, f, freq0=f0, **kw), 'responses', 'frequency dependent beam, default exponent', rtol=1e-8)
    A, w = float(rng.uniform(.5, 3)), float(rng.uniform(1, 30))
    case.close(gauss_response(f, A=A, freq0=f0, fwhm=w), il.sgauss(f, A, f0, w), 'responses', 'Gaussian spectral response', rtol=1e-9)
    sure = np.abs(np.abs(f - f0) - w / 2) > 1e-9
    case.close(boxcar_response(f, A=A, freq0=f0, width=w)[sure], il.sbox(f, A, f0, w)[sure], 'responses', 'boxcar spectral response', rtol=1e-12)
    case.close(boxcar_response(np.array([96., 104.]), freq0=100, width=8), np.array([1., 1.]), 'responses', 'boxcar edges')
    case.nontrivial('responses', f0, e)


def refusals(case):
    from simim.instrument import Instrument
    from simim.map.gridder import Grid
    rng = case.rng
    inst = Instrument(spatial_unit='rad', spectral_unit='Hz', flux_unit='Jy')
    inst.add_detector(name='a', **il.Det(rng, 0).arguments())
    g = il.rand_field(rng, Grid, nprop=2)
    inst.add_field(g, name='f')
    b = Grid(1, (0, 0, 0), tuple(3 * g.pixel_size), tuple(g.pixel_size))
    b.init_grid()
    for what, q in (('mapping with no way to size the beam', lambda: inst.map_fields()),
                    ('mapping with both a beam and a kernel size', lambda: inst.map_fields(beam=b, kernel_size=3)),
                    ('mapping of a missing field', lambda: inst.map_fields('g', kernel_size=3)),
                    ('mapping a field twice at once', lambda: inst.map_fields('f', 'f', kernel_size=3)),
                    ('an unknown beam normalisation', lambda: inst.map_fields(kernel_size=3, spatial_response_norm='volume'))):
        case.refuses('accepts_invalid', what + ' accepted', q)
        case.refuses('refused_map_used', 'sampling after refusing ' + what, inst.sample_fields, np.zeros((1, 2)), sample_noise=False)
    case.nontrivial('refusals', g.grid.shape)


SCENARIOS = [
    ('mapping', mapping, 350, 6000),
    ('responses', responses, 100, 1000),
    ('refusals', refusals, 5, 50),
]
