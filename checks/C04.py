"""C04: sampling a grid returns the value of the cell that contains each position."""
import numpy as np
import gridlib as gl

PROPERTY = 'C04'
gl.VERY_LONG = .15
NEEDS_DATA = False
RULE = ('a case is one random grid, brought to its shape by a random history of reshaping operations, sampled at random '
        'positions in, between, on the edges of and outside its cells; compared with the stored value one position at a '
        'time; non-trivial when some positions are inside; told apart by geometry and placement')
MINIMUM = {'samples_inside': 5000, 'samples_outside': 500, 'subset_samples': 50, 'reshaped_grids': 50}


def reference(data, cell, props):
    out = np.full((len(cell), len(props)), np.nan)
    for i, c in enumerate(cell):
        if c[0] >= 0:
            out[i] = data[tuple(c)][props]
    return out


def sample_case(case, dyadic):
    from simim.map.gridder import Grid
    rng = case.rng
    g, geom = gl.make_grid(rng, Grid, dyadic=dyadic)
    gl.fill(rng, g)
    if not dyadic and rng.random() < .6:
        # reshape first: the geometry is then read off the model of C03
        case.observe('reshaped_grids')
        for _ in range(int(rng.integers(1, 4))):
            i = int(rng.integers(g.n_dimensions))
            k = int(rng.integers(4))
            if k == 0:
                g.pad(i, int(rng.integers(1, 3)), val=float(rng.normal()))
            elif k == 1:
                g.scale_axis(i, float(10 ** rng.uniform(-1, 1)), scalecenter=bool(rng.random() < .5))
            elif k == 2:
                g.down_sample(i, int(rng.integers(1, min(3, int(g.n_pixels[i])) + 1)))
            else:
                g.crop(i, min=float(g.axes_centers[i][int(rng.integers(len(g.axes_centers[i])))] - .4 * g.pixel_size[i]))
        cen = np.array([c.mean() for c in g.axes_centers])
        n = np.array([len(c) for c in g.axes_centers])
        pix = np.array(g.pixel_size, float)
        geom = (cen, pix * n, pix, n)
    gl.monitor_geometry(case, g, 'grid to sample')
    data = g.grid.copy()
    nprop = data.shape[-1]
    hit = []
    for _ in range(int(rng.integers(1, 4))):
        nobj = int(rng.choice([1, 5, 60, 200])) if rng.random() > .04 else int(rng.choice([300, 5000, 40000]))
        case.observe('large_catalogues', nobj > 255)
        pos, cell = gl.rand_positions(rng, geom, nobj, dyadic)
        if rng.random() < .1:
            pos[0] = np.nan
            cell[0] = -1
        kw = {}
        props = list(range(nprop))
        r = rng.random()
        if r < .4:
            props = [int(i) for i in rng.permutation(nprop)[:rng.integers(1, nprop + 1)]]
            kw['properties'] = props if len(props) > 1 or rng.random() < .5 else props[0]
            case.observe('subset_samples')
        p0 = pos.copy()
        with np.errstate(invalid='ignore'):
            got = g.sample(pos, **kw)
        case.check(np.array_equal(p0, pos, equal_nan=True), 'inputs_modified', 'the caller\'s positions were modified')
        ref = reference(data, cell, props)
        case.check(got.shape == ref.shape, 'shape', lambda: 'samples of shape %s, expected %s' % (got.shape, ref.shape))
        case.check(np.array_equal(got, ref, equal_nan=True), 'value', lambda: 'sampled values differ from the cells\' contents: first at %r: %r, expected %r' % (
            [(pos[i], got[i], ref[i]) for i in range(nobj) if not np.array_equal(got[i], ref[i], equal_nan=True)][0]))
        case.check(np.array_equal(g.grid, data), 'grid_modified', 'sampling changed the grid')
        got[...] = -1
        case.check(np.array_equal(g.grid, data), 'grid_aliased', 'samples share memory with the grid')
        inside = int((cell[:, 0] >= 0).sum())
        case.observe('samples_inside', inside)
        case.observe('samples_outside', nobj - inside)
        hit.append((nobj, inside, tuple(props)))
    gl.monitor_geometry(case, g, 'sampled grid')
    if sum(h[1] for h in hit):
        case.nontrivial(tuple(geom[3]), hit)
    case.sample('cells %s: (positions, inside, properties) %s' % (geom[3].tolist(), hit))


def dyadic(case):
    sample_case(case, True)


def generic(case):
    sample_case(case, False)


def round_trip(case):
    """What was gridded is found again where it was put."""
    from simim.map.gridder import Grid
    rng = case.rng
    g, geom = gl.make_grid(rng, Grid, nprop=2)
    nobj = int(rng.integers(1, 40))
    pos, cell = gl.rand_positions(rng, geom, nobj, outside=False)
    val = rng.integers(1, 9, size=(nobj, 2)).astype(float)
    g.add_from_cat(pos, val)
    ref, _ = gl.place(geom[3], cell, val)
    got = g.sample(pos)
    case.close(got, np.array([ref[tuple(c)] for c in cell]), 'round_trip', 'sampling at the gridded positions', rtol=1e-12)
    mesh = np.stack(np.meshgrid(*g.axes_centers, indexing='ij'), axis=-1).reshape(-1, len(geom[3]))
    got = g.sample(mesh)
    case.check(np.array_equal(got, ref.reshape(-1, 2)), 'round_trip', 'sampling every cell center does not return the grid')
    case.observe('samples_inside', nobj + len(mesh))
    case.check(g.sample(np.zeros((0, len(geom[3])))).shape == (0, 2), 'shape', 'sampling at no positions')
    case.refuses('accepts_wrong_dimensions', 'positions of the wrong dimensionality accepted', g.sample, np.zeros((2, len(geom[3]) + 1)))
    case.refuses('accepts_missing_property', 'a property that does not exist accepted', g.sample, pos, 2)
    case.refuses('accepts_missing_property', 'a negative property accepted', g.sample, pos, [0, -1])
    h, _ = gl.make_grid(rng, Grid, active=False)
    case.refuses('accepts_inactive', 'sampling a grid without data accepted', h.sample, np.zeros((1, int(h.n_dimensions))))
    case.nontrivial('trip', tuple(geom[3]), nobj)


SCENARIOS = [
    ('dyadic', dyadic, 250, 6000),
    ('generic', generic, 300, 8000),
    ('round_trip', round_trip, 80, 1500),
]
