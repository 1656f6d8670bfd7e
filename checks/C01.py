"""C01: gridding a catalogue puts every object, once, into the cell that contains it."""
import numpy as np
import gridlib as gl

PROPERTY = 'C01'
gl.VERY_LONG = .15
NEEDS_DATA = False
RULE = ('a case is one random grid (1-4 dimensions, 1-7 cells per axis) and a history of catalogue additions to it, '
        'each compared cell by cell with a one-object-at-a-time reference; non-trivial when objects fell both inside and '
        'outside the grid or some cell received more than one object; told apart by geometry and placement')
MINIMUM = {'objects_placed': 1000, 'objects_dropped': 100, 'shared_cells': 50, 'subset_additions': 10,
           'new_property_additions': 10, 'edge_objects': 100, 'objects_on_values': 100, 'sides_not_whole': 50, 'large_catalogues': 10}


def values_for(rng, nobj, ncol, integer):
    if integer:
        return rng.integers(-20, 21, size=(nobj, ncol)).astype(float)
    return rng.normal(size=(nobj, ncol)) * 10 ** rng.uniform(-3, 3)


def history(case, dyadic):
    from simim.map.gridder import Grid
    rng = case.rng
    g, geom = gl.make_grid(rng, Grid, dyadic=dyadic)
    n = geom[3]
    model = np.zeros(g.grid.shape)
    total = 0
    sig = []
    for step in range(int(rng.integers(1, 5))):
        nobj = int(rng.choice([0, 1, 2, 5, 20, 60])) if rng.random() > .04 else int(rng.choice([300, 5000, 40000]))
        case.observe('large_catalogues', nobj > 255)
        pos, cell = gl.rand_positions(rng, geom, nobj, dyadic)
        integer = rng.random() < .6
        nprop = model.shape[-1]
        mode = rng.choice(['all', 'one', 'subset', 'subset_one', 'new', 'count'])
        kw = {}
        if mode == 'count' and nprop != 1:
            mode = 'all'
        if mode == 'all':
            val = values_for(rng, nobj, nprop, integer)
            target = list(range(nprop))
        elif mode == 'one':
            val = values_for(rng, nobj, 1, integer)
            target = list(range(nprop))
        elif mode in ('subset', 'subset_one'):
            target = [int(t) for t in rng.permutation(nprop)[:rng.integers(1, nprop + 1)]]
            val = values_for(rng, nobj, 1 if mode == 'subset_one' else len(target), integer)
            kw['properties'] = target if len(target) > 1 or rng.random() < .5 else target[0]
            case.observe('subset_additions')
        elif mode == 'new':
            k = int(rng.integers(1, 3))
            val = values_for(rng, nobj, k, integer)
            kw['new_props'] = True
            target = list(range(nprop, nprop + k))
            model = np.concatenate((model, np.zeros(model.shape[:-1] + (k,))), axis=-1)
            case.observe('new_property_additions')
        else:
            val = None
            target = [0]
        case.note('%s nobj=%d properties=%r' % (mode, nobj, kw))
        p_in, v_in = pos.copy(), None if val is None else val.copy()
        if val is not None and val.shape[1] == 1 and rng.random() < .3:
            v_in = v_in[:, 0]
        p_keep = p_in.copy()
        v_keep = None if v_in is None else v_in.copy()
        as_list = nobj > 0 and rng.random() < .15
        with np.errstate(invalid='ignore'):
            if v_in is None:
                g.add_from_cat(p_in.tolist() if as_list else p_in, **kw)
            else:
                g.add_from_cat(p_in.tolist() if as_list else p_in, v_in.tolist() if as_list else v_in, **kw)
        case.check(np.array_equal(p_in, p_keep) and (v_in is None or np.array_equal(v_in, v_keep)),
                   'inputs_modified', 'the caller\'s arrays were modified')
        ref, count = gl.place(n, cell, np.ones((nobj, 1)) if val is None else val)
        for j, t in enumerate(target):
            model[..., t] += ref[..., min(j, ref.shape[-1] - 1)]
        total += count
        hits = np.bincount(np.ravel_multi_index(tuple(cell[cell[:, 0] >= 0].T), tuple(n)), minlength=1) if count else np.zeros(1, int)
        case.observe('objects_placed', count)
        case.observe('objects_dropped', nobj - count)
        case.observe('shared_cells', int(np.sum(hits > 1)))
        if dyadic:
            case.observe('edge_objects', nobj)
        if (0 < count < nobj) or hits.max() > 1:
            sig.append((mode, nobj, count, tuple(hits[:20])))
        scale = 0 if val is None else np.abs(val).sum()
        case.check(g.grid.shape == model.shape, 'shape', lambda: 'grid shape %s, expected %s' % (g.grid.shape, model.shape))
        case.close(g.grid, model, 'placement', 'cell contents after step %d (%s)' % (step, mode), rtol=1e-10, atol=1e-12 * scale)
        case.check(int(g.n_objects) == total, 'count', lambda: 'object count %r, %d were placed' % (g.n_objects, total))
        gl.monitor_geometry(case, g, 'after add')
    if sig:
        case.nontrivial(tuple(n), sig)
    case.sample('cells %s, steps %s, %d objects in the grid' % (n.tolist(), [s[0] for s in sig], total))


def exact_edges(case):
    history(case, True)


def generic(case):
    history(case, False)


def batches(case):
    """The same catalogue in one call, in batches, and in any order."""
    from simim.map.gridder import Grid
    rng = case.rng
    g1, geom = gl.make_grid(rng, Grid, nmin=2)
    nobj = int(rng.integers(2, 80)) if rng.random() > .06 else int(rng.integers(300, 5000))
    pos, cell = gl.rand_positions(rng, geom, nobj)
    val = rng.integers(-9, 10, size=(nobj, int(g1.n_properties))).astype(float)
    g2, g3 = g1.copy(), g1.copy()
    with np.errstate(invalid='ignore'):
        g1.add_from_cat(pos, val)
        perm = rng.permutation(nobj)
        g2.add_from_cat(pos[perm], val[perm])
        cuts = np.sort(rng.integers(0, nobj, size=3))
        for part in np.split(np.arange(nobj), cuts):
            g3.add_from_cat(pos[part], val[part])
    case.check(np.array_equal(g1.grid, g2.grid), 'order', 'gridding depends on the order of the catalogue')
    case.check(np.array_equal(g1.grid, g3.grid), 'batching', 'gridding in batches differs from gridding at once')
    ref, count = gl.place(geom[3], cell, val)
    case.check(np.array_equal(g1.grid, ref), 'placement', 'cell contents differ from the reference')
    case.check(int(g1.n_objects) == int(g2.n_objects) == int(g3.n_objects) == count, 'count', 'object counts differ')
    case.observe('objects_placed', count)
    case.nontrivial(nobj, count, tuple(geom[3]))


def explicit_gridder(case):
    """Gridder / gridder_function with the geometry given."""
    from simim.map import Gridder, gridder_function
    rng = case.rng
    dyadic = bool(rng.random() < .5)
    geom = gl.rand_geometry(rng, dyadic=dyadic)
    cen, side, pix, n = geom
    nobj = int(rng.choice([0, 1, 7, 50]))
    pos, cell = gl.rand_positions(rng, geom, nobj, dyadic)
    nprop = int(rng.integers(1, 4))
    val = None if rng.random() < .3 else rng.integers(-9, 10, size=(nobj, nprop)).astype(float)
    kw = dict(center_point=cen, side_length=side, pixel_size=pix)
    if nobj == 0 or rng.random() < .3:
        kw['setndims'] = len(n)
    ref, count = gl.place(n, cell, np.ones((nobj, 1)) if val is None else val)
    p = pos.copy()
    if len(n) == 1 and rng.random() < .5:
        p = p[:, 0]
    with np.errstate(invalid='ignore'):
        g = Gridder(p, val, **kw)
        grid, axes = gridder_function(p, val, **kw)
    case.close(g.grid, ref, 'placement', 'Gridder cell contents', rtol=1e-12)
    case.close(grid, ref, 'placement', 'gridder_function cell contents', rtol=1e-12)
    case.check(int(g.n_objects) == count, 'count', lambda: 'object count %r, %d were placed' % (g.n_objects, count))
    lo = cen - side / 2
    for i in range(len(n)):
        case.close(axes[i], lo[i] + np.arange(n[i] + 1) * pix[i], 'axes', 'cell edges of axis %d' % i, rtol=1e-9, atol=1e-9 * pix[i])
    gl.monitor_geometry(case, g, 'Gridder')
    case.observe('objects_placed', count)
    case.observe('objects_dropped', nobj - count)
    case.nontrivial('explicit', tuple(n), nobj, count)


def automatic_gridder(case):
    """Without a geometry the grid must hold the whole catalogue."""
    from simim.map import Gridder, gridder_function
    rng = case.rng
    nd = int(rng.integers(1, 4))
    nobj = int(rng.integers(1, 40))
    pix = 2.0 ** rng.integers(-1, 3, size=nd) if rng.random() < .5 else 10.0 ** rng.uniform(-1, .5, size=nd)
    span = rng.uniform(0, 8, size=nd) * pix
    pos = rng.uniform(-.5, .5, size=(nobj, nd)) * span + rng.uniform(-50, 50, size=nd)
    kind = rng.integers(4)
    if kind == 0:       # extremes a whole number of pixels apart
        pos = rng.integers(0, 7, size=(nobj, nd)) * pix + rng.integers(-3, 4, size=nd)
    elif kind == 1:     # ... or a little more
        pos = rng.integers(0, 7, size=(nobj, nd)) * pix
        pos[np.argmax(pos, axis=0), np.arange(nd)] += .03 * pix
    elif kind == 2:     # a flat dimension
        d = int(rng.integers(nd))
        pos[:, d] = rng.uniform(-5, 5)
        if rng.random() < .3:
            pix = np.array(pix)
            pix[d] = rng.uniform(10, 100)
    val = None if rng.random() < .3 else rng.integers(1, 10, size=(nobj, 2)).astype(float)
    px = float(pix[0]) if nd == 1 else pix
    g = Gridder(pos, val, pixel_size=px)
    expect = np.array([float(nobj)]) if val is None else val.sum(axis=0)
    case.close(g.grid.sum(axis=tuple(range(nd))), expect, 'automatic_extent', 'total of an automatically sized grid')
    case.check(int(g.n_objects) == nobj, 'count', lambda: 'object count %r of %d' % (g.n_objects, nobj))
    G = gl.monitor_geometry(case, g, 'automatic Gridder')
    lo = np.array([a[0] for a in G['axes']])
    idx = np.floor((pos - lo) / pix).astype(int)
    near = np.any(np.abs((pos - lo) / pix - np.round((pos - lo) / pix)) < 1e-6, axis=1)
    if not near.any():
        ref, count = gl.place(G['n_pixels'], idx, np.ones((nobj, 1)) if val is None else val)
        case.close(g.grid, ref, 'placement', 'automatic Gridder cell contents')
    for i in range(nd):
        ptp = np.ptp(pos[:, i])
        if ptp > 0:
            case.check(G['side_length'][i] <= ptp + pix[i] * 1.0001, 'automatic_extent', 'axis %d longer than needed' % i)
    case.observe('objects_placed', nobj)
    case.nontrivial('auto', nd, nobj, tuple(np.round(span, 3)))


def whole_cells(case):
    """Side lengths that are not a whole number of cells are increased to the next whole number."""
    from simim.map import Gridder, Grid, gridder_function
    rng = case.rng
    nd = int(rng.integers(1, 4))
    pix = 10.0 ** rng.uniform(-2, 2, size=nd)
    whole = rng.integers(0, 7, size=nd)
    part = np.array([[.003, .02, .04, .06, .2, .45, .55, .8, .96, .99][int(k)] for k in rng.integers(10, size=nd)])
    if rng.random() < .5:       # some sides are whole
        part[int(rng.integers(nd))] = 1.
    side = (whole + part) * pix
    cen = rng.uniform(-3, 3, size=nd) * pix
    want = whole + 1
    nobj = int(rng.integers(1, 30))
    frac = rng.uniform(-.499, .499, size=(nobj, nd))
    frac[:2] = [[-.4999] * nd, [.4999] * nd][:nobj]
    pos = cen + frac * side
    val = rng.integers(1, 10, size=(nobj, 1)).astype(float)
    lo = cen - want * pix / 2
    near = np.any(np.abs((pos - lo) / pix - np.round((pos - lo) / pix)) < 1e-5)
    with case.quiet():
        if rng.random() < .5:
            g = Gridder(pos, val, center_point=cen, side_length=side, pixel_size=pix)
        else:
            g = Grid(1, cen, side, pix)
            g.init_grid()
            g.add_from_cat(pos, val)
        grid, axes = gridder_function(pos, val, cen, side, pix)
    case.check(np.array_equal(g.n_pixels, want), 'requested_extent',
               lambda: 'sides of %s cells became %s cells' % (side / pix, g.n_pixels))
    gl.monitor_geometry(case, g, 'grid of a side that is not whole')
    case.close(g.side_length, want * pix, 'requested_extent', 'side lengths')
    if not near:
        ref, count = gl.place(want, np.floor((pos - lo) / pix).astype(int), val)
        case.check(count == nobj, 'reference', 'harness: objects outside the grid asked for')
        case.close(g.grid, ref, 'placement', 'cell contents of a grid whose sides are not a whole number of cells')
        case.close(grid, ref, 'placement', 'gridder_function contents, sides not a whole number of cells')
    case.observe('sides_not_whole', nd)
    case.observe('objects_placed', nobj)
    case.nontrivial('whole', nd, tuple(want), nobj)


def onto_values(case):
    """Objects added to a grid that holds values of a function (of integers as well) are added to these."""
    from simim.map import GridFromAxesAndFunction
    rng = case.rng
    _, geom = gl.make_grid(rng, gl_grid(), nmin=2, active=False)
    cen, side, pix, n = geom
    edges = [c - s / 2 + np.arange(k + 1) * p for c, s, p, k in zip(cen, side, pix, n)]
    kind = str(rng.choice(['int', 'bool', 'float', 'int32']))
    table = rng.integers(0, 2 if kind == 'bool' else 30, size=tuple(int(k) for k in n)).astype(kind)
    keep = table.copy()
    g = GridFromAxesAndFunction(lambda *axes: table, *edges)
    model = keep[..., None].astype(float)
    case.close(g.grid, model, 'from_function', 'contents of a grid populated with a table of %s' % kind)
    for step in range(2):
        nobj = int(rng.integers(5, 40))
        pos, cell = gl.rand_positions(rng, geom, nobj)
        val = values_for(rng, nobj, 1, False)
        with np.errstate(invalid='ignore'):
            g.add_from_cat(pos, val)
        ref, count = gl.place(n, cell, val)
        model = model + ref
        case.observe('objects_placed', count)
        case.observe('objects_on_values', count)
        case.close(g.grid, model, 'placement', 'cell contents after adding to a grid populated with a table of %s' % kind,
                   rtol=1e-10, atol=1e-12 * np.abs(val).sum())
    case.check(np.array_equal(table, keep), 'inputs_modified', 'adding to the grid changed the table it was populated with')
    outside = np.array([edges_i[-1] + 1. for edges_i in edges])
    got = np.asarray(g.sample(outside[None]))
    case.check(np.all(np.isnan(got)), 'outside', lambda: 'a position outside the grid has the value %r' % (got,))
    case.nontrivial('onto', kind, tuple(n))


def gl_grid():
    from simim.map.gridder import Grid
    return Grid


def refusals(case):
    """Requests that cannot be honoured are refused and change nothing."""
    from simim.map.gridder import Grid
    rng = case.rng
    g, geom = gl.make_grid(rng, Grid, nprop=2, ndim=2)
    before = gl.fill(rng, g)
    pos, _ = gl.rand_positions(rng, geom, 5, outside=False)
    nobj0 = g.n_objects
    case.refuses('accepts_wrong_dimensions', 'positions of the wrong dimensionality accepted', g.add_from_cat, np.ones((3, 3)))
    case.refuses('accepts_wrong_length', 'values of the wrong length accepted', g.add_from_cat, pos, np.ones((4, 2)))
    case.refuses('accepts_wrong_columns', 'the wrong number of value columns accepted', g.add_from_cat, pos, np.ones((5, 3)))
    case.refuses('accepts_missing_property', 'a property that does not exist accepted', g.add_from_cat, pos, np.ones(5), properties=[2])
    case.check(np.array_equal(g.grid, before) and g.n_objects == nobj0, 'refusal_changes_grid', 'a refused addition changed the grid')
    for v in (np.ones(5) * 1j, np.full((5, 2), 1j), np.full(5, 'a'), np.full((5, 2), None)):
        for kw in ({}, {'properties': [1, 0]}, {'properties': 1}, {'new_props': True}):
            q = g.copy()
            try:
                q.add_from_cat(pos, v, **kw)
            except Exception:
                case.check(np.array_equal(q.grid, before) and q.grid.shape == before.shape and q.n_objects == nobj0 and q.n_properties == before.shape[-1],
                           'refusal_changes_grid', 'refused values (%s, %s) changed the grid' % (v.dtype, kw))
                case.observe('refused_values')
    g.fourier_transform()
    case.refuses('accepts_fourier', 'addition to a grid in Fourier space accepted', g.add_from_cat, pos, np.ones((5, 2)))
    h, _ = gl.make_grid(rng, Grid, nprop=1, ndim=2, active=False)
    case.refuses('accepts_inactive', 'addition to a grid without data accepted', h.add_from_cat, pos)
    case.nontrivial('refusals', tuple(geom[3]))


SCENARIOS = [
    ('exact_edges', exact_edges, 250, 5000),
    ('generic', generic, 250, 5000),
    ('batches', batches, 60, 1500),
    ('explicit_gridder', explicit_gridder, 150, 3000),
    ('automatic_gridder', automatic_gridder, 150, 3000),
    ('onto_values', onto_values, 40, 800),
    ('whole_cells', whole_cells, 60, 1200),
    ('refusals', refusals, 10, 100),
]
