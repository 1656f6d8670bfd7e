"""C02: adding a spectrum per object puts each value, once, in the object's own line of cells."""
import numpy as np
import gridlib as gl

PROPERTY = 'C02'
gl.VERY_LONG = .15
NEEDS_DATA = False
RULE = ('a case is one random grid of 2-4 dimensions and a history of additions of one array of values per object (given '
        'directly, or by a spectrum function evaluated at cell centers or differenced between cell edges), compared cell by '
        'cell with a one-object-at-a-time reference; non-trivial when at least one object fell inside; told apart by '
        'geometry, axis, mode and placement')
MINIMUM = {'spectra_placed': 1000, 'spectra_dropped': 100, 'multi_chunk_calls': 20, 'looped_calls': 20,
           'cumulative_calls': 20, 'new_property_additions': 20, 'subset_additions': 20}


def setup_case(case):
    from simim.map.gridder import Grid
    rng = case.rng
    nd = int(rng.integers(2, 5))
    g, geom = gl.make_grid(rng, Grid, ndim=nd, nmax=5)
    ax = int(rng.integers(nd))
    return rng, g, geom, nd, ax


def sub_geometry(geom, ax):
    return tuple(np.delete(a, ax) for a in geom)


def add_model(model, ax, cell, spectra, targets):
    """One object at a time: its spectrum goes to its line of cells along ax."""
    n = 0
    for c, s in zip(cell, spectra):
        if len(c) and c[0] < 0:
            continue
        n += 1
        for t in targets:
            idx = [int(i) for i in c]
            idx.insert(ax, slice(None))
            model[tuple(idx) + (t,)] += s
    return n


def pick_targets(case, g, model):
    rng = case.rng
    mode = ['all', 'subset', 'new'][int(rng.integers(3))]
    nprop = model.shape[-1]
    if mode == 'new':
        case.observe('new_property_additions')
        model = np.concatenate((model, np.zeros(model.shape[:-1] + (1,))), axis=-1)
        return mode, {'new_prop': True}, [nprop], model
    if mode == 'subset':
        case.observe('subset_additions')
        t = [int(i) for i in rng.permutation(nprop)[:rng.integers(1, nprop + 1)]]
        return mode, {'properties': t if len(t) > 1 or rng.random() < .5 else t[0]}, t, model
    return mode, {}, list(range(nprop)), model


def arrays(case):
    rng, g, geom, nd, ax = setup_case(case)
    model = gl.fill(rng, g, integer=True)
    total = 0
    sig = []
    for step in range(int(rng.integers(1, 4))):
        nobj = int(rng.choice([0, 1, 3, 20, 60])) if rng.random() > .04 else int(rng.choice([300, 4000]))
        pos, cell = gl.rand_positions(rng, sub_geometry(geom, ax), nobj)
        case.observe('large_catalogues', nobj > 255)
        val = rng.integers(-9, 10, size=(nobj, geom[3][ax])).astype(float) if rng.random() < .5 else rng.normal(size=(nobj, geom[3][ax]))
        mode, kw, targets, model = pick_targets(case, g, model)
        a = ax if rng.random() < .6 else ax - nd
        if a == nd - 1 and rng.random() < .5:
            axkw = {}
        else:
            axkw = {'ax': a}
        case.note('add array nobj=%d ax=%d %s' % (nobj, a, kw))
        p0, v0 = pos.copy(), val.copy()
        with np.errstate(invalid='ignore'):
            g.add_from_pos_plus_array(pos, val, **axkw, **kw)
        case.check(np.array_equal(pos, p0) and np.array_equal(val, v0), 'inputs_modified', 'the caller\'s arrays were modified')
        k = add_model(model, ax, cell, val, targets)
        total += k
        case.observe('spectra_placed', k)
        case.observe('spectra_dropped', nobj - k)
        case.close(g.grid, model, 'placement', 'cell contents after adding arrays along axis %d' % ax, rtol=1e-10, atol=1e-10)
        case.check(int(g.n_objects) == total, 'count', lambda: 'object count %r, %d were placed' % (g.n_objects, total))
        gl.monitor_geometry(case, g, 'after adding arrays')
        if k:
            sig.append((mode, k, nobj))
    if sig:
        case.nontrivial(tuple(geom[3]), ax, sig)
    case.sample('arrays along axis %d of %s: %s' % (ax, geom[3].tolist(), sig))


def make_spectrum(rng, geom, ax, cumulative):
    """A family of spectra with parameters; returns the vectorised function handed
    to the code and a scalar version for the reference."""
    lo = geom[0][ax] - geom[1][ax] / 2
    L = geom[1][ax]
    kind = int(rng.integers(3))
    if cumulative:
        def one(x, p):
            u = (x - lo) / L
            if kind == 0:
                return p[0] * np.tanh(3 * (u - p[1]))
            if kind == 1:       # a step: all of the flux in one place, away from edges in most cases
                return p[0] * (u > p[1])
            return p[0] * u ** 3 + p[1] * u
    else:
        def one(x, p):
            u = (x - lo) / L
            if kind == 0:
                return p[0] * np.exp(-.5 * ((u - p[1]) / .2) ** 2)
            if kind == 1:
                return p[0] + p[1] * u
            return p[0] * np.cos(5 * u + p[1])

    calls = []

    def vector(axis, params):
        params = np.asarray(params)
        calls.append(params.shape)
        return np.array([one(np.asarray(axis), q) for q in params]).reshape(len(params), -1)
    return vector, one, calls


def spectra(case):
    rng, g, geom, nd, ax = setup_case(case)
    start = gl.fill(rng, g, integer=True)
    n0 = int(g.n_objects)
    nobj = int(rng.choice([1, 3, 20, 60, 150]))
    pos, cell = gl.rand_positions(rng, sub_geometry(geom, ax), nobj)
    cumulative = bool(rng.random() < .5)
    func, one, calls = make_spectrum(rng, geom, ax, cumulative)
    args = np.column_stack((rng.normal(size=nobj), rng.uniform(.05, .95, size=nobj)))
    lo = geom[0][ax] - geom[1][ax] / 2
    edges = lo + np.arange(geom[3][ax] + 1) * geom[2][ax]
    centers = (edges[1:] + edges[:-1]) / 2
    if cumulative:
        case.observe('cumulative_calls')
        spec = np.array([[one(b, a) - one(c, a) for b, c in zip(edges[1:], edges[:-1])] for a in args])
    else:
        spec = np.array([[one(b, a) for b in centers] for a in args])
    mode, kw, targets, model0 = pick_targets(case, g, start)
    model = model0.copy()
    placed = add_model(model, ax, cell, spec, targets)
    chunk = int(np.prod(np.delete(geom[3], ax)))
    first = None
    for loop in (False, True):
        for careful in (True, False):
            h = g.copy()
            calls.clear()
            with np.errstate(invalid='ignore'):
                h.add_from_spec_func(pos.copy(), func, args.copy(), spec_ax=ax if rng.random() < .6 else ax - nd, is_cumulative=cumulative,
                                     eval_as_loop=loop, careful_with_memory=careful, **kw)
            what = 'spectrum along axis %d (%d objects, %s%s%s%s)' % (ax, nobj, mode, ', cumulative' * cumulative, ', looped' * loop, ', chunked' * careful)
            case.close(h.grid, model, 'placement', what, rtol=1e-9, atol=1e-9)
            case.check(int(h.n_objects) == n0 + placed, 'count', lambda: '%s: object count %r, expected %d' % (what, h.n_objects, n0 + placed))
            gl.monitor_geometry(case, h, what)
            if careful and nobj > chunk:
                case.observe('multi_chunk_calls')
            if loop:
                case.observe('looped_calls')
                case.check(all(c[0] == 1 for c in calls), 'loop_calls', 'looped evaluation passed several objects at once')
            if careful and not loop:
                case.check(max(c[0] for c in calls) * geom[3][ax] <= h.grid.size, 'memory', lambda: '%s: spectra of %d objects held at once by a grid of %d cells' % (what, max(c[0] for c in calls), h.grid.size))
            case.check(sum(c[0] for c in calls) == nobj, 'evaluations', lambda: '%s: the spectrum was evaluated for %d objects of %d' % (what, sum(c[0] for c in calls), nobj))
    case.observe('spectra_placed', placed)
    case.observe('spectra_dropped', nobj - placed)
    if cumulative:
        # nothing is lost or gained along the axis
        got = (h.grid - model0).sum()
        want = sum((one(edges[-1], a) - one(edges[0], a)) * len(targets) for a, c in zip(args, cell) if c[0] >= 0)
        case.close(np.array(got), np.array(want), 'conservation', 'integrated spectrum', rtol=1e-8, atol=1e-6)
    if placed:
        case.nontrivial(tuple(geom[3]), ax, mode, cumulative, placed, nobj)
    case.sample('spectra along axis %d of %s: %d of %d objects, cumulative=%s' % (ax, geom[3].tolist(), placed, nobj, cumulative))


def line_function(case):
    """No extra arguments; empty catalogues; one-dimensional argument arrays."""
    rng, g, geom, nd, ax = setup_case(case)
    start = gl.fill(rng, g)
    sub = sub_geometry(geom, ax)
    nobj = int(rng.integers(1, 12))
    pos, cell = gl.rand_positions(rng, sub, nobj)
    p = rng.normal(size=nobj)
    h = g.copy()
    with np.errstate(invalid='ignore'):
        h.add_from_spec_func(pos, lambda x, a: a[:, :1] * np.ones((1, len(x))), p, spec_ax=ax)
    model = start.copy()
    add_model(model, ax, cell, np.repeat(p[:, None], geom[3][ax], axis=1), range(start.shape[-1]))
    case.close(h.grid, model, 'placement', 'one-dimensional argument array', rtol=1e-9, atol=1e-9)
    h = g.copy()
    with np.errstate(invalid='ignore'):
        h.add_from_spec_func(pos, lambda x, a: np.repeat(x.reshape(1, -1), len(a), axis=0), spec_ax=ax)
    lo = geom[0][ax] - geom[1][ax] / 2
    cen = lo + (np.arange(geom[3][ax]) + .5) * geom[2][ax]
    model = start.copy()
    add_model(model, ax, cell, np.repeat(cen[None], nobj, axis=0), range(start.shape[-1]))
    case.close(h.grid, model, 'placement', 'spectrum function without arguments', rtol=1e-9, atol=1e-9)
    # one object, given as a bare position and spectrum
    h = g.copy()
    spec = rng.normal(size=int(geom[3][ax]))
    h.add_from_pos_plus_array(pos[0] if rng.random() < .5 else list(pos[0]), spec, ax=ax)
    model = start.copy()
    add_model(model, ax, cell[:1], spec[None], range(start.shape[-1]))
    case.close(h.grid, model, 'placement', 'a single object', rtol=1e-9, atol=1e-9)
    for new in (False, True):
        for f in (lambda q: q.add_from_spec_func([], lambda x, a: None, spec_ax=ax, new_prop=new),
                  lambda q: q.add_from_pos_plus_array(np.zeros((0, nd - 1)), np.zeros((0, geom[3][ax])), ax=ax, new_prop=new)):
            h = g.copy()
            f(h)
            want = start if not new else np.concatenate((start, np.zeros(start.shape[:-1] + (1,))), axis=-1)
            case.close(h.grid, want, 'empty', 'adding no objects')
            gl.monitor_geometry(case, h, 'adding no objects')
    before = g.grid.copy()
    for q in (lambda: g.add_from_pos_plus_array(pos, np.ones((nobj, geom[3][ax] + 1)), ax=ax),
              lambda: g.add_from_pos_plus_array(pos, np.ones((nobj + 1, geom[3][ax])), ax=ax),
              lambda: g.add_from_pos_plus_array(np.ones((nobj, nd)), np.ones((nobj, geom[3][ax])), ax=ax),
              lambda: g.add_from_pos_plus_array(pos, np.ones((nobj, geom[3][ax])), ax=nd),
              lambda: g.add_from_pos_plus_array(pos, np.ones((nobj, geom[3][ax])), ax=ax, properties=[start.shape[-1]]),
              lambda: g.add_from_spec_func(pos, lambda x, a: np.ones((nobj, len(x) + 1)), spec_ax=ax, careful_with_memory=False),
              lambda: g.add_from_spec_func(pos, lambda x, a: np.ones((nobj + 1, len(x))), spec_ax=ax, careful_with_memory=False),
              lambda: g.add_from_spec_func(pos, 'not a function', spec_ax=ax)):
        case.refuses('accepts_bad_request', 'a request that does not fit the grid was accepted', q)
        case.check(np.array_equal(g.grid, before) and g.grid.shape == before.shape, 'refusal_changes_grid', 'a refused request changed the grid')
    # values of other kinds: refused half-way, if at all
    n0, l = int(g.n_objects), int(geom[3][ax])
    for v in (np.ones((nobj, l)) * 1j, np.full((nobj, l), 'a'), np.full((nobj, l), None)):
        for kw in ({}, {'properties': int(rng.integers(start.shape[-1]))}, {'properties': list(range(start.shape[-1]))}, {'new_prop': True}):
            h = g.copy()
            try:
                with case.quiet():
                    h.add_from_pos_plus_array(pos, v, ax=ax, **kw) if rng.random() < .5 else h.add_from_spec_func(
                        pos, lambda x, a: v, spec_ax=ax, careful_with_memory=False, **kw)
            except Exception:
                case.check(np.array_equal(h.grid, before) and h.grid.shape == before.shape and h.n_objects == n0, 'refusal_changes_grid', 'refused values (%s, %s) changed the grid' % (v.dtype, kw))
                gl.monitor_geometry(case, h, 'after refused values')
                case.observe('refused_values')
    case.nontrivial('line', tuple(geom[3]), ax, nobj)


SCENARIOS = [
    ('arrays', arrays, 250, 6000),
    ('spectra', spectra, 200, 5000),
    ('line_function', line_function, 100, 2500),
]
