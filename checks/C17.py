"""C17: a simulation handler finds the right snapshot, halos above a mass, and
volumes, and evaluates statistics once per snapshot."""
import numpy as np
import handlerlib as hl
import simlib as sl

PROPERTY = 'C17'
NEEDS_DATA = True
RULE = ('a case is a random synthetic simulation of which all or some snapshots were formatted, and random questions to its '
        'SimHandler (redshifts, snapshot numbers, masses, volumes, statistics, grids); answers are compared with the table '
        'and halos the simulation was made from; told apart by the simulation and the questions')


def some_snapshots(case, n_max=5):
    """A simulation, all or some of whose snapshots are in the formatted file."""
    rng = case.rng
    n = int(rng.integers(1, n_max + 1))
    s = sl.make_sim(case, n_snaps=n, labels='mixed')
    s.held = list(range(n))
    if n > 1 and rng.random() < 0.5:
        s.held = sorted(int(i) for i in rng.choice(n, size=int(rng.integers(1, n)), replace=False))
        with sl.answers('y'):
            cat = s.Catalogs(snaps=[s.labels[k] for k in s.held])
            cat.format(remake=True)
        case.observe('partial_simulations')
    return s


def lookup(case):
    from simim.siminterface import SimHandler
    rng = case.rng
    s = some_snapshots(case)
    d = bool(rng.integers(2))
    init = bool(rng.integers(2))
    sim = SimHandler(sl.SIM, init_snaps=init, in_h_units=d)
    if rng.random() < 0.3:
        d = not d
        sim.set_in_h_units(d)
    case.close(sim.box_edge, s.box if d else s.box / s.h, 'box_edge', 'box edge in the default units', rtol=1e-9)
    case.close(sim.h, s.h, 'h', 'h')
    case.close(sim.cosmo.Om0, s.om, 'cosmology', 'matter density')
    case.check(set(sim.extract_snap_keys()) == set(s.fields), 'keys', lambda: 'listed properties %s' % sim.extract_snap_keys())
    case.check(sorted(int(i) for i in sim.snap_meta['index']) == [s.labels[k] for k in s.held], 'snapshots', lambda: 'snapshots %s, expected %s of %s' % (sim.snap_meta['index'], s.held, s.labels))
    # snapshot numbers
    for label in sorted(set(range(-1, s.n_snaps + 1)) | set(s.labels) | {s.labels[-1] + 1}):
        k = s.labels.index(label) if label in s.labels else -9
        if k not in s.held:
            k = label
            case.refuses('bad_snapshot', 'snapshot %d was accepted' % k, sim.get_snap, k)
            case.refuses('bad_snapshot', 'snapshot %d was accepted' % k, sim.extract_snap_meta, k)
            case.refuses('bad_snapshot', 'snapshot %d was accepted' % k, sim.get_mass_index, 1e10, k)
            continue
        meta = sim.extract_snap_meta(label)
        for name in s.snaps.dtype.names:
            case.close(meta[name], s.snaps[k][name], 'snapshot_metadata', 'snapshot %d: %s' % (k, name), rtol=1e-6)
        h = sim.get_snap(label)
        case.close(h.redshift, s.snaps[k]['redshift'], 'snapshot_redshift', 'redshift of snapshot %d' % k, rtol=1e-6)
        case.close(h.box_edge, s.box if d else s.box / s.h, 'snapshot_box', 'box edge of snapshot %d' % k, rtol=1e-9)
        hl.compare(case, h, hl.Model(s.truth[k], s.fields, s.h, d), 'snapshot %d' % k, everything=False)
        case.observe('snapshots')
    # redshifts: inside a held snapshot, away from and at its ends
    for _ in range(12):
        k = int(rng.choice(s.held))
        lo, hi = float(s.snaps[k]['redshift_min']), float(s.snaps[k]['redshift_max'])
        z = lo + (hi - lo) * float(rng.uniform(0.001, 0.999))
        case.check(sim.z_to_snap(z) == s.labels[k], 'z_to_snap', lambda: 'redshift %r is in snapshot %d (%r - %r), got %s' % (z, s.labels[k], lo, hi, sim.z_to_snap(z)))
        case.close(sim.get_snap_from_z(z).redshift, s.snaps[k]['redshift'], 'snap_from_z', 'redshift of the snapshot at %r' % z, rtol=1e-6)
        case.observe('redshifts')
    bottom = float(min(s.snaps[k]['redshift_min'] for k in s.held))
    top = float(max(s.snaps[k]['redshift_max'] for k in s.held))
    case.check(sim.z_to_snap(np.float32(bottom)) == s.labels[max(s.held)], 'z_lowest', lambda: 'lowest redshift gives %s' % sim.z_to_snap(bottom))
    case.check(sim.z_to_snap(np.float32(top)) == s.labels[min(s.held)], 'z_highest', lambda: 'highest redshift gives %s' % sim.z_to_snap(top))
    for z in (-0.01, top * 1.001 + 0.001, top + 50, bottom - 1e-3):
        case.refuses('z_out_of_range', 'redshift %r is outside %r - %r but was accepted' % (z, bottom, top), sim.z_to_snap, z)
    # volumes
    for in_h in (None, True, False):
        v = float(10 ** rng.uniform(0, 6))
        box = s.box if (d if in_h is None else in_h) else s.box / s.h
        case.close(sim.number_volumes(v, in_h), box ** 3 / v, 'number_volumes', 'number of volumes of %r (little-h units %s)' % (v, in_h), rtol=1e-9)
    case.nontrivial(s.h, s.held, d, init)
    case.sample('snapshots %s of %d, h=%.3f, little-h units %s, persistent %s' % (s.held, s.n_snaps, s.h, d, init))


def masses(case):
    """The halos before the mass index hold every halo above the mass; halos well below it come after."""
    from simim.siminterface import SimHandler
    rng = case.rng
    s = sl.make_sim(case, n_snaps=int(rng.integers(1, 3)), n_halos=int(rng.integers(1, 60)),
                    mass_range=[(9, 13), (5, 8), (6, 20), (10, 10.3)][int(rng.integers(4))], labels='mixed')
    d = bool(rng.integers(2))
    sim = SimHandler(sl.SIM, in_h_units=d)
    for _ in range(15):
        k = int(rng.integers(s.n_snaps))
        mass = s.truth[k]['mass'].astype(float)
        in_h = [None, True, False][int(rng.integers(3))]
        use_h = d if in_h is None else in_h
        r = rng.random()
        if r < 0.3:
            m = float(rng.choice(mass)) * float(10 ** rng.uniform(-0.3, 0.3))
        elif r < 0.5:
            m = float(10 ** np.round(rng.uniform(4, 21), 1))
        else:
            m = float(10 ** rng.uniform(4, 21))
        i = int(sim.get_mass_index(m if use_h else m / s.h, s.labels[k], in_h))
        case.check(0 <= i <= len(mass), 'mass_index_range', lambda: 'mass index %d of %d halos' % (i, len(mass)))
        missed = mass[i:][mass[i:] > m * (1 + 1e-5)]
        case.check(len(missed) == 0, 'mass_index_misses', lambda: 'mass index %d for %r (little-h units %s, h=%r) misses halos of %s' % (i, m, in_h, s.h, missed))
        # the table has steps of 0.1 dex between 1e6 and 1e20
        extra = mass[:i][mass[:i] < m * 10 ** -0.101] if 1e6 < m < 1e20 else []
        case.check(len(extra) == 0, 'mass_index_extra', lambda: 'mass index %d for %r (little-h units %s) includes halos of %s' % (i, m, in_h, extra))
        case.observe('mass_indices')
        if 0 < i < len(mass):
            case.observe('proper_mass_indices')
    case.nontrivial(s.h, len(mass))


def statistics(case):
    from simim.siminterface import SimHandler
    rng = case.rng
    s = some_snapshots(case, 4)
    d = bool(rng.integers(2))
    init = bool(rng.integers(2))
    sim = SimHandler(sl.SIM, init_snaps=init, in_h_units=d)
    models = {k: hl.Model(s.truth[k], s.fields, s.h, d) for k in s.held}
    if init and rng.random() < 0.6:
        lim = float(10 ** rng.uniform(10, 12)) * 1.0003
        sim.set_property_range('mass', pmin=lim, in_h_units=True)
        for m in models.values():
            m.active = m.value('mass', True, True) >= lim
    for _ in range(3):
        name = sorted(s.fields)[int(rng.integers(len(s.fields)))]
        in_h = [None, True, False][int(rng.integers(3))]
        use_all = bool(rng.integers(2))
        want = None
        if rng.random() < 0.6:
            want = [s.held[int(i)] for i in rng.integers(0, len(s.held), int(rng.integers(1, 4)))]
        calls = []

        def stat(x, cosmo, redshift, box_edge_h, tag):
            calls.append((np.array(x), redshift))
            return (tag, float(redshift), len(calls), box_edge_h, cosmo.h)
        vals, zs = sim.snap_stat(stat, ['x', 'cosmo', 'redshift', 'box_edge_h'], kw_remap={'x': name}, other_kws={'tag': 'abc'},
                                 give_args_in_h_units=in_h, use_all_inds=use_all, snaps=None if want is None else [s.labels[k] for k in want])
        order = want if want is not None else [s.labels.index(int(i)) for i in sim.snap_meta['index']]
        case.check(len(vals) == len(order) == len(zs) == len(calls), 'stat_count', lambda: '%d values for snapshots %s' % (len(vals), order))
        for j, k in enumerate(order):
            z = s.snaps[k]['redshift']
            case.close(zs[j], z, 'stat_redshift', 'redshift %d (snapshot %d)' % (j, k), rtol=1e-6)
            case.close(calls[j][1], z, 'stat_argument', 'redshift given to the statistic for snapshot %d' % k, rtol=1e-6)
            case.close(calls[j][0], models[k].value(name, use_all, d if in_h is None else in_h), 'stat_argument',
                       '%s of snapshot %d given to the statistic' % (name, k), rtol=3e-6)
            case.check(vals[j][0] == 'abc' and vals[j][2] == j + 1 and bool(np.allclose([vals[j][1], vals[j][3], vals[j][4]], [z, s.box, s.h], rtol=1e-6)), 'stat_value', lambda: 'value %s' % (vals[j],))
            case.observe('statistics')
    case.nontrivial(s.h, s.held)


def grids(case):
    """Snapshots on a grid: each active object once, in its cell."""
    from simim.siminterface import SimHandler
    rng = case.rng
    s = sl.make_sim(case, n_snaps=1, n_halos=sl.some_halos(case, 30), labels='mixed')
    d = bool(rng.integers(2))
    h = SimHandler(sl.SIM, in_h_units=d).get_snap(s.labels[0])
    m = hl.Model(s.truth[0], s.fields, s.h, d)
    if rng.random() < 0.5:
        lim = float(np.quantile(m.value('mass', True, True), [0.5, 1.0][int(rng.random() < 0.2)])) * 1.0003
        h.set_property_range('mass', pmin=lim, in_h_units=True)
        m.active = m.value('mass', True, True) >= lim
    in_h = [None, True, False][int(rng.integers(3))]
    use_h = d if in_h is None else in_h
    use_all = bool(rng.integers(2))
    names = [sorted(s.fields)[int(i)] for i in rng.choice(len(s.fields), size=int(rng.integers(1, 3)), replace=False)]
    side = s.box if use_h else s.box / s.h
    lims = [(0.0, side)] * 3
    kw = {}
    for i, ax in enumerate('xyz'):
        if rng.random() < 0.5:
            lo = float(rng.uniform(0, 0.4)) * side
            lims[i] = (lo, lo + float(rng.uniform(0.3, 0.6)) * side)
            kw[ax + 'lim'] = lims[i] if rng.random() < 0.7 else lims[i][::-1]
    how = ['cells', 'one', 'default'][int(rng.choice(3, p=[.6, .25, .15]))]
    if how == 'one':        # one resolution for all axes: every axis a whole number of such cells
        lims, kw = [(0.0, side)] * 3, {}
        n = [int(rng.integers(2, 9))] * 3
        res = side / n[0]
        if rng.random() < .5:
            k = int(rng.integers(1, n[0] + 1))
            lims[2] = kw['zlim'] = (0., k * res)
            n[2] = k
    else:
        n = [100] * 3 if how == 'default' else [int(i) for i in rng.integers(1, 9, 3)]
        res = None if how == 'default' else [(b - a) / k for (a, b), k in zip(lims, n)]
    case.observe('resolution_' + how)
    norm = [None, 'cell_volume', 2.5][int(rng.integers(3))]
    what = 'gridded %s (little-h units %s, all %s, res %s, limits %s, norm %s)' % (names, use_h, use_all, res, kw, norm)
    case.note(what)
    g = h.grid(*names, in_h_units=in_h, use_all_inds=use_all, res=res, norm=norm, **kw)
    case.check(tuple(g.grid.shape) == (*n, len(names)), 'grid_shape', lambda: '%s: grid of shape %s, expected %s' % (what, g.grid.shape, n))
    pos = [np.asarray(m.value('pos_' + ax, use_all, use_h), float) for ax in 'xyz']
    vals = [np.asarray(m.value(p, use_all, use_h), float) for p in names]
    want = np.zeros((*n, len(names)))
    gross = np.zeros_like(want)
    slack = np.zeros_like(want)     # what objects at an edge, to single precision, may add to either side
    for i in range(len(pos[0])):
        f = np.array([(pos[ax][i] - lims[ax][0]) / (lims[ax][1] - lims[ax][0]) * n[ax] for ax in range(3)])
        near = np.abs(f - np.round(f)) < 2e-6 * np.array([n[ax] * side / (lims[ax][1] - lims[ax][0]) for ax in range(3)]) + 1e-9
        case.observe('at_edges', near.any())
        for o in np.ndindex(*(2 if q else 1 for q in near)):
            cell = [int(np.round(f[ax])) - o[ax] if near[ax] else int(np.floor(f[ax])) for ax in range(3)]
            if all(0 <= c < n[ax] for ax, c in enumerate(cell)):
                for k in range(len(names)):
                    if near.any():
                        slack[tuple(cell) + (k,)] += abs(vals[k][i])
                    else:
                        want[tuple(cell) + (k,)] += vals[k][i]
                        gross[tuple(cell) + (k,)] += abs(vals[k][i])
                case.observe('gridded_objects')
    cells = [(b - a) / k for (a, b), k in zip(lims, n)]
    factor = 1 / np.prod(cells) if norm == 'cell_volume' else norm if norm is not None else 1
    want *= factor
    slack *= factor
    gross *= factor
    bad = ~(np.abs(g.grid - want) <= slack + 1e-5 * (gross + slack))
    case.check(not bad.any(), 'grid_values', lambda: '%s: %d of %d cells differ; at %s observed %r, expected %r'
               % (what, bad.sum(), bad.size, np.argwhere(bad)[0], g.grid[tuple(np.argwhere(bad)[0])], want[tuple(np.argwhere(bad)[0])]))
    for ax in range(3):
        start = g.axes[ax][0] if len(g.axes[ax]) == n[ax] + 1 else g.axes[ax][0] - cells[ax] / 2
        case.close([start, g.pixel_size[ax], g.side_length[ax]], [lims[ax][0], cells[ax], lims[ax][1] - lims[ax][0]], 'grid_axes', 'start, cell and length of axis %d of %s' % (ax, what), rtol=1e-6, atol=1e-6 * side)
    case.observe('grids')
    case.nontrivial(s.h, n, names)


SCENARIOS = [('lookup', lookup, 60, 1000), ('masses', masses, 30, 600), ('statistics', statistics, 40, 600), ('grids', grids, 50, 800)]
MINIMUM = {'snapshots': 80, 'redshifts': 400, 'partial_simulations': 10, 'mass_indices': 300, 'proper_mass_indices': 20,
           'statistics': 150, 'gridded_objects': 100, 'grids': 40, 'resolution_one': 5, 'resolution_default': 3}
