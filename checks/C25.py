"""C25: properties added to light cones are those of each object's own halo, and
directions turn with the light cone."""
import numpy as np
import handlerlib as hl
import lclib as ll
import simlib as sl

PROPERTY = 'C25'
NEEDS_DATA = True
RULE = ('a case is a random simulation with 1-3 light cones or spheres, to which properties, velocities, spins and centers of mass are '
        'added in random order; every value is compared with that of the halo the object is an image of, turned as recorded; '
        'handlers of light cones go through random histories; light cones are put on grids; told apart by what was added')
setup = ll.setup


def make(case, n=None, **kw):
    rng = case.rng
    n = int(rng.integers(1, 4)) if n is None else n
    sphere = rng.random() < 0.35
    if sphere:
        s = ll.sphere_sim(case, **kw)
        c = ll.sphere_spec(case, s)
        mk = ll.make_sphere(s, c, 'lc')
    else:
        name = 'TNG100-1' if rng.random() < 0.25 else sl.SIM
        s = ll.lc_sim(case, name=name, **kw)
        c = ll.cone_spec(case, s, wide=0.5 if name != sl.SIM else 0.3)
        c.angle = min(c.angle, 0.95 * s.box / ll.D(s, c.z1))
        mk = ll.make_cone(s, c, 'lc')
    ll.build(case, s, mk, n)
    case.note(repr(c))
    return s, c, mk, n, sphere


def turn(attrs, v, sphere, pseudo=False):
    """From the axes of the simulation to those of the light cone."""
    flips = np.asarray(attrs['box flips'], float)
    v = v * flips * (np.prod(flips) if pseudo else 1)
    if sphere:
        return v
    R = np.asarray(attrs['position angle transformation matrix']) @ np.asarray(attrs['line of sight transformation matrix'])
    w = v @ R.T
    return w[:, [1, 2, 0]]


def vec(t, name, idx):
    return np.array([t[name + '_' + a][idx] for a in 'xyz'], float).T


def crowded(case):
    """Snapshots of more halos than two bytes can count."""
    sphere = bool(case.rng.integers(2))
    s, c = ll.crowded_sphere(case) if sphere else ll.crowded(case)
    mk = (ll.make_sphere if sphere else ll.make_cone)(s, c, 'lc')
    ll.build(case, s, mk, 1)
    added(case, (s, c, mk, 1, sphere))


def added(case, made=None):
    from simim.lightcone import LCHandler
    rng = case.rng
    s, c, mk, n, sphere = made or make(case)
    plain = ['uid', 'masscheck'] + sorted(k for k in s.extra if k.startswith('prop'))
    steps = [('p', [k]) for k in plain] + [('d', [k]) for k in ('v', 'spin', 'cm')]
    steps = [steps[int(i)] for i in rng.permutation(len(steps))[:int(rng.integers(2, len(steps) + 1))]]
    merged = []
    for kind, ks in steps:
        if merged and merged[-1][0] == kind and rng.random() < 0.5:
            merged[-1][1].extend(ks)
        else:
            merged.append((kind, list(ks)))
    basic = [ll.read(p)[1] for p in ll.files(mk, n)]
    have = set()
    for kind, ks in merged:
        ks = list(ks)
        if rng.random() < 0.3:
            ks.append('nothing')
        if rng.random() < 0.3 and have:
            ks.append(sorted(have)[0] if kind == 'p' else sorted(have)[0].split('_')[0])
        if kind == 'p' and rng.random() < 0.3:
            ks.append(['mass', 'v_x', 'pos_x'][int(rng.integers(3))])
        if rng.random() < 0.3:
            ks.append(ks[int(rng.integers(len(ks)))])  # asked for twice
        rng.shuffle(ks)
        case.note('%s %s' % ('add_properties' if kind == 'p' else 'add_pos_properties', ks))
        fresh = [k for k in ks if k in (plain if kind == 'p' else ('v', 'spin', 'cm'))]
        (mk.add_properties if kind == 'p' else mk.add_pos_properties)(*ks)
        for k in fresh:
            have.update([k] if kind == 'p' else [k + '_' + a for a in 'xyz'])
    for i, p in enumerate(ll.files(mk, n)):
        what = 'light cone %d' % i
        attrs, got, _ = ll.read(p)
        case.check(set(got) == set(ll.BASIC) | have, 'fields', lambda: '%s has %s, expected %s added' % (what, sorted(got), sorted(have)))
        for k in ll.BASIC:
            case.check(bool(np.array_equal(basic[i][k], got[k])), 'basic_changed', '%s: adding properties changed %s' % (what, k))
        rows = (ll.expected_sphere if sphere else ll.expected_cone)(s, c, attrs)
        ident = ll.match(case, s, got, rows, what, judge=())
        sure = [j for j, d in enumerate(ident) if d is not None]
        for k in range(s.n_snaps):
            mine = [j for j in sure if ident[j][0] == k]
            if not mine:
                continue
            idx = np.array([ident[j][1] for j in mine])
            t = s.truth[k]
            for name in sorted(have):
                base = name[:-2]
                if base in ('v', 'spin', 'cm'):
                    continue
                want = t['mass' if name == 'masscheck' else name][idx]
                if np.asarray(want).dtype.kind in 'iu':
                    case.check(bool(np.array_equal(got[name][mine].astype('i8'), want.astype('i8'))), 'integer_values',
                               lambda: '%s: %s of snapshot %d: %s, expected %s' % (what, name, k, got[name][mine][:5], want[:5]))
                else:
                    case.close(np.asarray(got[name][mine], float), np.asarray(want, float), 'values', '%s: %s of snapshot %d' % (what, name, k), rtol=1e-6)
                case.observe('values', len(mine))
            for base in ('v', 'spin', 'cm'):
                if base + '_x' not in have:
                    continue
                v = vec(t, base, idx)
                if base == 'cm':
                    off = (v - vec(t, 'pos', idx) + s.box / 2) % s.box - s.box / 2
                    want = turn(attrs, off, sphere) + np.array([got['pos_' + a][mine] for a in 'xyz']).T
                    tol = 1e-5 * (s.box + np.abs(want).max())
                else:
                    want = turn(attrs, v, sphere, base == 'spin')
                    tol = 1e-5 * np.abs(v).max()
                have_v = np.array([got[base + '_' + a][mine] for a in 'xyz'], float).T
                case.close(have_v, want, 'directions_' + base, '%s: %s of snapshot %d' % (what, base, k), rtol=1e-5, atol=tol)
                case.observe('directions', len(mine))
        # through the handler, with units
        d = bool(rng.integers(2))
        h = LCHandler(s.name, 'lc', i, in_h_units=d)
        if h.nhalos_all:
            for name in sorted(have):
                unit, hd = s.fields['mass' if name == 'masscheck' else name][1:]
                for u in (True, False):
                    case.close(np.asarray(h.return_property(name, in_h_units=u), float), np.asarray(got[name], float) * (1.0 if u else s.h ** hd),
                               'handler_values', '%s: %s through the handler' % (what, name), rtol=3e-6)
        st = hl.file_state(p, 'Lightcone Full')
        for name in sorted(have):
            unit, hd = s.fields['mass' if name == 'masscheck' else name][1:]
            case.check(st[name][1] == unit and st[name][2] == hd, 'units', lambda: '%s: %s has unit %r, h^%s' % (what, name, st[name][1], st[name][2]))
        if not len(got['mass']):
            case.observe('empty')
    case.nontrivial(merged, repr(c))
    case.sample('%s: %s' % (c.mode, merged))


def history(case):
    """A handler of a light cone behaves like one of a snapshot."""
    from simim.lightcone import LCHandler
    rng = case.rng
    s, c, mk, n, sphere = make(case, n=2, n_halos=(50, 800))
    mk.add_properties('uid', *sorted(k for k in s.extra if k.startswith('prop')))
    i = int(rng.integers(n))
    other = ll.read(ll.files(mk, n)[1 - i])[1]
    attrs, got, _ = ll.read(ll.files(mk, n)[i])
    if len(got['mass']) == 0 or len(np.unique(got['uid'])) < len(got['uid']):
        case.observe('set_aside')
        return
    fields = {k: s.fields.get(k, ('d', 'radians' if k in ('ra', 'dec') else 'None', 0)) for k in got}
    d = bool(rng.integers(2))
    h = LCHandler(s.name, 'lc', i, in_h_units=d)
    m = hl.Model(got, fields, s.h, d)
    hist = hl.History(case, h, m, ops=['load', 'unload', 'make', 'make', 'write', 'delete', 'select', 'units', 'bad', 'make_write'])
    hl.compare(case, h, m, 'a fresh handler')
    for _ in range(int(rng.integers(4, 10))):
        hist.step()
        hl.compare(case, h, m, 'after %s' % hist.trace[-1], everything=False)
    h2 = LCHandler(s.name, 'lc', i, in_h_units=d)
    m2 = hl.Model(got, fields, s.h, d)
    m2.saved = dict(m.saved)
    hl.compare(case, h2, m2, 'reopened')
    now = ll.read(ll.files(mk, n)[1 - i])[1]
    case.check(set(now) == set(other) and all(np.array_equal(now[k], other[k], equal_nan=now[k].dtype.kind == 'f') for k in other), 'other_light_cone',
               'working on one light cone changed another')
    case.nontrivial(hist.trace, s.h)


def grids(case):
    from simim.lightcone import LCHandler
    rng = case.rng
    s = ll.lc_sim(case, n_halos=(100, 2000))
    c = ll.cone_spec(case, s)
    if c.mode == 'circle':
        c.aspect = 1
    mk = ll.make_cone(s, c, 'lc')
    ll.build(case, s, mk, 1)
    attrs, got, _ = ll.read(ll.files(mk, 1)[0])
    fields = {k: s.fields.get(k, ('d', 'None', 0)) for k in got}
    d = bool(rng.integers(2))
    h = LCHandler(s.name, 'lc', 0, in_h_units=d)
    m = hl.Model(got, fields, s.h, d)
    if m.n and rng.random() < 0.5:
        lim = float(np.quantile(m.value('mass', True, True), rng.random())) * 1.0003
        h.set_property_range('mass', pmin=lim, in_h_units=True)
        m.active = m.value('mass', True, True) >= lim
    in_h = [None, True, False][int(rng.integers(3))]
    use_h = d if in_h is None else in_h
    use_all = bool(rng.integers(2))
    names = [['mass', 'pos_z', 'redshift', 'ra'][int(i)] for i in rng.permutation(4)[:int(rng.integers(1, 3))]]
    freq = float(rng.uniform(100, 2000)) if rng.random() < 0.5 else None
    lims = [(-c.angle / 2, c.angle / 2), (-c.angle * c.aspect / 2, c.angle * c.aspect / 2),
            (float(c.zmin), float(c.z1)) if freq is None else (freq / (1 + float(c.z1)), freq / (1 + float(c.zmin)))]
    kw = {}
    for i, k in enumerate(('ralim', 'declim', 'zlim')):
        if rng.random() < 0.5:
            a, b = lims[i]
            lo = a + float(rng.uniform(0, 0.4)) * (b - a)
            lims[i] = (lo, lo + float(rng.uniform(0.3, 0.6)) * (b - a))
            kw[k] = lims[i] if rng.random() < 0.7 else lims[i][::-1]
    n = [int(v) for v in rng.integers(2, 9, 3)]
    res = [(b - a) / k for (a, b), k in zip(lims, n)]
    norm = [None, 2.5][int(rng.integers(2))]
    if rng.random() < 0.15:
        n, res = [100] * 3, None
    what = 'grid of %s (%r, restfreq %s, %s, in_h_units %s, all %s)' % (names, c, freq, kw, in_h, use_all)
    case.note(what)
    g = h.grid(*names, restfreq=freq, in_h_units=in_h, use_all_inds=use_all, res=res, norm=norm, **kw)
    case.check(tuple(g.grid.shape) == tuple(n) + (len(names),), 'grid_shape', lambda: '%s: shape %s, expected %s' % (what, g.grid.shape, n))
    x, y, z = (np.asarray(m.value(k, use_all, True), float) for k in ('ra', 'dec', 'redshift'))
    z = z if freq is None else freq / (1 + z)
    vals = [np.asarray(m.value(p, use_all, use_h), float) for p in names]
    f = [(q - a) / (b - a) * k for q, (a, b), k in zip((x, y, z), lims, n)]
    f = np.array(f).reshape(3, -1)
    # objects at a cell edge, to rounding: neighbours are allowed to have them
    near = np.any((np.abs(f - np.round(f)) < 1e-6 * np.array(n)[:, None] + 1e-6), axis=0)
    want = np.zeros(tuple(n) + (len(names),))
    slack = np.zeros_like(want)
    for j in range(f.shape[1]):
        for q in ([f[:, j]] if not near[j] else [f[:, j] + np.array(o) * 2e-5 for o in np.ndindex(2, 2, 2)] + [f[:, j] - np.array(o) * 2e-5 for o in np.ndindex(2, 2, 2)]):
            cell = np.floor(q).astype(int)
            if all(0 <= cell[a] < n[a] for a in range(3)):
                for k in range(len(names)):
                    (slack if near[j] else want)[tuple(cell) + (k,)] += abs(vals[k][j]) if near[j] else vals[k][j]
    case.observe('at_edges', near.sum())
    if norm is not None:
        want *= norm
        slack *= norm
    bad = np.abs(g.grid - want) > slack + 1e-5 * np.abs(want) + 1e-9 * (np.abs(want).max() + slack.max())
    case.check(not bad.any(), 'grid_values', lambda: '%s: %d of %d cells differ; at %s observed %r, expected %r'
               % (what, bad.sum(), bad.size, np.argwhere(bad)[0], g.grid[tuple(np.argwhere(bad)[0])], want[tuple(np.argwhere(bad)[0])]))
    for a in range(3):
        case.close([g.edges[a][0] if hasattr(g, 'edges') else g.axes[a][0], g.side_length[a]], [lims[a][0], lims[a][1] - lims[a][0]], 'grid_axes', '%s: axis %d' % (what, a),
                   rtol=1e-6, atol=1e-9 * abs(lims[a][1]))
    case.observe('grids')
    case.observe('gridded_objects', f.shape[1])
    case.nontrivial(what)


SCENARIOS = [('crowded', crowded, 3, 10), ('added', added, 90, 1000), ('history', history, 40, 600), ('grids', grids, 40, 500)]
MINIMUM = {'values': 20000, 'directions': 20000, 'empty': 2, 'operations': 100, 'grids': 30, 'gridded_objects': 500, 'light_cones': 200}
