"""C18: formatting a raw catalogue keeps every halo once with all its values, in
the declared units, ordered by decreasing mass."""
import os

import h5py
import numpy as np
import handlerlib as hl
import rawlib as rl
import simlib as sl

PROPERTY = 'C18'
NEEDS_DATA = True
RULE = ('a case is one synthetic raw data set in the published format of a supported simulation (UniverseMachine text and '
        'binary, Uchuu, Illustris, TNG; several chunks, empty chunks, snapshots without halos, orphan flags, unsorted and '
        'single halos, listings in any order), downloaded metadata from a stand-in server, formatted; every stored value is '
        'compared with the raw one; non-trivial when halos were compared; told apart by simulation and content')


def expect(case, path, snap, order, want, what, sim):
    """want: name -> (values in raw order, unit, h dependence)"""
    got = hl.file_state(path, 'Snapshot %d' % snap)
    case.check(set(got) == set(want), 'fields', lambda: '%s: fields %s, expected %s; extra %s, missing %s'
               % (what, len(got), len(want), sorted(set(got) - set(want)), sorted(set(want) - set(got))))
    n = len(order)
    mass = got['mass'][0]
    case.check(mass.shape == (n,), 'halo_count', lambda: '%s: %s halos, expected %d' % (what, mass.shape, n))
    case.check(bool(np.all(mass[:-1] >= mass[1:])), 'mass_order', '%s: halos are not in order of decreasing mass' % what)
    for name, (v, unit, hd) in want.items():
        gv, gu, gh = got[name]
        case.check(gu == unit and gh == hd, 'units', lambda: '%s: %s has unit %r, h^%s, expected %r, h^%s' % (what, name, gu, gh, unit, hd))
        if n == 0:
            case.check(gv.shape == (0,), 'empty', lambda: '%s: %s has shape %s in a snapshot without halos' % (what, name, gv.shape))
            continue
        v = np.asarray(v)[order]
        if v.dtype.kind in 'iu':
            case.check(gv.shape == v.shape and bool(np.all(gv == v)), 'values', lambda: '%s: %s is %s, expected %s' % (what, name, gv[:4], v[:4]))
        else:
            case.close(gv, v, 'values', '%s: %s' % (what, name), rtol=3e-6)
        case.observe('values_compared', n)
    judge_cuts(case, path, snap, mass, what)
    case.observe('halos', n)
    if n == 0:
        case.observe('empty_snapshots')
    # and the same through the interface users have
    from simim.siminterface import SimHandler
    h = SimHandler(sim).get_snap(snap)
    case.check(h.nhalos_all == n, 'interface_count', lambda: '%s: %d halos through the interface' % (what, h.nhalos_all))
    name = sorted(want)[int(case.rng.integers(len(want)))]
    case.close(h.return_property(name, in_h_units=True), np.asarray(want[name][0])[order], 'interface_values', '%s: %s through the interface' % (what, name), rtol=3e-6)


def judge_cuts(case, path, snap, mass, what):
    with h5py.File(path, 'r') as f:
        cuts = f['Snapshot %d' % snap]['mass_cuts'][:]
    for c in cuts:
        k = int(np.sum(mass >= c['min_mass']))
        case.check(int(c['index']) == k, 'mass_cuts', lambda: '%s: %d halos above %r according to the table, %d in the catalogue' % (what, c['index'], c['min_mass'], k))
        case.observe('halos_at_limits', int(np.sum(mass == c['min_mass'])))


def n_halos(rng):
    if rng.random() < .03:      # thousands, or more than two bytes can count
        return int(rng.integers(1000, 5000)) if rng.random() < .6 else int(rng.integers(66000, 70000))
    return int([1, rng.integers(2, 30), rng.integers(2, 30), rng.integers(2, 30), rng.integers(30, 200)][int(rng.integers(5))])


def by_mass(m):
    return np.argsort(np.asarray(m), kind='stable')[::-1]


def make(case, cls, sim, snaps, *a):
    d = sl.fresh_dir(case, 'raw sim' if case.rng.random() < 0.3 else 'raw')
    os.mkdir(os.path.join(d, 'raw'))
    return d


def pick_snaps(rng, n):
    k = int(rng.integers(1, min(3, n) + 1))
    return sorted(int(i) for i in rng.choice(n, size=k, replace=False))


def um(case, sim, binary):
    from simim.siminterface import UniversemachineCatalogs
    rng = case.rng
    n_files = int(rng.integers(2, 6))
    scale = np.sort(rng.choice(np.arange(60000, 1000000, 1000), size=n_files, replace=False)) / 1e6
    names = ['sfr_catalog_%.6f.%s' % (a, 'bin' if binary else 'txt') for a in scale]
    case.build.http = lambda url, *a, **k: rl.Response(rl.listing(names, rng))
    d = make(case, None, sim, None)
    snaps = pick_snaps(rng, n_files)
    with sl.answers('y'):
        cat = UniversemachineCatalogs(sim, path=d, snaps=snaps)
        cat.download_meta()
        truth = {}
        for k in snaps:
            n = n_halos(rng)
            c = rl.um_columns(rng, n, rl.UM_BOX[sim], wide=binary)
            orphan = rng.random(n) < 0.2 if binary else np.zeros(n, bool)
            if binary:
                if orphan.all():
                    orphan[0] = False
                rl.write_um_binary(os.path.join(d, 'raw', names[k]), c, orphan)
                case.observe('orphans', orphan.sum())
            else:
                rl.write_um_text(os.path.join(d, 'raw', names[k]), c, rng)
            truth[k] = {q: v[~orphan] for q, v in c.items()}
        cat.format(remake=True)
    h = rl.UM_COSMO['h']
    for k in snaps:
        c = truth[k]
        want = {}
        for raw, (name, unit, hd) in {**rl.UM_COMMON, **rl.XYZ, **(rl.UM_BIN_ONLY if binary else rl.UM_TEXT_ONLY)}.items():
            v = c[raw]
            if raw in ('sm', 'icl', 'obs_sm') or (raw in ('m', 'mp') and not binary):
                v = v.astype('d') * h
            elif raw == 'r':
                v = v.astype('d') / 1000
            elif raw in 'xyz' and binary:
                v = v % np.float32(rl.UM_BOX[sim])
            want[name] = (v, unit, hd)
        expect(case, d + '/data.hdf5', k, by_mass(c['m']), want, '%s snapshot %d (%s)' % (sim, k, names[k]), sim)
        case.observe('um_binary' if binary else 'um_text')
    case.nontrivial(sim, names, snaps)
    case.sample('%s: snapshots %s of %d, %s halos' % (sim, snaps, n_files, [len(truth[k]['m']) for k in snaps]))


def um_text(case):
    um(case, rl.UM_TEXT[0], False)


def um_binary(case):
    um(case, rl.UM_BIN[int(case.rng.integers(2))], True)


def uchuu(case):
    from simim.siminterface import UchuuCatalogs
    rng = case.rng
    n_files = int(rng.integers(2, 6))
    z = np.sort(rng.choice(np.arange(0, 1300), size=n_files, replace=False))[::-1] / 100
    names = ['MDPL_Uchuu_UM_z'.replace('MDPL_', '') + ('%.2f' % q).replace('.', 'p') + '_data1.h5' for q in z]
    case.build.http = lambda url, *a, **k: rl.Response(rl.listing(names + [n.replace('data1', 'data2') for n in names], rng))
    d = make(case, None, 'uchuu', None)
    snaps = pick_snaps(rng, n_files)
    truth = {}
    with sl.answers('y'):
        cat = UchuuCatalogs('UniverseMachine-uchuu', path=d, snaps=snaps)
        cat.download_meta()
        for k in snaps:
            n = n_halos(rng)
            c = rl.um_columns(rng, n, 2000.0)
            c['Mvir'], c['desc_id'] = c['m'], c['descid']
            truth[k] = c
            for df, cols in rl.UCHUU_FILE.items():
                with h5py.File(os.path.join(d, 'raw', names[k].replace('data1', 'data%d' % df)), 'w') as f:
                    for q in cols:
                        f.create_dataset(q, data=c[q])
        cat.format(remake=True)
    for k in snaps:
        c = truth[k]
        want = {name: (c[raw].astype('d') * rl.UCHUU_COSMO['h'] if raw in ('sm', 'icl', 'obs_sm') else c[raw], unit, hd)
                for raw, (name, unit, hd) in rl.UCHUU_FIELDS.items()}
        expect(case, d + '/data.hdf5', k, by_mass(c['Mvir']), want, 'uchuu snapshot %d (%s)' % (k, names[k]), 'UniverseMachine-uchuu')
        case.observe('uchuu')
    case.nontrivial('uchuu', names, snaps)


def illustris(case):
    from simim.siminterface import IllustrisCatalogs
    rng = case.rng
    sim = (rl.ILL + rl.TNG)[int(rng.integers(10))]
    tng, dark = sim in rl.TNG, sim.endswith('Dark')
    fields = dict(rl.ILL_BASE)
    if not dark:
        fields.update(rl.ILL_MATTER)
        if tng:
            fields.update(rl.TNG_MATTER)
            fields.update(rl.TNG_FLAG)
    all_snaps = [i for i in range(100 if tng else 136) if not (sim == 'Illustris-1' and i in (53, 55))]
    snaps = sorted(int(i) for i in rng.choice(all_snaps, size=int(rng.integers(1, 4)), replace=False))
    h = float(np.round(rng.uniform(0.6, 0.8), 4))
    z = dict(zip(snaps, np.sort(rng.uniform(0, 8, len(snaps)))[::-1].tolist()))
    box = 75000.0

    def http(url, *a, **k):
        if url.rstrip('/').endswith('snapshots'):
            rows = [{'number': s, 'redshift': z[s]} for s in snaps]
            return rl.Response(data=[rows[i] for i in rng.permutation(len(rows))])
        return rl.Response(data={'name': sim, 'boxsize': box, 'num_snapshots': len(all_snaps), 'cosmology': 'x', 'omega_0': 0.3, 'omega_L': 0.7,
                                 'omega_B': 0.05, 'hubble': h, 'num_files_groupcat': 3})
    case.build.http = http
    d = make(case, None, sim, None)
    truth = {}
    chunks = 0
    with sl.answers('y'):
        cat = IllustrisCatalogs(sim, 'key', path=d, snaps=snaps)
        cat.download_meta()
        for s in snaps:
            n = 0 if rng.random() < 0.15 else n_halos(rng)
            cols = {}
            for name, (subs, fac, unit, hd) in fields.items():
                if name == 'SubhaloFlag':
                    cols[name] = rng.integers(0, 2, n).astype('i4')
                elif name == 'SubhaloMass':
                    cols[name] = rl.distinct(rng, n, -2, 4)
                elif name == 'SubhaloPos':
                    cols[name] = rng.uniform(0, box, (n, 3)).astype('f4')
                else:
                    shape = (n, len(subs)) if len(subs) > 1 else (n,)
                    cols[name] = rng.normal(size=shape).astype('f4')
            if rng.random() < 0.3:
                cols['SubhaloSomethingElse'] = np.arange(n, dtype='f4')
            truth[s] = cols
            chunks += rl.write_illustris(os.path.join(d, 'raw'), s, cols, n, rng, tng)
        cat.format(remake=True)
    case.observe('chunks', chunks)
    for s in snaps:
        c = truth[s]
        want = {}
        for name, (subs, fac, unit, hd) in fields.items():
            for j, sub in enumerate(subs):
                if sub is None:
                    continue
                v = c[name][:, j] if c[name].ndim > 1 else c[name]
                want[sub] = (v if fac == 1 else v.astype('d') * fac, unit, hd)
        expect(case, d + '/data.hdf5', s, by_mass(c['SubhaloMass']), want, '%s snapshot %d' % (sim, s), sim)
        case.observe('illustris')
    case.nontrivial(sim, snaps, [len(truth[s]['SubhaloMass']) for s in snaps])
    case.sample('%s: snapshots %s, %s halos, %d files' % (sim, snaps, [len(truth[s]['SubhaloMass']) for s in snaps], chunks))


def synthetic(case):
    """A simulation brought in through the documented extension point, with ties in mass."""
    rng = case.rng
    s = sl.make_sim(case, n_halos=sl.some_halos(case, 60))
    r = rng.random()
    if r < 0.7:
        limits = np.logspace(6, 20, 141).astype('f')
        for raw in s.raw:
            n = len(raw['mass'])
            if r < 0.35:
                raw['mass'] = rng.choice(raw['mass'][:3], size=n)
            if r > 0.2:
                # masses that are exactly one of the tabulated limits
                k = int(rng.integers(1, n + 1))
                raw['mass'] = raw['mass'].copy()
                raw['mass'][rng.permutation(n)[:k]] = rng.choice(limits, size=k)
        with sl.answers('y'):
            s.Catalogs().format(remake=True)
    for k in range(s.n_snaps):
        got = hl.file_state(s.path + '/data.hdf5', 'Snapshot %d' % k)
        names = sorted(s.fields)
        case.check(set(got) == set(names), 'fields', lambda: 'fields %s' % sorted(got))
        case.check(bool(np.all(np.diff(got['mass'][0]) <= 0)), 'mass_order', 'halos are not in order of decreasing mass')
        judge_cuts(case, s.path + '/data.hdf5', k, got['mass'][0], 'snapshot %d' % k)
        rows = sorted(tuple(float(got[q][0][i]) for q in names) for i in range(len(got['mass'][0])))
        want = sorted(tuple(float(s.raw[k][q].astype(s.fields[q][0])[i]) for q in names) for i in range(len(s.raw[k]['mass'])))
        case.check(rows == want, 'halos', 'the halos of snapshot %d are not those of the raw catalogue' % k)
        for q in names:
            case.check(got[q][1:] == s.fields[q][1:], 'units', lambda: '%s has unit %s' % (q, got[q][1:]))
        case.observe('halos', len(rows))
        case.observe('values_compared', len(rows) * len(names))
    case.nontrivial(s.h, s.n_snaps)


SCENARIOS = [('um_text', um_text, 20, 300), ('um_binary', um_binary, 20, 300), ('uchuu', uchuu, 20, 300),
             ('illustris', illustris, 36, 500), ('synthetic', synthetic, 24, 300)]
MINIMUM = {'values_compared': 50000, 'halos': 1500, 'orphans': 50, 'um_text': 15, 'um_binary': 15, 'uchuu': 15, 'illustris': 30,
           'chunks': 60, 'empty_snapshots': 3, 'halos_at_limits': 30}
