"""C19: snapshot metadata follow from the published redshifts: snapshots tile cosmic
time, and each number names the data with that redshift."""
import os

import numpy as np
import rawlib as rl
import simlib as sl

PROPERTY = 'C19'
NEEDS_DATA = True
RULE = ('a case is one simulation and a random list of snapshots, published by a stand-in server in any order; the metadata made '
        'from it are compared with the snapshot times worked out independently, and with what is written to disk; told apart by '
        'simulation and snapshots')


def reference(z, om, ob, h):
    """Ages and distances (Mpc/h) of redshifts, and redshifts of ages, by integration."""
    from scipy.integrate import quad
    # matter, photons and (massless) neutrinos of Tcmb0 = 2.7255 K
    og = 4.48e-7 * (1 + 0.6904) * 2.7255 ** 4 / h ** 2
    ode = 1 - om - og
    e = lambda a: np.sqrt(om * a ** -3 + og * a ** -4 + ode)
    th = 977.792221 / (100 * h)  # Gyr
    age = lambda q: th * quad(lambda a: 1 / (a * e(a)), 0, 1 / (1 + q), epsrel=1e-9)[0]
    dist = lambda q: 2997.92458 * quad(lambda x: 1 / e(1 / (1 + x)), 0, q, epsrel=1e-9)[0]
    return age, dist


def judge(case, meta, numbers, redshifts, cosmo, what):
    """numbers and redshifts in order of increasing time."""
    age, dist = reference(0, cosmo['om'], cosmo['ob'], cosmo['h'])
    meta = np.sort(meta, order='index')
    case.check([int(i) for i in meta['index']] == list(numbers), 'numbers', lambda: '%s: snapshots %s, expected %s' % (what, meta['index'], numbers))
    n = len(numbers)
    ages = [age(z) for z in redshifts]
    for i, m in enumerate(meta):
        tag = '%s, snapshot %d' % (what, numbers[i])
        case.close(float(m['redshift']), redshifts[i], 'redshift', tag + ': redshift', rtol=2e-6, atol=2e-6)
        t0 = ages[0] if i == 0 else (ages[i - 1] + ages[i]) / 2
        t1 = age(0) if i == n - 1 else (ages[i] + ages[i + 1]) / 2
        case.close(float(m['time_start']), t0, 'time_start', tag + ': starting time', rtol=1e-3)
        case.close(float(m['time_end']), t1, 'time_end', tag + ': final time', rtol=1e-3)
        # boundaries are where the age is half way
        case.close(age(float(m['redshift_max'])), t0, 'redshift_max', tag + ': age at its highest redshift', rtol=1e-3)
        case.close(age(float(m['redshift_min'])), t1, 'redshift_min', tag + ': age at its lowest redshift', rtol=1e-3)
        for end in ('min', 'max'):
            d = dist(float(m['redshift_' + end]))
            for pre in ('distance_', 'transverse_distance_'):
                case.close(float(m[pre + end]), d, pre + end, '%s: %s%s in Mpc/h' % (tag, pre, end), rtol=1e-3, atol=0.02)
        if i > 0:
            for q in ('redshift', 'distance', 'transverse_distance'):
                case.check(meta[i - 1][q + '_min'] == m[q + '_max'], 'tiling', lambda: '%s: %s from %r but the previous ended at %r'
                           % (tag, q, m[q + '_max'], meta[i - 1][q + '_min']))
            case.check(meta[i - 1]['time_end'] == m['time_start'], 'tiling', lambda: tag + ': times do not tile')
        case.observe('snapshots')
    case.check(meta[-1]['redshift_min'] == 0 and meta[-1]['distance_min'] == 0, 'to_today', lambda: '%s: the last snapshot ends at redshift %r' % (what, meta[-1]['redshift_min']))
    case.close(float(meta[0]['redshift_max']), redshifts[0], 'from_first', '%s: the first snapshot begins at its redshift' % what, rtol=2e-6, atol=2e-6)


def common(case, cat, d, box, cosmo, what):
    m = cat.metadata
    case.close(float(m['box_edge']), box, 'box_edge', what + ': box edge in Mpc/h')
    case.close([m['cosmo_h'], m['cosmo_omega_matter'], m['cosmo_omega_baryon'], m['cosmo_omega_lambda']],
               [cosmo['h'], cosmo['om'], cosmo['ob'], cosmo['ol']], 'cosmology', what + ': cosmology')
    case.check(m['name'] == cat.sim, 'name', lambda: '%s: named %s' % (what, m['name']))
    # what is on disk is the same, and is what a new instance uses
    disk = np.load(os.path.join(d, 'meta_snaps.npy'))
    case.check(disk.dtype == cat.snap_meta.dtype and bool(np.all(disk == cat.snap_meta)), 'disk', what + ': snapshot metadata on disk differ')
    dm = np.load(os.path.join(d, 'meta.npy'), allow_pickle=True).item()
    case.check(dm == dict(m), 'disk', what + ': metadata on disk differ')


def um(case):
    from simim.siminterface import UniversemachineCatalogs
    rng = case.rng
    sim = (rl.UM_TEXT + rl.UM_BIN)[int(rng.integers(3))]
    n = int(rng.integers(2, 12))
    scale = np.sort(rng.choice(np.arange(40000, 1000001, 500), size=n, replace=False)) / 1e6
    names = ['sfr_catalog_%.6f.%s' % (a, 'bin' if sim in rl.UM_BIN else 'txt') for a in scale]
    case.build.http = lambda url, *a, **k: rl.Response(rl.listing(names, rng))
    d = sl.fresh_dir(case, 'meta')
    snaps = sorted(int(i) for i in rng.choice(n, size=int(rng.integers(1, n + 1)), replace=False))
    if rng.random() < 0.4:
        snaps = list(range(n))
    given = [snaps[i] for i in rng.permutation(len(snaps))]
    with sl.answers('y'):
        cat = UniversemachineCatalogs(sim, path=d, snaps=given)
        cat.download_meta()
    judge(case, cat.snap_meta, snaps, [1 / scale[k] - 1 for k in snaps], rl.UM_COSMO, sim)
    common(case, cat, d, rl.UM_BOX[sim], rl.UM_COSMO, sim)
    # the number names the file with that redshift, when downloaded too
    got = {}
    case.build.retrieve = lambda url, filename: (got.setdefault(os.path.basename(filename), url), open(filename, 'w').close())
    have = [k for k in snaps if rng.random() < 0.3]
    with sl.answers('y'):
        os.mkdir(os.path.join(d, 'raw'))
        for k in have:
            open(os.path.join(d, 'raw', names[k]), 'w').close()
        again = UniversemachineCatalogs(sim, path=d, snaps=[given, tuple(given), np.array(given)][int(rng.integers(3))])
        redo = bool(rng.random() < 0.3)
        again.download(redownload=redo)
    want = sorted(names[k] for k in snaps if redo or k not in have)
    case.check(sorted(got) == want, 'downloads', lambda: '%s: downloaded %s, expected %s' % (sim, sorted(got), want))
    case.check(all(u.endswith('/' + f) for f, u in got.items()), 'download_names', lambda: 'downloaded %s' % got)
    case.check(sorted(os.listdir(os.path.join(d, 'raw'))) == sorted(names[k] for k in snaps), 'raw_files', lambda: 'raw files %s' % os.listdir(os.path.join(d, 'raw')))
    case.observe('downloads', len(got))
    case.nontrivial(sim, names, snaps)
    case.sample('%s: snapshots %s of %d, first redshift %.3f' % (sim, snaps, n, 1 / scale[snaps[0]] - 1))


def uchuu(case):
    from simim.siminterface import UchuuCatalogs
    rng = case.rng
    n = int(rng.integers(2, 12))
    z = np.sort(rng.choice(np.arange(0, 1400), size=n, replace=False))[::-1] / 100
    names = ['Uchuu_UM_z' + ('%.2f' % q).replace('.', 'p') + '_data1.h5' for q in z]
    case.build.http = lambda url, *a, **k: rl.Response(rl.listing(names + [q.replace('data1', 'data3') for q in names], rng))
    d = sl.fresh_dir(case, 'meta')
    snaps = sorted(int(i) for i in rng.choice(n, size=int(rng.integers(1, n + 1)), replace=False))
    sim = 'UniverseMachine-uchuu'
    with sl.answers('y'):
        cat = UchuuCatalogs(sim, path=d, snaps=[snaps[i] for i in rng.permutation(len(snaps))])
        cat.download_meta()
    judge(case, cat.snap_meta, snaps, [z[k] for k in snaps], rl.UCHUU_COSMO, sim)
    common(case, cat, d, 2000, rl.UCHUU_COSMO, sim)
    got = {}
    case.build.retrieve = lambda url, filename: (got.setdefault(os.path.basename(filename), url), open(filename, 'w').close())
    files = [[1, 2, 3], [1], [1, 2, 3, 4, 12]][int(rng.integers(3))]
    have = [(k, f) for k in snaps for f in files if rng.random() < 0.3]
    redo = bool(rng.random() < 0.3)
    with sl.answers('y'):
        os.mkdir(os.path.join(d, 'raw'))
        for k, f in have:
            open(os.path.join(d, 'raw', names[k].replace('data1', 'data%d' % f)), 'w').close()
        UchuuCatalogs(sim, path=d, snaps=snaps).download(redownload=redo, datafiles=list(files))
    want = sorted(names[k].replace('data1', 'data%d' % f) for k in snaps for f in files if redo or (k, f) not in have)
    case.check(sorted(got) == want, 'downloads', lambda: '%s: downloaded %s, expected %s' % (sim, sorted(got), want))
    case.check(all(u.endswith('/' + f) for f, u in got.items()), 'download_names', lambda: 'downloaded %s' % got)
    case.observe('downloads', len(got))
    case.nontrivial(sim, names, snaps)


def illustris(case, published=None, zs=None):
    from simim.siminterface import IllustrisCatalogs
    rng = case.rng
    sim = (rl.ILL + rl.TNG)[int(rng.integers(10))]
    all_snaps = [i for i in range(100 if sim in rl.TNG else 136) if not (sim == 'Illustris-1' and i in (53, 55))]
    n = int(rng.integers(1, 10))
    if published is None:
        published = sorted(int(i) for i in rng.choice(all_snaps, size=n + int(rng.integers(0, 4)), replace=False))
        zs = np.sort(rng.uniform(0, 12, len(published)))[::-1]
        if rng.random() < 0.3:
            zs[-1] = 0.0
    else:
        n = len(published)
    z = dict(zip(published, zs.tolist()))
    snaps = sorted(int(i) for i in rng.choice(published, size=n, replace=False))
    om = float(np.round(rng.uniform(0.2, 0.4), 4))
    cosmo = {'h': float(np.round(rng.uniform(0.6, 0.8), 4)), 'om': om, 'ol': 1 - om, 'ob': 0.0456}
    box = float(rng.integers(30000, 300000))

    def http(url, *a, **k):
        case.check(k.get('headers', {}).get('api-key') == 'my key', 'api_key', lambda: 'asked without the key: %s' % k)
        if url.rstrip('/').endswith('snapshots'):
            rows = [{'number': s, 'redshift': z[s]} for s in published]
            return rl.Response(data=[rows[i] for i in rng.permutation(len(rows))])
        return rl.Response(data={'name': sim, 'boxsize': box, 'num_snapshots': 136, 'cosmology': 'x', 'omega_0': cosmo['om'], 'omega_L': cosmo['ol'],
                                 'omega_B': cosmo['ob'], 'hubble': cosmo['h'], 'num_files_groupcat': 3})
    case.build.http = http
    d = sl.fresh_dir(case, 'meta')
    with sl.answers('y'):
        cat = IllustrisCatalogs(sim, 'my key', path=d, snaps=[snaps[i] for i in rng.permutation(len(snaps))])
        cat.download_meta()
    judge(case, cat.snap_meta, snaps, [z[k] for k in snaps], cosmo, sim)
    common(case, cat, d, box / 1000, cosmo, sim)
    case.nontrivial(sim, snaps, box)


def session(case):
    """Simulations of other cosmologies published with the same redshifts, one after the other."""
    rng = case.rng
    published = [int(i) for i in np.sort(rng.choice(50, size=int(rng.integers(2, 6)), replace=False))]
    zs = np.sort(rng.uniform(0, 8, len(published)))[::-1]
    for _ in range(int(rng.integers(2, 4))):
        illustris(case, published, zs)
        case.observe('same_redshifts')
    case.nontrivial(published, zs)


def unknown(case):
    """Snapshots that do not exist are left out; metadata that exist are not made again unless asked."""
    from simim.siminterface import IllustrisCatalogs, UniversemachineCatalogs
    rng = case.rng
    case.build.http = None
    d = sl.fresh_dir(case, 'meta')
    with sl.answers('y'):
        cat = IllustrisCatalogs('Illustris-1', 'key', path=d, snaps=[53, 20, 55, 135, 136, -1, 20])
        case.check([int(i) for i in cat.snaps] == [20, 135], 'unknown_snapshots', lambda: 'snapshots %s' % cat.snaps)
        cat = UniversemachineCatalogs('_testbox', path=d, snaps=[2, 7])
        case.check([int(i) for i in cat.snaps] == [2], 'unknown_snapshots', lambda: 'snapshots %s' % cat.snaps)
        cat = UniversemachineCatalogs('_testbox', path=d, snaps='all')
        cat.download_meta()
        judge(case, cat.snap_meta, [0, 1, 2], [1 / 0.055623 - 1, 1 / 0.506185 - 1, 1 / 0.994717 - 1], rl.UM_COSMO, '_testbox')
        before = np.load(os.path.join(d, 'meta_snaps.npy'))
        keep = UniversemachineCatalogs('_testbox', path=d, snaps=[1])
        keep.download_meta()
        case.check(bool(np.all(np.load(os.path.join(d, 'meta_snaps.npy')) == before)), 'kept', 'metadata were made again without being asked')
        keep.download_meta(redownload=True)
        judge(case, np.load(os.path.join(d, 'meta_snaps.npy')), [1], [1 / 0.506185 - 1], rl.UM_COSMO, '_testbox, one snapshot')
    case.refuses('unknown_simulation', 'an unknown simulation was accepted', UniversemachineCatalogs, 'UniverseMachine-Nothing', d)
    case.refuses('unknown_path', 'a path that does not exist was accepted', UniversemachineCatalogs, '_testbox', d + '/nothing')
    case.nontrivial(case.index)


SCENARIOS = [('um', um, 24, 250), ('uchuu', uchuu, 24, 250), ('illustris', illustris, 24, 250), ('session', session, 8, 80), ('unknown', unknown, 8, 16)]
MINIMUM = {'same_redshifts': 16, 'snapshots': 200, 'downloads': 60, 'refusals_observed': 16}
