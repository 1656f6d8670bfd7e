"""Workloads and references for light cones: random simulations, light cone and
sphere specifications that fit them, and the set of objects they have to hold,
worked out by going through every periodic image of every halo."""
import os
import shutil

import h5py
import numpy as np
import simlib as sl

BASIC = ['pos_x', 'pos_y', 'pos_z', 'ra', 'dec', 'redshift', 'mass']


def setup(run):
    """The package tabulates 100000 distances whenever it makes light cones, one
    quadrature each.  For such tables the same integral is done in one go (to
    1e-12, checked here), so that there is time for more light cones."""
    from astropy.cosmology import FlatLambdaCDM
    import astropy.units as u
    real = FlatLambdaCDM.comoving_distance
    node, weight = np.polynomial.legendre.leggauss(5)

    def comoving_distance(self, z, *a, **k):
        if a or k or isinstance(z, u.Quantity) or np.ndim(z) != 1 or np.size(z) < 5000 or z[0] != 0 or np.any(np.diff(z) <= 0):
            return real(self, z, *a, **k)
        lo, hi = z[:-1, None], z[1:, None]
        f = self.inv_efunc((hi + lo) / 2 + (hi - lo) / 2 * node)
        step = np.sum(f * weight, axis=1) * (hi - lo)[:, 0] / 2
        d = np.concatenate([[0.0], np.cumsum(step)])
        return d * self.hubble_distance
    c = sl.cosmology(0.7, 0.3, 0.05)
    z = np.linspace(0, 20.05, 100000)
    d = comoving_distance(c, z).value
    pick = np.array([0, 1, 17, 500, 30001, 99999])
    if not np.allclose(d[pick], real(c, z[pick]).value, rtol=1e-11):
        raise AssertionError('fast distances are wrong')
    FlatLambdaCDM.comoving_distance = comoving_distance


def unique_masses(s, rng):
    """Give every halo of the simulation a mass of its own, so that an object of
    a light cone can be told by its mass."""
    n = sum(len(r['mass']) for r in s)
    m = sl.distinct_masses(rng, n)
    i = 0
    for r in s:
        r['mass'] = m[i:i + len(r['mass'])]
        i += len(r['mass'])


def lc_sim(case, name=sl.SIM, box=None, n_snaps=None, zmax=0.3, n_halos=(300, 4000), h=None, gap=0.01):
    """A random simulation for light cones; every halo has its own mass."""
    rng = case.rng
    # light cones of earlier cases
    shutil.rmtree(os.path.join(case.build.root, 'simim_resources', 'lightcones', name), ignore_errors=True)
    os.makedirs(os.path.join(case.build.root, 'simim_resources', 'lightcones', name))
    n_snaps = int(rng.integers(1, 5)) if n_snaps is None else n_snaps
    z = np.sort(rng.uniform(gap, zmax, size=n_snaps))[::-1]
    while n_snaps > 1 and np.min(-np.diff(z)) < gap:
        z = np.sort(rng.uniform(gap, zmax, size=n_snaps))[::-1]
    box = float(np.round(rng.uniform(40, 150), 2)) if box is None else box
    fields = sl.random_fields(rng, int(rng.integers(1, 4)))
    for ax in 'xyz':
        fields['spin_' + ax] = ('f', 'Mpc/h km/s', -1)
        fields['cm_' + ax] = ('f', 'Mpc/h', -1)
    halos = [sl.random_halos(rng, int(np.exp(rng.uniform(*np.log(n_halos)))) if rng.random() > 0.08 else int(rng.integers(0, 3)),
                             box, fields) for _ in range(n_snaps)]
    unique_masses(halos, rng)
    for r in halos:
        for ax in 'xyz':  # next to the halo, across the faces of the box too
            r['cm_' + ax] = (r['pos_' + ax].astype(float) + rng.normal(0, 0.05, len(r['mass']))).astype('f') % np.float32(box)
    return sl.make_sim(case, n_snaps=n_snaps, redshifts=z, box=box, fields=fields, halos=halos, name=name, h=h, labels='mixed')


def D(s, z):
    return float(s.cosmo.comoving_distance(z).value) * s.h if z > 0 else 0.0


class Spec:
    def __repr__(self):
        return 'Spec(%s)' % ', '.join('%s=%r' % (k, v) for k, v in sorted(vars(self).items()))


def redshift_limits(case, s):
    """Limits in and around the simulation's redshifts."""
    rng = case.rng
    top = float(s.snaps['redshift_max'].max())
    r = rng.random()
    if r < 0.2:
        return 0, 'max'
    if r < 0.4:
        return 0, float(rng.uniform(0.3, 1) * top)
    if r < 0.5:
        k = int(rng.integers(s.n_snaps))
        a = float(s.snaps['redshift_min'][k])  # at the boundary of two snapshots
        return (a, top) if rng.random() < 0.5 and a > 0 else (0, max(a, 0.5 * top))
    a, b = np.sort(rng.uniform(0, top, 2))
    while b - a < 0.1 * top:
        a, b = np.sort(rng.uniform(0, top, 2))
    return float(a), float(b)


def mass_limit(case, s):
    rng = case.rng
    r = rng.random()
    if r < 0.3:
        return 0
    if r < 0.6:  # exactly the mass of a halo, which belongs to the light cone
        m = np.concatenate([t['mass'] for t in s.truth])
        m = np.sort(m)[:len(m) // 2 + 1]
        return float(m[int(rng.integers(len(m)))]) if len(m) else 1e10
    return float(10 ** rng.uniform(9, 12))


def cone_spec(case, s, wide=0.3):
    """A light cone that fits the simulation's box."""
    rng = case.rng
    c = Spec()
    c.mode = ['box', 'circle'][int(rng.integers(2))]
    c.zmin, c.zmax = redshift_limits(case, s)
    z1 = float(s.snaps['redshift_max'].max()) if c.zmax == 'max' else c.zmax
    c.z1 = z1
    # furthest plane that the package considers: the end of the last snapshot
    far = max(D(s, float(r['redshift_max'])) for r in s.snaps if r['redshift_min'] <= z1)
    c.aspect = 1 if c.mode == 'circle' or rng.random() < 0.3 else float(rng.uniform(0.2, 1))
    half = 0.5 * np.sqrt(1 + c.aspect ** 2) if c.mode == 'box' else 0.5
    c.angle = float(rng.uniform(0.3, 1) * wide * s.box / far / half)
    c.angle = min(c.angle, np.radians(float(rng.choice([9.0, 13.0]))) / half)
    c.mass = mass_limit(case, s)
    return c


def crowded(case):
    """Snapshots of more halos than two bytes can count, and a narrow light cone."""
    rng = case.rng
    s = lc_sim(case, n_snaps=int(rng.integers(1, 3)), zmax=.12, gap=.03, box=float(np.round(rng.uniform(60, 90), 2)), n_halos=(66000, 90000))
    c = cone_spec(case, s)
    c.zmin, c.mass = 0, 0
    c.angle = float(rng.uniform(.03, .07))
    case.observe('crowded_simulations')
    return s, c


def crowded_sphere(case):
    s = sphere_sim(case, n_snaps=1, box=float(np.round(case.rng.uniform(60, 90), 2)), n_halos=(66000, 80000))
    c = sphere_spec(case, s)
    c.zmin, c.mass = float(c.z1 * case.rng.uniform(.97, .99)), 0
    case.observe('crowded_simulations')
    return s, c


def make_cone(s, c, name, overwrite=True):
    from simim.lightcone import LCMaker
    kw = dict(redshift_min=c.zmin, redshift_max=c.zmax, minimum_mass=c.mass, mode=c.mode, overwrite=overwrite)
    return LCMaker(s.name, name, np.degrees(c.angle), c.aspect, **kw)


def read(path):
    """Everything a light cone file holds."""
    out = {}
    with h5py.File(path, 'r') as f:
        attrs = {k: f.attrs[k] for k in f.attrs}
        for k in f['Lightcone Full']:
            d = f['Lightcone Full'][k]
            out[k] = d[:]
        index = f['Indexing']['redshift_indices'][:]
    return attrs, out, index


def images(s, snap, flips, start, dmax, R=None, spread=None, least=0.0):
    """Periodic images of the halos of a snapshot, relative to the observer:
    (halo, position) of all closer than dmax.  With R and spread: only those in
    periods of the box that come within spread * dmax of the first axis of R,
    not further than least behind the observer (a superset of these)."""
    t = s.truth[snap]
    p = np.array([t['pos_' + a] for a in 'xyz']).T.astype(float)
    base = (p * flips) % s.box - start
    k0, k1 = int(np.floor(-dmax / s.box)) - 2, int(np.ceil(dmax / s.box)) + 2
    ks = np.arange(k0, k1 + 1) * s.box
    cells = np.array(np.meshgrid(ks, ks, ks, indexing='ij')).reshape(3, -1).T
    mid = cells + s.box / 2 - start
    diag = s.box * np.sqrt(3) / 2 * 1.001
    ok = np.sqrt(np.sum(mid ** 2, axis=1)) < dmax + diag
    if R is not None:
        v = mid @ R.T
        ok &= np.hypot(v[:, 1], v[:, 2]) < spread * dmax + diag
        ok &= v[:, 0] > -least - diag
    who, pos = [np.zeros(0, int)], [np.zeros((0, 3))]
    for cell in cells[ok]:
        q = base + cell
        near = np.nonzero(np.sum(q ** 2, axis=1) <= dmax ** 2)[0]
        who.append(near)
        pos.append(q[near])
    return np.concatenate(who), np.concatenate(pos)


TOL = 2e-6


def ranges(s, z0, z1):
    """Distance range each snapshot stands for within the redshift range."""
    a, b = D(s, z0), D(s, z1)
    out = []
    for k in range(s.n_snaps):
        lo, hi = max(float(s.snaps[k]['distance_min']), a), min(float(s.snaps[k]['distance_max']), b)
        if hi > lo:
            out.append((k, lo, hi))
    return out


def expected_cone(s, c, attrs):
    """List of (mass, x, y, z, sure): every image of every halo in the field."""
    R = np.asarray(attrs['position angle transformation matrix']) @ np.asarray(attrs['line of sight transformation matrix'])
    flips, start = np.asarray(attrs['box flips']), np.asarray(attrs['start position'])
    rows = []
    for k, lo, hi in ranges(s, c.zmin, c.z1):
        reach = hi * (1 + TOL) + TOL
        who, q = images(s, k, flips, start, reach, R, 1.1 * c.angle, 1.0)
        m = s.truth[k]['mass'][who]
        v = q @ R.T
        d = np.sqrt(np.sum(v ** 2, axis=1))
        d = np.where(d == 0, 1e-30, d)
        x, y, z = v[:, 1], v[:, 2], v[:, 0]
        if c.mode == 'circle':
            off = [np.hypot(x, y) / d - c.angle / 2]
        else:
            off = [np.abs(x) / d - c.angle / 2, np.abs(y) / d - c.angle * c.aspect / 2]
        worst = np.max(off, axis=0)
        tol_a = TOL * s.box / d + TOL * c.angle
        tol_d = TOL * (s.box + d)
        keep = (worst < tol_a) & (d > lo - tol_d) & (d < hi + tol_d) & (m >= c.mass) & (z > -tol_d)
        sure = (worst < -tol_a) & (d > lo + tol_d) & (d < hi - tol_d) & (z > tol_d)
        for i in np.nonzero(keep)[0]:
            rows.append((float(m[i]), x[i], y[i], z[i], bool(sure[i]), k, int(who[i])))
    return rows


def expected_sphere(s, c, attrs):
    flips, start = np.asarray(attrs['box flips']), np.asarray(attrs['start position'])
    rows = []
    for k, lo, hi in ranges(s, c.zmin, c.z1):
        reach = hi * (1 + TOL) + TOL
        who, v = images(s, k, flips, start, reach)
        m = s.truth[k]['mass'][who]
        d = np.sqrt(np.sum(v ** 2, axis=1))
        tol_d = TOL * (s.box + d)
        axes = {'sphere': [], 'hemisphere': [2], 'quarter': [1, 2], 'eighth': [0, 1, 2]}[c.mode]
        keep = (d > lo - tol_d) & (d < hi + tol_d) & (m >= c.mass)
        sure = (d > lo + tol_d) & (d < hi - tol_d)
        for a in axes:
            keep &= v[:, a] > -tol_d
            sure &= v[:, a] > tol_d
        for i in np.nonzero(keep)[0]:
            rows.append((float(m[i]), v[i, 0], v[i, 1], v[i, 2], bool(sure[i]), k, int(who[i])))
    return rows


def match(case, s, got, rows, what, judge=('expected', 'once', 'complete'), missing_key='object_missing'):
    """Objects of the light cone against the expected ones, by mass and place.
    Returns for each object the (snapshot, halo) it is, or None."""
    tol = 4e-6 * (s.box + max([abs(r[3]) for r in rows] + [0.0]) * 2)
    by_mass = {}
    for j, r in enumerate(rows):
        by_mass.setdefault(r[0], []).append(j)
    taken = set()
    ident = []
    for i in range(len(got['mass'])):
        cand = by_mass.get(float(got['mass'][i]), [])
        x = np.array([got['pos_x'][i], got['pos_y'][i], got['pos_z'][i]], float)
        best, dist = None, np.inf
        for j in cand:
            dj = np.max(np.abs(x - np.array(rows[j][1:4])))
            if dj < dist:
                best, dist = j, dj
        ok = best is not None and dist < tol
        if 'expected' in judge:
            case.check(ok, 'object_not_expected',
                       lambda: '%s: object %d (mass %r at %s) is no image of a halo of the simulation inside the field: nearest image with this mass %s'
                       % (what, i, got['mass'][i], x, None if best is None else rows[best]))
        if not ok:
            ident.append(None)
            continue
        if 'once' in judge:
            case.check(best not in taken, 'object_twice', lambda: '%s: object %d (%s) is there twice' % (what, i, rows[best]))
        taken.add(best)
        ident.append((rows[best][5], rows[best][6]))
    if 'complete' not in judge:
        rows = []
    for j, r in enumerate(rows):
        if r[4]:
            case.check(j in taken, missing_key,
                       lambda: '%s: halo of mass %r at (x,y,z)=%s of snapshot %d is in the field but missing (%d objects, %d expected)'
                       % (what, r[0], r[1:4], r[5], len(got['mass']), len(rows)))
    case.observe('objects', len(got['mass']))
    case.observe('images_expected', sum(r[4] for r in rows))
    return ident


def sphere_spec(case, s, beyond=False):
    rng = case.rng
    c = Spec()
    c.mode = ['sphere', 'hemisphere', 'quarter', 'eighth'][int(rng.integers(4))]
    c.limit = s.box if c.mode == 'eighth' else s.box / 2
    if beyond:
        reach = float(rng.uniform(c.limit * 1.02, c.limit / s.h * 0.995)) if c.limit * 1.03 < c.limit / s.h else None
    else:
        reach = float(rng.uniform(0.4, 0.995)) * c.limit
    c.reach = reach
    if reach is None:
        return None
    from scipy.optimize import brentq
    top = float(s.snaps['redshift_max'].max())
    if D(s, top) < reach:
        if beyond:
            return None
        c.zmax = 'max' if rng.random() < 0.5 else top
        c.z1 = top
    else:
        c.zmax = c.z1 = float(brentq(lambda z: D(s, z) - reach, 1e-9, top))
    c.zmin = 0 if rng.random() < 0.5 else float(rng.uniform(0, 0.8) * c.z1)
    inner = [float(z) for z in s.snaps['redshift_min'] if 0 < z < c.z1]
    if inner and rng.random() < 0.15:
        c.zmin = inner[int(rng.integers(len(inner)))]
    c.mass = mass_limit(case, s)
    return c


def make_sphere(s, c, name, overwrite=True):
    from simim.lightcone import SphereMaker
    return SphereMaker(s.name, name, redshift_min=c.zmin, redshift_max=c.zmax, minimum_mass=c.mass, mode=c.mode, overwrite=overwrite)


def sphere_sim(case, **kw):
    return lc_sim(case, zmax=float(case.rng.uniform(0.01, 0.06)), gap=0.001, **kw)


def derived(case, s, c, got, what):
    """Columns that follow from the position of each object."""
    x, y, z = (np.asarray(got['pos_' + a], float) for a in 'xyz')
    d = np.sqrt(x ** 2 + y ** 2 + z ** 2)
    for k in BASIC:
        case.check(got[k].shape == x.shape, 'lengths', lambda: '%s: %d objects have %s values of %s' % (what, len(x), got[k].shape, k))
    if not len(x):
        return
    if c.mode in ('box', 'circle'):
        case.close(got['ra'], x / d, 'ra', what + ': ra is pos_x over distance', rtol=1e-6, atol=1e-12)
        case.close(got['dec'], y / d, 'dec', what + ': dec is pos_y over distance', rtol=1e-6, atol=1e-12)
    else:
        rho = np.hypot(x, y)
        want = np.arctan2(y, x) % (2 * np.pi)
        diff = (got['ra'] - want + np.pi) % (2 * np.pi) - np.pi
        case.check(bool(np.all(np.abs(diff) * rho < 1e-6 * d)), 'ra', what + ': ra is not the direction of the object')
        case.check(bool(np.all((got['ra'] >= 0) & (got['ra'] <= 2 * np.pi))), 'ra_range', what + ': ra is not within 0 and 2 pi')
        case.close(got['dec'], np.arctan2(z, rho), 'dec', what + ': dec is not the direction of the object', rtol=1e-6, atol=1e-7)
    pick = case.rng.permutation(len(x))[:40]
    back = np.array([D(s, float(v)) for v in got['redshift'][pick]])
    case.close(back, d[pick], 'redshift', what + ': distance of the redshift against the distance of the object', rtol=2e-6, atol=1e-4)
    case.check(bool(np.all((got['redshift'] >= c.zmin - 2e-6) & (got['redshift'] <= c.z1 + 2e-6))), 'redshift_range',
               lambda: '%s: redshifts %s..%s outside the range asked for %s..%s' % (what, got['redshift'].min(), got['redshift'].max(), c.zmin, c.z1))
    case.check(bool(np.all(got['mass'] >= np.float32(c.mass))), 'mass_range', lambda: '%s: mass %s below the minimum %s' % (what, got['mass'].min(), c.mass))


def build(case, s, mk, n, seed=None):
    seed = int(case.rng.integers(1 << 30)) if seed is None else seed
    mk.build_lightcones(n, rng=np.random.default_rng(seed))
    case.observe('light_cones', n)
    return seed


def files(mk, n):
    return [os.path.join(mk.lc_path, 'lc_%04d.hdf5' % i) for i in range(n)]
