"""Workloads for the simulation side: synthetic simulations, brought into the
package through its documented extension point (a SimCatalogs subclass with its
own loader and field tables), and reference copies of what they hold."""
import builtins
import os
import shutil

import numpy as np

SIM = '_testbox'

META_DTYPE = [('index', 'i'), ('redshift', 'f'), ('redshift_min', 'f'), ('redshift_max', 'f'),
              ('time_start', 'f'), ('time_end', 'f'), ('distance_min', 'f'), ('distance_max', 'f'),
              ('transverse_distance_min', 'f'), ('transverse_distance_max', 'f')]


class answers:
    """Answer the package's questions; records them."""

    def __init__(self, *replies):
        self.replies = list(replies)
        self.asked = []

    def __enter__(self):
        self.old = builtins.input

        def fake(prompt=''):
            self.asked.append(prompt)
            return self.replies.pop(0) if len(self.replies) > 1 else self.replies[0]
        builtins.input = fake
        return self

    def __exit__(self, *a):
        builtins.input = self.old


def cosmology(h, om, ob):
    from astropy.cosmology import FlatLambdaCDM
    import astropy.units as u
    return FlatLambdaCDM(H0=100 * h * u.km / u.s / u.Mpc, Om0=om, Ob0=ob, Tcmb0=2.7255 * u.K)


def snapshot_table(redshifts, cosmo, h):
    """Snapshots tile redshift from 0 to the highest: a boundary is half way, in
    cosmic time, between two neighbours.  redshifts: descending."""
    from astropy.cosmology import z_at_value
    import astropy.units as u
    z = np.asarray(redshifts, float)
    n = len(z)
    bounds = [z[0]]
    for i in range(n - 1):
        t = (cosmo.age(z[i]).value + cosmo.age(z[i + 1]).value) / 2
        bounds.append(float(z_at_value(cosmo.age, t * u.Gyr)))
    bounds.append(0.0)
    t = np.zeros(n, dtype=META_DTYPE)
    for i in range(n):
        t[i]['index'] = i
        t[i]['redshift'] = z[i]
        t[i]['redshift_max'], t[i]['redshift_min'] = bounds[i], bounds[i + 1]
        t[i]['time_start'] = cosmo.age(bounds[i]).value
        t[i]['time_end'] = cosmo.age(bounds[i + 1]).value
        for pre in ('distance', 'transverse_distance'):
            t[i][pre + '_max'] = cosmo.comoving_distance(bounds[i]).value * h
            t[i][pre + '_min'] = cosmo.comoving_distance(bounds[i + 1]).value * h if bounds[i + 1] > 0 else 0
    return t


class SimSpec:
    """A synthetic simulation: truth[snap][property] = values as stored (little-h
    units), sorted by decreasing mass."""


def random_fields(rng, n_extra):
    """name -> (dtype, unit, h dependence)"""
    fields = {}
    kinds = ['f', 'd', 'i', 'i8']
    for k in range(n_extra):
        d = kinds[int(rng.integers(len(kinds)))]
        hdep = [0, 0, 0, -1, -1, 1, 2, -3, 0.5][int(rng.integers(9))] if d in 'fd' else 0
        fields['prop%d' % k] = (d, ['None', 'Msun/h', 'Mpc/h', 'km/s'][int(rng.integers(4))], hdep)
    return fields


def distinct_masses(rng, n, mass_range=(9.0, 13.0)):
    m = (10 ** rng.uniform(*mass_range, size=n)).astype('f')
    while True:
        again = np.delete(np.arange(n), np.unique(m, return_index=True)[1])
        if not len(again):
            return m
        m[again] = (10 ** rng.uniform(*mass_range, size=len(again))).astype('f')


def random_halos(rng, n, box, fields, mass_range=(9.0, 13.0)):
    """Halos with distinct masses."""
    d = {}
    d['mass'] = distinct_masses(rng, n, mass_range)
    for ax in 'xyz':
        d['pos_' + ax] = np.minimum(rng.uniform(0, box, n).astype('f'), np.nextafter(np.float32(box), np.float32(0)))
        d['v_' + ax] = rng.normal(0, 300, n).astype('f')
    d['uid'] = rng.permutation(n).astype('i8') + 10 * int(rng.integers(1, 1000))
    for name, (dt, unit, hdep) in fields.items():
        if dt in 'fd':
            d[name] = rng.normal(size=n).astype(dt)
        else:
            d[name] = rng.integers(-50, 50, n).astype(dt)
    return d


def some_halos(case, top, rate=.04):
    """Number of halos of a catalogue: below top, now and then hundreds, thousands or more."""
    if case.rng.random() < rate:
        case.observe('large_catalogues')
        if case.rng.random() < .25:     # more than two bytes can count
            case.observe('crowded_catalogues')
            return int(case.rng.integers(66000, 90000))
        return int(np.exp(case.rng.uniform(np.log(260), np.log(4000))))
    return int(case.rng.integers(1, top))


def make_sim(case, n_snaps=None, n_halos=None, box=None, h=None, zmax=None, fields=None, halos=None,
             redshifts=None, path=None, mass_range=(9.0, 13.0), omega=None, name=SIM, labels=None):
    """Format a random simulation with the package; returns a SimSpec."""
    from simim.siminterface._rawsiminterface import SimCatalogs
    rng = case.rng
    s = SimSpec()
    s.h = float(rng.uniform(0.55, 0.95)) if h is None else h
    s.om = float(rng.uniform(0.2, 0.4)) if omega is None else omega
    s.ob = 0.048
    s.box = float(np.round(rng.uniform(20, 200), 2)) if box is None else box
    n_snaps = int(rng.integers(1, 5)) if n_snaps is None else n_snaps
    if redshifts is None:
        z = np.sort(rng.uniform(0.05, zmax or 6.0, size=n_snaps))[::-1]
        while n_snaps > 1 and np.min(-np.diff(z)) < 0.02:
            z = np.sort(rng.uniform(0.05, zmax or 6.0, size=n_snaps))[::-1]
    else:
        z = np.asarray(redshifts, float)
    s.name = name
    s.cosmo = cosmology(s.h, s.om, s.ob)
    s.snaps = snapshot_table(z, s.cosmo, s.h)
    s.n_snaps = n_snaps
    # the numbers of the snapshots
    if isinstance(labels, str):     # 'mixed': 0, 1, 2, ... or with gaps, across 9-10 and 99-100
        labels = None if rng.random() < .5 else np.sort(rng.choice(np.arange(*[(0, 12), (5, 15), (90, 110)][int(rng.integers(3))]), size=n_snaps, replace=False))
    s.labels = list(range(n_snaps)) if labels is None else [int(i) for i in labels]
    s.snaps['index'] = s.labels
    s.extra = random_fields(rng, int(rng.integers(1, 4))) if fields is None else fields
    s.fields = {'mass': ('f', 'Msun/h', -1), 'uid': ('i8', 'None', 0)}
    for ax in 'xyz':
        s.fields['pos_' + ax] = ('f', 'Mpc/h', -1)
        s.fields['v_' + ax] = ('f', 'km/s', 0)
    s.fields.update(s.extra)
    if halos is None:
        s.raw = [random_halos(rng, int(rng.integers(2, 40)) if n_halos is None else n_halos, s.box, s.extra,
                              mass_range) for _ in range(n_snaps)]
    else:
        s.raw = halos
    s.truth = []
    for raw in s.raw:
        order = np.argsort(raw['mass'].astype('f'), kind='stable')[::-1]
        s.truth.append({k: v[order].astype(s.fields[k][0]) for k, v in raw.items()})
    s.meta = {'name': name, 'number_snaps': n_snaps, 'cosmo_name': 'synthetic', 'cosmo_omega_matter': s.om,
              'cosmo_omega_lambda': 1 - s.om, 'cosmo_omega_baryon': s.ob, 'cosmo_h': s.h, 'box_edge': s.box}
    if path is None:
        path = fresh_dir(case, 'sim')
    s.path = path
    os.makedirs(os.path.join(path, 'raw'), exist_ok=True)
    np.save(os.path.join(path, 'meta.npy'), s.meta)
    np.save(os.path.join(path, 'meta_snaps.npy'), s.snaps)

    class Synthetic(SimCatalogs):
        def __init__(self, snaps='all', path=path):
            self.allsnaps = np.array(s.labels)
            super().__init__(name, path, snaps, True)
            pos = [('pos_' + a, 'f', 'Mpc/h', -1) for a in 'xyz']
            self.basic_fields = {'P': pos, 'V': [('v_' + a, 'f', 'km/s', 0) for a in 'xyz'],
                                 'M': [('mass', 'f', 'Msun/h', -1)]}
            self.dm_fields = {'U': [('uid', 'i8', 'None', 0)]}
            self.matter_fields = {k.upper(): [(k,) + tuple(v)] for k, v in s.extra.items()}
            self.transform_keys = {}
            self.loaded_from = []

        def _loader(self, path, snapshot, fields):
            raw = s.raw[s.labels.index(int(snapshot))]
            out = {}
            for f in fields:
                if f == 'P':
                    out[f] = np.array([raw['pos_' + a] for a in 'xyz']).T
                elif f == 'V':
                    out[f] = np.array([raw['v_' + a] for a in 'xyz']).T
                elif f == 'M':
                    out[f] = raw['mass'].copy()
                elif f == 'U':
                    out[f] = raw['uid'].copy()
                else:
                    out[f] = raw[f.lower()].astype(s.extra[f.lower()][0])
            return out, len(raw['mass'])

        def _get_rawsnapfiles(self, snapshot):
            return ['snap_%d' % snapshot]

    s.Catalogs = Synthetic
    with answers('y'):
        with case.quiet():
            cat = Synthetic()
            cat.format(remake=True)
    return s


_dirs = [0]


def fresh_dir(case, name):
    """A new scratch directory; the previous ones of this kind are removed."""
    _dirs[0] += 1
    base = os.path.join(case.build.dir, 'work')
    os.makedirs(base, exist_ok=True)
    for old in os.listdir(base):
        if old.startswith(name + '_'):
            shutil.rmtree(os.path.join(base, old), ignore_errors=True)
    d = os.path.join(base, '%s_%d' % (name, _dirs[0]))
    os.mkdir(d)
    return d
