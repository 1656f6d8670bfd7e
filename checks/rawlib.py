"""Synthetic raw catalogues in the published formats of the supported
simulations, and what their formatted form should hold."""
import os

import h5py
import numpy as np

ILL = ['Illustris-1', 'Illustris-2', 'Illustris-3', 'Illustris-1-Dark', 'Illustris-3-Dark']
TNG = ['TNG300-1', 'TNG100-2', 'TNG100-3', 'TNG300-3-Dark', 'TNG100-1-Dark']
UM_TEXT = ['UniverseMachine-BolshoiPlanck']
UM_BIN = ['UniverseMachine-SMDPL', 'UniverseMachine-MDPL2']
UCHUU = ['UniverseMachine-uchuu']
UM_BOX = {'UniverseMachine-BolshoiPlanck': 250.0, 'UniverseMachine-SMDPL': 400.0, 'UniverseMachine-MDPL2': 1000.0,
          'UniverseMachine-uchuu': 2000.0, '_testbox': 10.0}
UM_COSMO = {'h': 0.678, 'om': 0.307, 'ol': 0.693, 'ob': 0.048}
UCHUU_COSMO = {'h': 0.6775, 'om': 0.3089, 'ol': 0.6911, 'ob': 0.0486}

# raw name -> (formatted name, unit, h dependence); factors in um_factor
UM_COMMON = {'id': ('halo_id', 'None', 0), 'descid': ('descendent_id', 'None', 0), 'upid': ('parent_id', 'None', 0),
             'm': ('mass', 'Msun/h', -1), 'v': ('vmax', 'km/s', 0), 'mp': ('mass_peak', 'Msun/h', -1),
             'vmp': ('vmax_peak', 'km/s', 0), 'r': ('r', 'Mpc/h', -1), 'rank1': ('Rank1', 'None', 0),
             'sm': ('m_stars', 'Msun/h', -1), 'icl': ('icl', 'Msun/h', -1), 'sfr': ('sfr', 'Msun/yr', 0),
             'obs_sm': ('m_stars_obs', 'Msun/h', -1), 'obs_sfr': ('sfr_obs', 'Msun/yr', 0), 'obs_uv': ('phot_uv_obs', 'mag', 0)}
XYZ = {'x': ('pos_x', 'Mpc/h', -1), 'y': ('pos_y', 'Mpc/h', -1), 'z': ('pos_z', 'Mpc/h', -1),
       'vx': ('v_x', 'km/s', 0), 'vy': ('v_y', 'km/s', 0), 'vz': ('v_z', 'km/s', 0)}
UM_TEXT_ONLY = {'obs_ssfr': ('ssfr_obs', '?', 0), 'smhm': ('stellar_to_halo_mass_ratio', 'None', 0)}
UM_BIN_ONLY = {'a_uv': ('uv_attenuation', 'mag', 0)}
UCHUU_FIELDS = {'id': ('halo_id', 'None', 0), 'desc_id': ('descendent_id', 'None', 0), 'upid': ('parent_id', 'None', 0),
                'vmax': ('vmax', 'km/s', 0), 'Mpeak': ('mass_peak', 'Msun/h', -1), 'Vmax_Mpeak': ('vmax_peak', 'km/s', 0),
                'Mvir': ('mass', 'Msun/h', -1), 'sm': ('m_stars', 'Msun/h', -1), 'icl': ('icl', 'Msun/h', -1),
                'sfr': ('sfr', 'Msun/yr', 0), 'obs_sm': ('m_stars_obs', 'Msun/h', -1), 'obs_sfr': ('sfr_obs', 'Msun/yr', 0),
                'obs_uv': ('phot_uv_obs', 'mag', 0), 'A_UV': ('uv_attenuation', 'mag', 0)}
UCHUU_FIELDS.update(XYZ)
UCHUU_FILE = {1: ['id', 'upid', 'Mvir', 'sm', 'icl', 'sfr', 'obs_sm', 'obs_sfr', 'obs_uv'], 2: ['x', 'y', 'z'],
              3: ['desc_id', 'vx', 'vy', 'vz', 'Mpeak', 'Vmax_Mpeak', 'vmax', 'A_UV']}

M10, KPC = 1e10, 1e-3
# field -> (names, factor, unit, h dependence)
ILL_BASE = {'SubhaloPos': (['pos_x', 'pos_y', 'pos_z'], KPC, 'Mpc/h', -1), 'SubhaloHalfmassRad': (['r_hm'], KPC, 'Mpc/h', -1),
            'SubhaloMass': (['mass'], M10, 'Msun/h', -1), 'SubhaloVel': (['v_x', 'v_y', 'v_z'], 1, 'km/s', 0),
            'SubhaloCM': (['cm_x', 'cm_y', 'cm_z'], KPC, 'Mpc/h', -1), 'SubhaloMassInMaxRad': (['mass_maxr'], M10, 'Msun/h', -1),
            'SubhaloSpin': (['spin_x', 'spin_y', 'spin_z'], KPC, 'Mpc/h km/s', -1), 'SubhaloVelDisp': (['vdisp'], 1, 'km/s', 0),
            'SubhaloVmax': (['vmax'], 1, 'km/s', 0), 'SubhaloVmaxRad': (['r_vmax'], KPC, 'Mpc/h', -1)}


def _types(suffix):
    return [n + suffix if n else None for n in ('m_gas', 'm_dm', '', 'm_tracers', 'm_stars_wind', 'm_bh')]


ILL_MATTER = {'SubhaloBHMass': (['bhmass'], M10, 'Msun/h', -1), 'SubhaloBHMdot': (['bhmdot'], 1e10 / 0.978, 'Msun/h / (Gyr/h)', 0),
              'SubhaloGasMetallicity': (['met'], 1, 'None', 0), 'SubhaloGasMetallicityHalfRad': (['met_hr'], 1, 'None', 0),
              'SubhaloGasMetallicityMaxRad': (['met_maxr'], 1, 'None', 0), 'SubhaloMassType': (_types(''), M10, 'Msun/h', -1),
              'SubhaloMassInHalfRad': (['mass_hr'], M10, 'Msun/h', -1), 'SubhaloMassInHalfRadType': (_types('_hr'), M10, 'Msun/h', -1),
              'SubhaloMassInMaxRadType': (_types('_maxr'), M10, 'Msun/h', -1), 'SubhaloMassInRad': (['mass_2hr'], M10, 'Msun/h', -1),
              'SubhaloMassInRadType': (_types('_2hr'), M10, 'Msun/h', -1), 'SubhaloSFR': (['sfr'], 1, 'Msun/yr', 0),
              'SubhaloSFRinHalfRad': (['sfr_hr'], 1, 'Msun/yr', 0), 'SubhaloSFRinMaxRad': (['sfr_maxr'], 1, 'Msun/yr', 0),
              'SubhaloSFRinRad': (['sfr_2hr'], 1, 'Msun/yr', 0), 'SubhaloStarMetallicity': (['met_stellar'], 1, 'None', 0),
              'SubhaloStarMetallicityHalfRad': (['met_stellar_hr'], 1, 'None', 0),
              'SubhaloStarMetallicityMaxRad': (['met_stellar_maxr'], 1, 'None', 0),
              'SubhaloStellarPhotometrics': (['phot_' + b for b in 'UBVKgriz'], 1, 'mag', 0)}
_el = ['H', 'He', 'C', 'N', 'O', 'Ne', 'Mg', 'Si', 'Fe', 'Other']
TNG_MATTER = {'SubhaloGasMetalFractions' + a: (['met' + e + b for e in _el], 1, 'None', 0)
              for a, b in (('', ''), ('HalfRad', '_hr'), ('MaxRad', '_maxr'))}
TNG_FLAG = {'SubhaloFlag': (['flag'], 1, 'none', 0)}


def distinct(rng, n, lo, hi, dtype='f4'):
    if n > 20:      # still distinct when converted to other units in single precision
        return rng.permutation(10 ** (lo + (hi - lo) * (np.arange(n) + rng.uniform(0, .5, n)) / n)).astype(dtype)
    m = (10 ** rng.uniform(lo, hi, n)).astype(dtype)
    while True:
        again = np.delete(np.arange(n), np.unique(m, return_index=True)[1])
        if not len(again):
            return m
        m[again] = (10 ** rng.uniform(lo, hi, len(again))).astype(dtype)


def um_columns(rng, n, box, wide=False):
    c = {'id': rng.integers(1, 2 ** 40, n), 'descid': rng.integers(1, 2 ** 40, n), 'upid': np.where(rng.random(n) < 0.5, -1, rng.integers(1, 2 ** 40, n)),
         'flags': rng.integers(0, 15, n).astype('i4'), 'm': distinct(rng, n, 9, 14)}
    for k in 'xyz':
        c[k] = (rng.uniform(0, 1, n) * box * 0.9999).astype('f4')
        c['v' + k] = rng.normal(0, 300, n).astype('f4')
        if wide:  # outside the periodic box
            c[k] = (c[k] + np.where(rng.random(n) < 0.3, 1, 0) * box * rng.choice([-1, 1], n)).astype('f4')
    for k in ('uparent_dist', 'v', 'mp', 'vmp', 'r', 'rank1', 'rank2', 'ra', 'rarank', 'sm', 'icl', 'sfr', 'obs_sm', 'obs_sfr',
              'obs_ssfr', 'smhm', 'obs_uv', 'a_uv', 'lvmp', 'empty', 'vmax', 'Mpeak', 'Vmax_Mpeak', 'A_UV'):
        c[k] = (10 ** rng.uniform(-3, 10, n)).astype('f4')
    for k in ('rank1', 'obs_uv'):
        c[k] = (-c[k]).astype('f4')
    return c


TEXT_COLUMNS = ['id', 'descid', 'upid', 'flags', 'uparent_dist', 'x', 'y', 'z', 'vx', 'vy', 'vz', 'm', 'v', 'mp', 'vmp', 'r',
                'rank1', 'rank2', 'ra', 'rarank', 'sm', 'icl', 'sfr', 'obs_sm', 'obs_sfr', 'obs_ssfr', 'smhm', 'obs_uv']


def write_um_text(path, c, rng):
    n = len(c['m'])
    with open(path, 'w') as f:
        f.write('#' + ' '.join('%s(%d)' % (k.upper(), i) for i, k in enumerate(TEXT_COLUMNS)) + '\n#Columns\n')
        for i in range(n):
            f.write(' '.join('%d' % c[k][i] if c[k].dtype.kind == 'i' else '%.9g' % c[k][i] for k in TEXT_COLUMNS) + '\n')
            if rng.random() < 0.1:
                f.write('# a comment\n')


def write_um_binary(path, c, orphan):
    """C structure of the published binary catalogues."""
    dt = np.dtype([('id', 'i8'), ('descid', 'i8'), ('upid', 'i8'), ('flags', 'i4'), ('uparent_dist', 'f4'), ('pos', 'f4', (6,)),
                   ('vmp', 'f4'), ('lvmp', 'f4'), ('mp', 'f4'), ('m', 'f4'), ('v', 'f4'), ('r', 'f4'), ('rank1', 'f4'), ('rank2', 'f4'),
                   ('ra', 'f4'), ('rarank', 'f4'), ('a_uv', 'f4'), ('sm', 'f4'), ('icl', 'f4'), ('sfr', 'f4'), ('obs_sm', 'f4'),
                   ('obs_sfr', 'f4'), ('obs_uv', 'f4'), ('empty', 'f4')], align=True)
    a = np.zeros(len(c['m']), dt)
    for k in dt.names:
        if k == 'pos':
            for j, q in enumerate(['x', 'y', 'z', 'vx', 'vy', 'vz']):
                a['pos'][:, j] = c[q]
        else:
            a[k] = c[k]
    a['flags'] |= np.where(orphan, 16, 0).astype('i4')
    a.tofile(path)


def write_illustris(base, snap, cols, n, rng, tng):
    """groups_NNN/<prefix>_NNN.<chunk>.hdf5, some chunks empty."""
    d = os.path.join(base, 'groups_%03d' % snap)
    os.makedirs(d, exist_ok=True)
    chunks = int(rng.integers(1, 5))
    cuts = np.sort(rng.integers(0, n + 1, chunks - 1))
    if chunks > 1 and rng.random() < 0.3:
        cuts[0] = 0  # first chunk empty
    ends = [0] + [int(i) for i in cuts] + [n]
    prefix = 'fof_subhalo_tab_' if tng else 'groups_'
    for i in range(chunks):
        with h5py.File(os.path.join(d, '%s%03d.%d.hdf5' % (prefix, snap, i)), 'w') as f:
            h = f.create_group('Header')
            h.attrs['NumFiles'] = chunks
            h.attrs['Nsubgroups_Total'] = n
            h.attrs['Nsubgroups_ThisFile'] = ends[i + 1] - ends[i]
            h.attrs['Ngroups_Total'] = n
            h.attrs['Ngroups_ThisFile'] = ends[i + 1] - ends[i]
            g = f.create_group('Subhalo')
            for k, v in cols.items():
                if ends[i + 1] > ends[i] or i == 0:
                    g.create_dataset(k, data=v[ends[i]:ends[i + 1]])
    return chunks


class Response:
    def __init__(self, text='', data=None):
        self.text, self.data, self.status_code = text, data, 200

    def json(self):
        return self.data

    def raise_for_status(self):
        pass


def listing(names, rng):
    """A directory listing page, as web servers make them, in any order."""
    names = [str(n) for n in names]
    order = rng.permutation(len(names))
    rows = ['<tr><td><img src="/icons/text.gif" alt="[TXT]"></td><td><a href="%s">%s</a></td><td align="right">2019-01-01 12:00  </td></tr>'
            % (names[i], names[i]) for i in order]
    return '<html><body><h1>Index of /data</h1><table>\n' + '\n'.join(rows) + '\n<tr><td><a href="readme.txt">readme.txt</a></td></tr></table></body></html>'
