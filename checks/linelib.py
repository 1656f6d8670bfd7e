"""The published relations, evaluated independently of the package."""
import os

import numpy as np


def cosmology(h, om):
    from astropy.cosmology import FlatLambdaCDM
    return FlatLambdaCDM(H0=100 * h, Om0=om)


def pick(r, **kw):
    """Some of the options; the others keep their defaults."""
    return {k: (float(v) if isinstance(v, (np.floating, float)) else v) for k, v in kw.items() if r.random() < 0.6}


def choose(r, table):
    keys = list(table)
    return keys[int(r.integers(len(keys)))]


CO_FREQ = [115.2712, 230.5380, 345.7960, 461.0408, 576.2679, 691.4731, 806.6518, 921.7997, 1036.9124, 1151.9854, 1267.0145, 1381.9951, 1496.9229]
HCN_FREQ = [88.6316, 177.2611, 265.8862, 354.5055, 443.1161, 531.7164, 620.3041, 708.8772, 797.4337, 885.9714]
CS_FREQ = [48.99095, 97.98095, 146.96903, 195.95421, 244.93556, 293.91209, 342.88285, 391.84689, 440.80323, 489.75092]
CONST = {'c': 2.99792458e8, 'kB': 1.380649e-23, 'hP': 6.62607015e-34, 'Lsun_to_W': 3.828e26, 'Mpc_to_m': 3.0857e22,
         'nu_cii': 2.99792458e8 / 157.741e-6, 'nu_nii205': 2.99792458e8 / 205.178e-6, 'nu_nii121': 2.99792458e8 / 121.898e-6,
         'nu_oiii88': 2.99792458e8 / 88.356e-6, 'nu_oiii51': 2.99792458e8 / 51.8145e-6}


def power(x, slope, offset):
    """log x = slope log y + offset, solved for y"""
    return 10 ** ((np.log10(x) - offset) / slope)


# -- CO and HCN ----------------------------------------------------------------
def keating16(m, m_min=1e10, A=6.3e-7):
    return np.where(m < m_min, 0, A * m)


def li16(s, d_mf=1.0, a=1.37, b=-1.74, nu_rest=115.2712018e9):
    return 4.9e-5 * power(s * 1e10 / d_mf, a, b) * (nu_rest / 115.2712018e9) ** 3


def f_duty(m, z, cosmo, sf_length=0.1):
    return np.minimum(1, sf_length / cosmo.age(z).value) if np.size(z) else np.zeros(np.shape(z))


def pullen13(m, z, cosmo, sf_length=0.1):
    return 2e-6 * m


def lidz11(m, f_duty=0.1):
    return 2.8e-5 * m


def hcn_gao(s, d_mf=1.0, a=1.0, b=2.9, nu_rest=88.63e9):
    return 2.2e-5 * power(s * 1e10 / d_mf, a, b) * (nu_rest / 88.63e9) ** 3


def hcn_breysse(m, f_duty=0.1):
    return 1.7e-15 * m ** 1.67


# Kamenetzky et al. 2016: log L_FIR = a log L'_CO + b, J = 1 ... 13
K16 = {'all': [(1.27, -1.0), (1.11, 0.6), (1.18, 0.1), (1.09, 1.2), (1.05, 1.8), (1.04, 2.2), (0.98, 2.9), (1.00, 3.0), (1.03, 2.9), (1.01, 3.2),
               (1.06, 3.1), (0.99, 3.7), (1.12, 2.9)],
       'bright': [(1.15, 0.2), (0.66, 4.9), (0.94, 2.3), (0.68, 4.9), (0.96, 2.7), (1.02, 2.4), (0.92, 3.5), (0.91, 3.7), (0.92, 3.8), (0.83, 4.7),
                  (0.86, 4.7), (0.79, 5.3), (0.85, 5.0)],
       'faint': [(1.05, 0.8), (1.12, 0.4), (1.05, 0.9), (1.09, 1.2), (1.01, 2.1), (1.01, 2.3), (1.00, 2.8), (1.07, 2.5), (1.06, 2.7), (1.12, 2.5),
                 (1.10, 2.7), (1.03, 3.4), (1.23, 2.2)]}
NU_CO = [115.27120180, 230.53800000, 345.79598990, 461.04076820, 576.26793050, 691.47307630, 806.65180600, 921.79970000, 1036.91239300, 1151.98545200,
         1267.01448600, 1381.99510500, 1496.92290900]


def kamenetzky16(s, lines=tuple(range(1, 14)), d_mf=1.0, fircor=0.6, break_ulirgs=False):
    ir = s * 1e10 / d_mf
    out = []
    for j in lines:
        unit = 4.9e-5 * (NU_CO[j - 1] / NU_CO[0]) ** 3
        if break_ulirgs:
            L = np.where(ir > 6e10, power(ir * fircor, *K16['bright'][j - 1]), power(ir * fircor, *K16['faint'][j - 1]))
        else:
            L = power(ir * fircor, *K16['all'][j - 1])
        out.append(unit * L)
    return out


# -- far infrared --------------------------------------------------------------
# De Looze et al. 2014: log SFR = offset + slope log L, scatter
DELOOZE = {('[CII]', None): (1.01, -6.99, .42), ('[CII]', 'DGS'): (.84, -5.29, .40), ('[CII]', 'dwarfs'): (.80, -5.73, .37),
           ('[CII]', 'starbursts'): (1.00, -7.06, .27), ('[CII]', 'comp/AGN'): (.90, -6.09, .37), ('[CII]', 'high z'): (1.18, -8.52, .40),
           ('[OI]', None): (1.00, -6.79, .42), ('[OI]', 'DGS'): (.94, -6.37, .25), ('[OI]', 'dwarfs'): (.91, -6.23, .27),
           ('[OI]', 'starbursts'): (.89, -6.05, .20), ('[OI]', 'comp/AGN'): (.76, -5.08, .35),
           ('[OIII]', None): (1.12, -7.48, .66), ('[OIII]', 'DGS'): (.92, -6.71, .30), ('[OIII]', 'dwarfs'): (.92, -6.71, .30),
           ('[OIII]', 'starbursts'): (.69, -3.89, .23), ('[OIII]', 'comp/AGN'): (.87, -5.46, .35)}


def delooze_options(r):
    line, st = choose(r, DELOOZE)
    kw = {}
    if line != '[CII]' or r.random() < 0.5:
        kw['line'] = line
    if st is not None or r.random() < 0.5:
        kw['set'] = st
    return kw


def delooze14(s, line='[CII]', set=None):
    a, b, _ = DELOOZE[line, set]
    return power(s, a, b)


def delooze_sigma(s, line='[CII]', set=None):
    return DELOOZE[line, set][2]


# log L_line = A log L_IR - B, both in 1e41 erg/s
UZGIL = {'[CII]': (0.89, 2.44), '[NII]': (1.01, 3.54), '[OI]': (0.98, 2.70), '[OIII]88um': (0.98, 2.86), '[OIII]52um': (0.88, 2.54),
         '[SiII]': (1.04, 3.15), '[SIII]33um': (0.99, 3.21), '[SIII]19um': (0.97, 3.47), '[NeII]': (0.99, 3.26), '[NeIII]': (1.10, 3.72)}
SPINOGLIO = {'[CII]': (0.89, 2.67), '[NII]': (1.01, 3.80), '[OI]': (0.98, 2.95), '[OIII]88um': (0.98, 3.11), '[OIII]52um': (0.88, 2.76),
             '[SiII]': (1.04, 3.42), '[SIII]33um': (0.99, 3.46), '[SIII]19um': (0.97, 3.72), '[NeII]': (0.99, 2.94), '[NeIII]': (1.10, 4.00)}
UNIT = 3.828e33 / 1e41


def uzgil14(s, line='[CII]', d_mf=1.0, table=UZGIL):
    a, b = table[line]
    return (s * 1e10 / d_mf * UNIT) ** a * 10 ** -b / UNIT


def spinoglio12(s, line='[CII]', d_mf=1.0):
    return uzgil14(s, line, d_mf, SPINOGLIO)


SCHAERER = {None: (1.17, 6.61), 'ALPINE-uvir': (1.00, 7.00), 'ALPINE-sed': (0.84, 7.09), 'ALPINE-uvirx': (1.17, 6.61), 'high z-uvirx': (1.28, 6.43)}


def schaerer20(s, set=None):
    a, b = SCHAERER[set]
    return 10 ** b * s ** a


def zhao13(s, d_mf=1.0):
    return power(s * 1e10 / d_mf, 0.95, 4.51)


def padmanabhan19(m, z, m1=2.39e-5, b=0.49, n1=4.19e11, a=1.79):
    return (m / m1) ** b * np.exp(-n1 / m) * ((1 + z) ** 2.7 / (1 + ((1 + z) / 2.9) ** 5.6)) ** a


# -- Yang et al. 2022 ------------------------------------------------------------
CO = {
    'CO1-0': {'m1a': 12.13, 'm1b': -0.1678, 'm4a': 11.75, 'm4b': -0.06833, 'm5a': 11.63, 'm5b': -0.04943, 'n1a': -6.855, 'n1b': 0.2366, 'n1c': -0.05013, 'n4a': -6.554, 'n4b': -0.03725, 'n4c': 0, 'n5a': -6.274, 'n5b': -0.09087, 'a1a': 1.642, 'a1b': 0.1663, 'a1c': -0.03238, 'a4a': 3.73, 'a4b': -0.833, 'a4c': 0.0884, 'a5a': 2.56, 'a5b': -0.223, 'a5c': 0.0142, 'b1a': 1.77, 'b1b': 2.72, 'b1c': -0.0827, 'b4a': 0.598, 'b4b': -0.071, 'b5a': 33.4, 'b5b': 0.846, 'b5c': 0.16, 'siga': 0.357, 'sigb': -0.0701, 'sigc': 0.00621},
    'CO2-1': {'m1a': 12.12, 'm1b': -0.1704, 'm4a': 11.74, 'm4b': -0.0705, 'm5a': 11.63, 'm5b': -0.05266, 'n1a': -5.95, 'n1b': 0.278, 'n1c': -0.0521, 'n4a': -5.57, 'n4b': -0.025, 'n4c': 0, 'n5a': -5.26, 'n5b': -0.0849, 'a1a': 1.69, 'a1b': 0.126, 'a1c': -0.028, 'a4a': 4.557, 'a4b': -1.215, 'a4c': 0.13, 'a5a': 2.47, 'a5b': -0.21, 'a5c': 0.0132, 'b1a': 1.8, 'b1b': 2.76, 'b1c': -0.0678, 'b4a': 0.657, 'b4b': -0.0794, 'b5a': 38.3, 'b5b': 0.841, 'b5c': 0.169, 'siga': 0.36, 'sigb': -0.072, 'sigc': 0.0064},
    'CO3-2': {'m1a': 12.1, 'm1b': -0.171, 'm4a': 11.74, 'm4b': -0.07228, 'm5a': 11.62, 'm5b': -0.055, 'n1a': -5.53, 'n1b': 0.329, 'n1c': -0.057, 'n4a': -5.06, 'n4b': -0.015, 'n4c': 0, 'n5a': -4.72, 'n5b': -0.0808, 'a1a': 1.843, 'a1b': 0.08405, 'a1c': -0.02485, 'a4a': 5.253, 'a4b': -1.502, 'a4c': 0.1609, 'a5a': 2.53, 'a5b': -0.22, 'a5c': 0.0139, 'b1a': 1.88, 'b1b': 2.74, 'b1c': -0.0623, 'b4a': 0.707, 'b4b': -0.0879, 'b5a': 31.5, 'b5b': 0.879, 'b5c': 0.17, 'siga': 0.4, 'sigb': -0.083, 'sigc': 0.007},
    'CO4-3': {'m1a': 12.09, 'm1b': -0.1662, 'm4a': 11.73, 'm4b': -0.07457, 'm5a': 11.6, 'm5b': -0.0529, 'n1a': -5.35, 'n1b': 0.404, 'n1c': -0.0657, 'n4a': -4.784, 'n4b': 0, 'n4c': 0, 'n5a': -4.4, 'n5b': -0.0744, 'a1a': 2.24, 'a1b': -0.0891, 'a1c': 0, 'a4a': 5.74, 'a4b': -1.67, 'a4c': 0.178, 'a5a': 2.59, 'a5b': -0.206, 'a5c': 0.012, 'b1a': 2.017, 'b1b': 2.87, 'b1c': -0.1127, 'b4a': 0.762, 'b4b': -0.0984, 'b5a': 41.6, 'b5b': 0.843, 'b5c': 0.172, 'siga': 0.42, 'sigb': -0.091, 'sigc': 0.0079},
    'CO5-4': {'m1a': 12.12, 'm1b': -0.1796, 'm4a': 11.73, 'm4b': -0.07789, 'm5a': 11.58, 'm5b': -0.05359, 'n1a': -5.37, 'n1b': 0.515, 'n1c': -0.0802, 'n4a': -3.81, 'n4b': -0.359, 'n4c': 0.0419, 'n5a': -4.21, 'n5b': -0.0674, 'a1a': 2.14, 'a1b': 0.11, 'a1c': -0.0371, 'a4a': 6.12, 'a4b': -1.77, 'a4c': 0.188, 'a5a': 2.87, 'a5b': -0.257, 'a5c': 0.0157, 'b1a': 2.39, 'b1b': 2.55, 'b1c': -0.089, 'b4a': 0.846, 'b4b': -0.115, 'b5a': 21.8, 'b5b': 0.957, 'b5c': 0.168, 'siga': 0.44, 'sigb': -0.085, 'sigc': 0.0063},
}
CI = {
    'CI1-0': {'m1a': 1.026, 'm1b': 2.346, 'm1c': 11.2, 'm4a': 8.54, 'm4b': 1.33, 'm4c': -0.157, 'm5a': 4.294, 'm5b': 2.479, 'm5c': 10.68, 'n1a': -1.451, 'n1b': 1.893, 'n1c': -5.046, 'n4a': -6.96, 'n4b': 0.75, 'n4c': -0.0807, 'n5a': 1.89, 'n5b': 5.73, 'n5c': -6.03, 'a1a': -0.741, 'a1b': 0.739, 'a1c': 1.86, 'a4a': 8.42, 'a4b': -2.91, 'a4c': 0.32, 'a5a': 1.04, 'a5b': 0.165, 'b1a': 1.26, 'b1b': -0.198, 'b4a': 0.837, 'b4b': -0.103, 'b5a': 2090, 'b5b': 0.52, 'b5c': 0.204, 'siga': 0.39, 'sigb': -0.076, 'sigc': 0.0063},
    'CI2-1': {'m1a': 1.135, 'm1b': 2.616, 'm1c': 11.13, 'm4a': 8.823, 'm4b': 1.206, 'm4c': -0.1445, 'm5a': 4.37, 'm5b': 2.38, 'm5c': 10.7, 'n1a': -2.03, 'n1b': 1.8, 'n1c': -4.44, 'n4a': -4.906, 'n4b': 0.05632, 'n4c': 0, 'n5a': 1.48, 'n5b': 6.14, 'n5c': -5.31, 'a1a': -1.16, 'a1b': 0.706, 'a1c': 2, 'a4a': 9.275, 'a4b': -3.225, 'a4c': 0.3543, 'a5a': 1.17, 'a5b': 0.169, 'b1a': 1.54, 'b1b': -0.259, 'b4a': 0.94, 'b4b': -0.12, 'b5a': 3960, 'b5b': 0.487, 'b5c': 0.221, 'siga': 0.46, 'sigb': -0.096, 'sigc': 0.0079},
}
YANG = ['CII'] + list(CI) + list(CO)


def pieces(z, low, mid, high):
    z = np.asarray(z, float)
    return np.where(z < 4, low(z), np.where(z < 5, mid(z), high(z)))


def yang_params(z, line):
    if line == 'CII':
        logm1 = pieces(z, lambda z: 12.11 * np.where(z > 0, z, 1) ** -0.04105, lambda z: 8.69 + 1.26 * z - 0.143 * z ** 2, lambda z: 11.92 - 0.1068 * z)
        logn = pieces(z, lambda z: -0.907 * np.exp(-z / 0.867) - 3.04, lambda z: -5.467 + 1.056 * z - 0.1133 * z ** 2, lambda z: -2.37 - 0.130 * z)
        a = pieces(z, lambda z: 1.35 + 0.450 * z - 0.0805 * z ** 2, lambda z: 6.135 - 1.786 * z + 0.1837 * z ** 2, lambda z: 2.82 - 0.298 * z + 0.0196 * z ** 2)
        b = pieces(z, lambda z: 2.57 * np.exp(-z / 1.55) + 0.0575, lambda z: 0.443 - 0.0521 * z, lambda z: 1760 * np.exp(-z / 0.520) + 0.0782)
        return logm1, logn, a, b
    p = (CI if line in CI else CO)[line]

    def poly(k, terms='abc'):
        return lambda z: sum(p.get(k + t, 0) * z ** i for i, t in enumerate(terms))

    def expo(k):
        return lambda z: p[k + 'a'] * np.exp(-z / p[k + 'b']) + p[k + 'c']
    if line in CI:
        return (pieces(z, expo('m1'), poly('m4'), expo('m5')), pieces(z, expo('n1'), poly('n4'), expo('n5')),
                pieces(z, expo('a1'), poly('a4'), poly('a5', 'ab')), pieces(z, poly('b1', 'ab'), poly('b4', 'ab'), expo('b5')))
    return (pieces(z, poly('m1', 'ab'), poly('m4', 'ab'), poly('m5', 'ab')), pieces(z, poly('n1'), poly('n4'), poly('n5', 'ab')),
            pieces(z, poly('a1'), poly('a4'), poly('a5')), pieces(z, expo('b1'), poly('b4', 'ab'), expo('b5')))


def yang22(m, z, line='CII'):
    logm1, logn, a, b = yang_params(z, line)
    x = m / 10 ** logm1
    return 2 * 10 ** logn * m / (x ** -a + x ** b)


def yang_sigma(m, z, line='CII'):
    z = np.asarray(z, float)
    if line == 'CII':
        return 0.32 * np.exp(-z / 1.5) + 0.18
    p = (CI if line in CI else CO)[line]
    return p['siga'] + p['sigb'] * z + p['sigc'] * z ** 2


def yang_duty(m, z, line='CII'):
    z = np.asarray(z, float)
    x = m / 10 ** (11.73 + 0.6634 * z)
    return np.where(z < 4, 1 / (1 + x ** (1.37 - 0.190 * z + 0.0215 * z ** 2)), 1)


# -- Behroozi et al. 2013 --------------------------------------------------------
_tables = {}


def table(kind):
    if kind not in _tables:
        import simim
        d = np.loadtxt(os.path.join(os.path.dirname(simim.__file__), 'resources', 'behroozi13_release.dat'))
        z, lm = np.unique(d[:, 0]) - 1, np.unique(d[:, 1])
        order = np.lexsort((d[:, 1], d[:, 0]))
        v = d[order][:, 2 if kind == 'sfr' else 3].reshape(len(z), len(lm)).copy()
        if kind == 'sfr':
            for row in v:
                good = np.nonzero(row > -999)[0]
                row[row < -999] = row[good[-1]]
        _tables[kind] = (z, 10 ** lm, 10 ** v)
    return _tables[kind]


def corners(kind, z, m):
    zt, mt, v = table(kind)
    z, m = np.broadcast_arrays(np.clip(z, zt[0], zt[-1]), np.clip(m, mt[0], mt[-1]))
    i = np.clip(np.searchsorted(zt, z, 'right') - 1, 0, len(zt) - 2)
    j = np.clip(np.searchsorted(mt, m, 'right') - 1, 0, len(mt) - 2)
    u, w = (z - zt[i]) / (zt[i + 1] - zt[i]), (m - mt[j]) / (mt[j + 1] - mt[j])
    return u, w, v[i, j], v[i + 1, j], v[i, j + 1], v[i + 1, j + 1]


def behroozi(kind):
    def mean(z, m):
        u, w, a, b, c, d = corners(kind, z, m)
        return (1 - u) * (1 - w) * a + u * (1 - w) * b + (1 - u) * w * c + u * w * d
    return mean


def behroozi_corners(kind, z, m):
    u, w, *v = corners(kind, z, m)
    return np.min(v, axis=0), np.max(v, axis=0)
