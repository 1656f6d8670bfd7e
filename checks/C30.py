"""C30: abundance matching keeps abundances: the matched object has as many objects
above it as the one it is matched to, for catalogues, distributions and the
stellar mass and infrared luminosity models built on them."""
import os

import numpy as np
import simlib as sl
from astropy.cosmology import FlatLambdaCDM
from scipy import stats

PROPERTY = 'C30'
NEEDS_DATA = True
RULE = ('a case is a luminosity function with random parameters, a random catalogue matched to a random distribution (or two distributions) with '
        'random missing masses and limits, or a random simulation on which a galaxy model is built; distribution functions are compared with '
        'numerical integrals, matches by counting the objects above both sides; told apart by parameters')
LIMIT = 'array entry whose cumulative fraction is exactly a limit of the other property gives 0'


# ---------------------------------------------------------------- distributions
def dist_schechter(rng):
    from simim.galprops.galprops_am import schechter_gen
    p = dict(x0=10 ** rng.uniform(-1, 11), alpha=[rng.uniform(-2.3, 1), float(rng.integers(-3, 2))][int(rng.random() < 0.15)], phi0=10 ** rng.uniform(-6, 0))
    p['xmin'] = p['x0'] * 10 ** rng.uniform(-5, 0)
    return schechter_gen, p, lambda x: p['phi0'] * (x / p['x0']) ** p['alpha'] * np.exp(-x / p['x0']) / p['x0'], 'x'


def dist_double_schechter(rng):
    from simim.galprops.galprops_am import double_schechter_gen
    p = dict(x0=10 ** rng.uniform(-1, 11), alpha1=rng.uniform(-1.5, 1), phi1=10 ** rng.uniform(-6, 0), alpha2=rng.uniform(-2.3, -1), phi2=10 ** rng.uniform(-6, 0))
    if rng.random() < 0.2:
        p['phi1'] = p['alpha1'] = 0
    p['xmin'] = p['x0'] * 10 ** rng.uniform(-5, 0)
    return (double_schechter_gen, p, lambda x: (p['phi1'] * (x / p['x0']) ** p['alpha1'] + p['phi2'] * (x / p['x0']) ** p['alpha2'])
            * np.exp(-x / p['x0']) / p['x0'], 'x')


def dist_modified(rng):
    from simim.galprops.galprops_am import modified_schechter_gen
    p = dict(x0=10 ** rng.uniform(-1, 11), alpha=rng.uniform(1.05, 2), sigma=rng.uniform(0.2, 0.7), phi0=10 ** rng.uniform(-6, 0))
    p['xmin'] = p['x0'] * 10 ** rng.uniform(-4, 0)
    return modified_schechter_gen, p, lambda x: p['phi0'] * (x / p['x0']) ** (1 - p['alpha']) * np.exp(-np.log10(1 + x / p['x0']) ** 2 / 2 / p['sigma'] ** 2), 'log'


def dist_power(rng):
    from simim.galprops.galprops_am import double_power_law_gen
    p = dict(x0=10 ** rng.uniform(-1, 11), alpha=rng.uniform(0.2, 1.5), beta=rng.uniform(2, 4), phi0=10 ** rng.uniform(-6, 0))
    p['xmin'] = p['x0'] * 10 ** rng.uniform(-4, 0)
    return double_power_law_gen, p, lambda x: p['phi0'] / ((x / p['x0']) ** p['alpha'] + (x / p['x0']) ** p['beta']), 'log'


DISTS = [dist_schechter, dist_double_schechter, dist_modified, dist_power]


NODES, WEIGHTS = np.polynomial.legendre.leggauss(20)


def above(phi, per, x, x0, xmin):
    """Objects above x, from the luminosity function, by numerical integration."""
    x = max(x, xmin)
    u0, u1 = np.log(x), np.log(max(x, x0)) + (4.7 if per == 'x' else 30)
    edges = np.linspace(u0, u1, int((u1 - u0) / 0.4) + 2)
    half = np.diff(edges)[:, None] / 2
    u = edges[:-1, None] + half * (1 + NODES)
    v = np.exp(u)
    with np.errstate(under='ignore'):
        f = phi(v) * v if per == 'x' else phi(v) / np.log(10)
    return float((f * WEIGHTS * half).sum())


def distribution(case):
    rng = case.rng
    gen, p, phi, per = DISTS[case.index % 4](rng)
    p = {k: float(v) for k, v in p.items()}
    name = gen.__name__
    case.note('%s %s' % (name, p))
    xmin, x0 = p['xmin'], p['x0']
    case.nontrivial(name, sorted(p.items()))
    case.sample('%s %s' % (name, p))
    g = gen()
    top = x0 * (20 if per == 'x' else 1e3)
    x = np.exp(rng.uniform(np.log(xmin), np.log(top), 25))
    x = np.concatenate([x, xmin * rng.uniform(0.01, 0.999, 3), [xmin]])
    kept = x.copy()
    step = 20 / 10000
    with case.quiet(), np.errstate(all='ignore'):
        lf = g.lum_function(x, **p)
        integral = g.lum_function_int(x, **p)
        fr = gen()(**p)
        pdf, cdf = fr.pdf(x), fr.cdf(x)
        one = [(float(g.lum_function(float(v), **p)), float(g.lum_function_int(float(v), **p)), float(fr.pdf(v)), float(fr.cdf(v))) for v in x]
    case.check(x.tobytes() == kept.tobytes(), 'inputs_changed', '%s changed what it was given' % name)
    want = np.where(x < xmin, 0, phi(x))
    case.close(lf, want, 'luminosity_function', '%s.lum_function' % name, rtol=1e-9)
    ref = np.array([above(phi, per, v, x0, xmin) for v in x])
    total = above(phi, per, xmin, x0, xmin)
    # the laws that have no closed form are summed over cells of the grid
    slack = 1.1 * step * np.where(x < xmin, phi(xmin), phi(np.maximum(x, xmin))) * (1.05 if per == 'log' else 0) + (0.006 if per == 'log' else 1e-7) * ref + 1e-9 * total
    case.check(bool(np.all(np.abs(integral - ref) <= slack)), 'integral', lambda: '%s.lum_function_int is %s, the integral is %s' % (name, integral, ref))
    dpdx = np.where(x < xmin, 0, phi(x)) / (1 if per == 'x' else x * np.log(10)) / total
    case.close(pdf, dpdx, 'pdf', '%s.pdf' % name, rtol=1e-6 if per == 'x' else 0.012)
    case.check(bool(np.all(np.abs(cdf - (1 - ref / total)) <= (1e-7 if per == 'x' else 0.012 + 1.5 * phi(xmin) * step / total))), 'cdf', lambda: '%s.cdf is %s instead of %s' % (name, cdf, 1 - ref / total))
    case.check(bool(np.all(cdf[x < xmin] == 0)), 'cdf', '%s.cdf below the lower limit is not 0' % name)
    o = np.argsort(x)
    case.check(bool(np.all(np.diff(cdf[o]) >= -1e-9)) and cdf.min() >= 0 and cdf.max() <= 1 + 1e-9, 'cdf', '%s.cdf is no cumulative distribution' % name)
    one = np.array(one)
    for k, (v, what) in enumerate(((lf, 'lum_function'), (integral, 'lum_function_int'), (pdf, 'pdf'), (cdf, 'cdf'))):
        case.close(one[:, k], v, 'single', '%s.%s of single values' % (name, what), rtol=1e-9, atol=1e-12 if what == 'cdf' else 0)
    # the inverse
    q = rng.uniform(1e-4, 1 - 1e-4, 20)
    with case.quiet(), np.errstate(all='ignore'):
        xq = fr.ppf(q)
        xq1 = np.array([float(fr.ppf(v)) for v in q])
        back = fr.cdf(xq)
        draws = fr.rvs(size=150, random_state=np.random.default_rng(int(rng.integers(1 << 40))))
    case.close(xq1, xq, 'single', '%s.ppf of single values' % name, rtol=1e-9)
    true = np.array([1 - above(phi, per, v, x0, xmin) / total for v in xq])
    tol = (1e-4 if per == 'x' else 0.012 + 1.5 * phi(xmin) * step / total)
    cell = np.abs(phi(xq)) * (xq if per == 'x' else 1) * step * (np.log(10) if per == 'x' else 1) / total
    case.check(bool(np.all(np.abs(true - q) <= tol + 1.5 * cell)), 'ppf', lambda: '%s.ppf(%s) = %s, below which are %s' % (name, q, xq, true))
    case.check(bool(np.all(np.abs(back - q) <= tol + 1.5 * cell)), 'ppf', lambda: '%s: cdf(ppf(%s)) = %s' % (name, q, back))
    case.check(bool(np.all(draws >= xmin * (1 - 1e-9))), 'draws', '%s draws below its lower limit' % name)
    ks = stats.kstest(draws, lambda v: np.array([1 - above(phi, per, w, x0, xmin) / total for w in v]))
    case.check(ks.statistic < 0.22 + tol, 'draws', '%s: draws do not follow the distribution (KS %.3f)' % (name, ks.statistic))
    case.observe('distribution_values', len(x) + len(q))
    case.observe('draws', len(draws))


# -------------------------------------------------------------------- matching
def any_rv(rng):
    k = int(rng.integers(5))
    if k == 0:
        return stats.lognorm(s=rng.uniform(0.2, 1.5), scale=10 ** rng.uniform(-2, 4)), 0.0, np.inf, 'lognorm'
    if k == 1:
        return stats.expon(scale=10 ** rng.uniform(-2, 4)), 0.0, np.inf, 'expon'
    if k == 2:
        a = float(rng.uniform(0, 5))
        w = float(rng.uniform(1, 50))
        return stats.uniform(a, w), 0.0, np.inf, 'uniform'
    if k == 3:
        return stats.norm(rng.uniform(-5, 5), rng.uniform(0.5, 3)), -np.inf, np.inf, 'norm'
    gen, p, _, _ = DISTS[int(rng.integers(2))](rng)
    return gen()(**{a: float(b) for a, b in p.items()}), 0.0, np.inf, gen.__name__


class Side:
    """A distribution limited to a range, with mass missing on both sides."""

    def __init__(self, rng, force_missing=True):
        self.rv, self.lo, self.hi, self.name = any_rv(rng)
        q = np.sort(rng.uniform(0.02, 0.98, 2))
        while q[1] - q[0] < 0.2:
            q = np.sort(rng.uniform(0.02, 0.98, 2))
        if rng.random() < 0.4:
            self.lo = float(self.rv.ppf(q[0]))
        if rng.random() < 0.4:
            self.hi = float(self.rv.ppf(q[1]))
        self.draw_missing(rng)

    def draw_missing(self, rng):
        self.ml, self.mh = [float(rng.choice([0, rng.uniform(0.01, 0.45)])) for _ in range(2)]
        self.options = []
        for end in ('lo', 'hi'):
            self.options.append([None, 'nan', 'none', 'flat', float(rng.uniform(-9, -1))][int(rng.integers(5))])
        self.el, self.eh = self.options

    def cum(self, x):
        """Fraction of all objects below x (x within the range)."""
        c0, c1 = self.rv.cdf(self.lo), self.rv.cdf(self.hi)
        return self.ml + (self.rv.cdf(x) - c0) / (c1 - c0) * (1 - self.ml - self.mh)

    def kw(self, n):
        out = {'missing_pmass_low_p%d' % n: self.ml, 'missing_pmass_high_p%d' % n: self.mh}
        if hasattr(self, 'rv'):
            out['prop%d_min' % n] = self.lo
            out['prop%d_max' % n] = self.hi
        for end, e in zip(('low', 'high'), self.options):
            if e is not None:
                out['extrapolate_%s_p%d' % (end, n)] = e
        return out

    def filler(self, high):
        e = self.options[high]
        if e == 'flat':
            return (self.hi if high else self.lo)
        return e if isinstance(e, float) else np.nan

    def __repr__(self):
        return '%s(%s..%s, missing %.3f %.3f, %s)' % (self.name, self.lo, self.hi, self.ml, self.mh, self.options)


class Catalogue(Side):
    def __init__(self, rng, n):
        self.draw_missing(rng)
        self.name = 'catalogue of %d' % n
        while True:
            self.x = [rng.normal(size=n), 10 ** rng.uniform(9, 13, n), rng.uniform(0, 1, n)][int(rng.integers(3))]
            if len(np.unique(self.x)) == n:
                break
        if rng.random() < 0.2:
            self.x = self.x.astype('f')
        self.lo, self.hi = self.x.min(), self.x.max()
        self.sorted = np.sort(self.x).astype(float)
        self.n = n

    def cum(self, x):
        below = np.searchsorted(self.sorted, x, side='left')
        upto = np.searchsorted(self.sorted, x, side='right')
        # an object counts half to either side
        return self.ml + (below + upto) / 2 / self.n * (1 - self.ml - self.mh)


def inside(side, rng, n):
    """Values within the range, not at its ends."""
    if isinstance(side, Catalogue):
        s = side.sorted
        k = rng.integers(0, len(s) - 1, n)
        v = s[k] + (s[k + 1] - s[k]) * rng.uniform(0.05, 0.95, n)
        return v
    c0, c1 = side.rv.cdf(side.lo), side.rv.cdf(side.hi)
    return side.rv.ppf(c0 + (c1 - c0) * rng.uniform(0.02, 0.98, n))


def judge_way(case, f, a, b, x, reverse, slack, what):
    """f maps values x of a to values of b."""
    cum = a.cum(x)
    if reverse:
        cum = 1 - cum
    with case.quiet(), np.errstate(all='ignore'):
        got = np.asarray(f(x))
        single = np.array([float(f(float(v))) for v in x[:12]])
    case.check(got.shape == x.shape, 'shape', '%s: shape %s for %s values' % (what, got.shape, x.shape))
    case.close(single, got[:12], 'single', '%s: single values' % what, rtol=1e-9)
    eps = slack + 1e-3
    low, high = cum < b.ml - eps, cum > 1 - b.mh + eps
    mid = (cum > b.ml + eps) & (cum < 1 - b.mh - eps)
    for sel, up in ((low, 0), (high, 1)):
        if sel.any():
            w = b.filler(up)
            case.close(got[sel], np.full(sel.sum(), w, float), 'extrapolation', '%s: what has no counterpart (%s)' % (what, 'above' if up else 'below'), rtol=1e-6)
            case.observe('extrapolated', sel.sum())
    if mid.any():
        back = b.cum(got[mid])
        bad = np.abs(back - cum[mid]) > eps
        bad |= ~np.isfinite(got[mid])
        case.check(not bad.any(), 'abundance', lambda: '%s: a fraction %s of one property is below %s, but %s of the other below its match %s'
                   % (what, cum[mid][bad][0], x[mid][bad][0], back[bad][0], got[mid][bad][0]))
        case.observe('matched', mid.sum())
        o = np.argsort(x[mid], kind='stable')
        d = np.diff(got[mid][o]) * (-1 if reverse else 1)
        case.check(bool(np.all(d >= -1e-9 * np.abs(got[mid]).max())), 'order', '%s: the match does not keep the order' % what)
    return got, mid


def match(case):
    rng = case.rng
    from simim.galprops.galprops_am import am_dfcat, am_dfdf
    catalogue = bool(case.index % 2)
    n = int(rng.choice([2, 3, int(rng.integers(10, 60)), int(rng.integers(100, 2000))], p=[0.1, 0.1, 0.3, 0.5]))
    one = Catalogue(rng, n) if catalogue else Side(rng)
    two = Side(rng)
    reverse = bool(rng.random() < 0.3)
    case.note('%r to %r, reverse %s' % (one, two, reverse))
    case.sample('%r to %r, reverse %s' % (one, two, reverse))
    case.nontrivial(repr(one), repr(two), reverse)
    kw = dict(one.kw(1), **two.kw(2))
    if catalogue:
        kept = one.x.copy()
        with case.quiet(), np.errstate(all='ignore'):
            p2of1, p1of2 = am_dfcat(one.x if rng.random() < 0.7 else list(one.x), two.rv, reverseorder=reverse, **{k: v for k, v in kw.items() if k not in ('prop1_min', 'prop1_max')})
        case.check(kept.tobytes() == one.x.tobytes(), 'inputs_changed', 'am_dfcat changed the catalogue')
    else:
        with case.quiet(), np.errstate(all='ignore'):
            p2of1, p1of2 = am_dfdf(one.rv, two.rv, reverseorder=reverse, **kw)
    slack = 1.1 / one.n if catalogue else 0
    what = ('am_dfcat' if catalogue else 'am_dfdf') + (' reversed' if reverse else '')
    x, y = inside(one, rng, 60), inside(two, rng, 60)
    if catalogue and one.n > 2:
        x = np.concatenate([x, rng.permutation(one.sorted)[:30]])
        x = x[(x > one.lo) & (x < one.hi)]
    got, mid = judge_way(case, p2of1, one, two, x, reverse, slack, what + ', property 2 of property 1')
    if mid.any():
        with case.quiet(), np.errstate(all='ignore'):
            back = p1of2(got[mid])
        scale = np.ptp(one.x) if catalogue else 0
        ok = np.abs(one.cum(back) - one.cum(x[mid])) <= slack + 1e-3
        case.check(bool(ok.all()), 'inverse', '%s: the two directions do not undo each other' % what)
    judge_way(case, p1of2, two, one, y, reverse, slack, what + ', property 1 of property 2')
    # beyond the ranges: everything, or nothing, is above
    for f, a, b in ((p2of1, one, two), (p1of2, two, one)):
        for up in (0, 1):
            edge = a.hi if up else a.lo
            if not np.isfinite(edge):
                continue
            v = float(edge + (1 if up else -1) * (abs(edge) * 0.5 + 1))
            if isinstance(b, Catalogue) and ((b.ml == 0) if (up ^ reverse) == 0 else (b.mh == 0)):
                continue
            gap = (b.mh if up ^ reverse else b.ml)
            with case.quiet(), np.errstate(all='ignore'):
                s, arr = float(f(v)), float(f(np.array([v]))[0])
            want = b.filler(int(up ^ reverse))
            if gap > 0:
                case.close(np.array([s, arr]), np.array([want, want], float), 'extrapolation', '%s: beyond the range' % what, rtol=1e-9)
                case.observe('extrapolated', 2)
            else:
                # nothing is missing there: the limit of the other property
                limit = b.hi if up ^ reverse else b.lo
                limits = [limit, float(b.rv.ppf(b.rv.cdf(limit)))] if hasattr(b, 'rv') else [limit]
                fine = [any(np.isclose(t, l, rtol=5e-3, atol=1e-6, equal_nan=True) for l in limits + [want]) for t in (s, arr)]
                case.check(fine[0], 'limit', '%s: beyond the range, %s gives %s, expected %s or %s' % (what, v, s, limits, want))
                if not fine[1]:
                    case.check(arr == 0, 'limit', '%s: beyond the range, an array of %s gives %s, expected %s or %s' % (what, v, arr, limits, want))
                    case.observe('exact_limits')
                    case.fail(LIMIT, '%s: beyond the range, an array gives 0, a single value %s' % (what, s))
    # unusable requests
    for bad in (dict(missing_pmass_low_p1=1.2), dict(missing_pmass_high_p2=-0.1), dict(missing_pmass_low_p1=0.6, missing_pmass_high_p1=0.6),
                dict(missing_pmass_low_p2=0.7, missing_pmass_high_p2=0.5), dict(extrapolate_low_p2='linear'), dict(extrapolate_high_p1='max')):
        args = (one.x, two.rv) if catalogue else (one.rv, two.rv)
        case.refuses('unusable', '%s accepts %s' % (what, bad), am_dfcat if catalogue else am_dfdf, *args, **bad)


# ---------------------------------------------------------------------- models
KELVIN = dict(zmin=0.025, zmax=0.06, ms=10.64, p1=4.18e-3, a1=-0.43, p2=0.74e-3, a2=-1.50)
SMF = [  # zmin, zmax, log m*, phi1, alpha1, phi2, alpha2 (Bethermin+17 and the works cited there)
    (0.025, 0.06, 10.64, 4.18e-3, -0.43, 0.74e-3, -1.50),
    (0.2, 0.5, 10.83, 10 ** -2.63, -0.95, 10 ** -4.01, -1.82),
    (0.5, 0.8, 10.76, 10 ** -2.66, -0.57, 10 ** -3.24, -1.49),
    (0.8, 1.1, 10.68, 10 ** -2.57, -0.33, 10 ** -3.24, -1.49),
    (1.1, 1.5, 10.66, 10 ** -2.88, 0.19, 10 ** -3.24, -1.49),
    (1.5, 2.0, 10.51, 0.64e-3, 0.82, 0.969e-3, -1.28),
    (2.0, 2.5, 10.60, 0.45e-3, 0.07, 0.295e-3, -1.57),
    (2.5, 3.0, 10.59, 0.21e-3, -0.08, 0.228e-3, -1.67),
    (3.0, 3.5, 10.83, 0, 0, 0.090e-3, -1.76),
    (3.5, 4.5, 10.96 + np.log10(0.61), 0, 0, 10 ** -3.94, -1.63),
    (4.5, 5.5, 10.78 + np.log10(0.61), 0, 0, 10 ** -4.18, -1.63),
    (5.5, 6.5, 10.49 + np.log10(0.61), 0, 0, 10 ** -4.16, -1.55),
    (6.5, 7.5, 10.69 + np.log10(0.61), 0, 0, 10 ** -5.24, -1.88)]


_scales = {}


def rescale(cosmo):
    key = repr(cosmo)
    if len(_scales) > 50:
        _scales.clear()
    if key not in _scales:
        _scales[key] = _rescale(cosmo)
    return _scales[key]


def _rescale(cosmo):
    zc = np.array([(r[0] + r[1]) / 2 for r in SMF])
    old = FlatLambdaCDM(H0=70, Om0=0.3)
    return ((cosmo.luminosity_distance(zc).value / old.luminosity_distance(zc).value) ** 2,
            cosmo.differential_comoving_volume(zc).value / old.differential_comoving_volume(zc).value)


def smf(z, cosmo):
    """Stellar mass function at z in a cosmology: m*, a1, p1, a2, p2."""
    zc = [(r[0] + r[1]) / 2 for r in SMF]
    f, v = rescale(cosmo)

    def at(y):
        return float(np.interp(z, zc, y))
    return (10 ** at([r[2] + np.log10(k) for r, k in zip(SMF, f)]), at([r[4] for r in SMF]), at([r[3] / k for r, k in zip(SMF, v)]),
            at([r[6] for r in SMF]), 10 ** at([np.log10(r[5] / k) for r, k in zip(SMF, v)]))


def smf_above(m, z, cosmo):
    ms, a1, p1, a2, p2 = smf(z, cosmo)
    return above(lambda x: (p1 * (x / ms) ** a1 + p2 * (x / ms) ** a2) * np.exp(-x / ms) / ms, 'x', m, ms, 1e5)


def irlf(z, o):
    lstar = o['lf_lstar0'] * ((1 + z) ** 3.55 if z < 2 else 3 ** 3.55 * ((1 + z) / 3) ** 1.62)
    phi = o['lf_phistar0'] * ((1 + z) ** -0.57 if z < 1.1 else 2.1 ** -0.57 * ((1 + z) / 2.1) ** -3.92)
    return phi, lstar, o['lf_alpha0'], o['lf_sigma0']


def irlf_above(l, z, o):
    phi, ls, al, sg = irlf(z, o)
    return above(lambda x: phi * (x / ls) ** (1 - al) * np.exp(-np.log10(1 + x / ls) ** 2 / 2 / sg ** 2), 'log', l, ls, o['lirmin'])


def model_sim(case):
    """A simulation with as many massive halos as real ones have, or so."""
    rng = case.rng
    box = float(rng.uniform(20, 90)) if rng.random() < 0.8 else float(rng.uniform(4, 10))
    fields = {}
    vm = bool(rng.integers(2))
    if vm:
        fields['vmax'] = ('f', 'km/s', 0)
    halos = []
    n_snaps = int(rng.integers(1, 4))
    for _ in range(n_snaps):
        n = int(rng.integers(60, 500))
        d = sl.random_halos(rng, n, box, {}, (9.6, 13.5))
        if vm:
            v = (60 * (d['mass'] / 1e10) ** 0.31 * 10 ** rng.normal(0, 0.05, n)).astype('f')
            d['vmax'] = v
        halos.append(d)
    labels = None
    if rng.random() < 0.4:
        labels = np.sort(rng.choice(60, n_snaps, replace=False))
        case.observe('numbered_otherwise')
    return sl.make_sim(case, n_snaps=n_snaps, box=box, fields=fields, halos=halos, zmax=7.0, labels=labels), vm


def model(case):
    rng = case.rng
    import simim.galprops.sfr_bethermin17 as b17
    import simim.galprops.sfr_ir as ir
    s, vm = model_sim(case)
    stars = bool(case.index % 2)
    kind = ['auto', 'mass', 'vmax' if vm else 'mass'][int(rng.integers(3))]
    use_v = kind == 'vmax' or (kind == 'auto' and vm)
    mmin = float(rng.choice([1e10, 10 ** rng.uniform(9.8, 11)]))
    lf = {}
    if stars:
        args = dict(sm_comp=True, sm_haloprop=kind, sm_halomassmin=mmin)
        remake, comp = 'sm_remake', 'sm_comp'
        cls, fname = b17.bethermin17_base, 'stellarmass'
    else:
        lf = dict(lf_alpha0=1.2, lf_sigma0=0.5, lf_lstar0=10 ** 9.95, lf_phistar0=10 ** -2.25, lirmin=10 ** 8.5)
        mine = {}
        if rng.random() < 0.5:
            mine = dict(lf_alpha0=float(rng.uniform(1.05, 1.5)), lf_sigma0=float(rng.uniform(0.3, 0.6)), lf_lstar0=float(10 ** rng.uniform(9, 11)),
                        lf_phistar0=float(10 ** rng.uniform(-3, -2)), lirmin=float(10 ** rng.uniform(6, 9)))
        lf.update(mine)
        args = dict(comp=True, haloprop=kind, halomassmin=mmin, **mine)
        remake, comp = 'remake', 'comp'
        cls, fname = ir.g13irlf_base, 'lir'
    case.note('%s of %s, matched to %s, above %.3g %s, snapshots at %s, box %s, h %s' % (cls.__name__, s.name, kind, mmin, lf, s.snaps['redshift'], s.box, s.h))
    case.sample('%s matched to %s above %.3g %s' % (cls.__name__, kind, mmin, lf))
    case.nontrivial(cls.__name__, kind, mmin, sorted(lf.items()), s.box, s.h)
    from simim._paths import _SimIMPaths
    import shutil
    for d in _SimIMPaths().props.values():
        for f in ('mass_axis.npy', 'redshift_axis.npy', 'stellarmass.npy', 'lir.npy'):
            if os.path.exists(os.path.join(d, f)):
                os.remove(os.path.join(d, f))
    m0, v0 = np.array([1e12]), np.array([200.])
    with case.quiet():
        empty = cls(s.name)
    case.refuses('no_table', '%s without a table gives values' % cls.__name__, getattr(empty, fname), m0, 1.0)
    if not stars:
        case.refuses('no_table', 'g13irlf_base without a table gives star formation rates', empty.sfr, m0, 1.0)
    case.refuses('unusable', 'an unknown halo property is matched to', cls, s.name, **dict(args, **{'sm_haloprop' if stars else 'haloprop': 'radius'}))
    with case.quiet(), np.errstate(all='ignore'):
        mod = cls(s.name, **args)
    f = getattr(mod, fname)
    vol = (s.box / s.h) ** 3
    zs = [float(z) for z in s.snaps['redshift']]
    per_snap, per_snap_all = [], []
    floors = [(smf_above(1e5, z, s.cosmo) if stars else irlf_above(lf['lirmin'], z, lf)) * vol for z in zs]
    for t in s.truth:
        mass = t['mass'].astype(float) / s.h
        per_snap_all.append((t['vmax'].astype(float) if use_v else mass)[mass >= mmin])
    for z, t in zip(zs, s.truth):
        mass = t['mass'].astype(float) / s.h
        sel = mass >= mmin
        x = (t['vmax'].astype(float) if use_v else mass)[sel]
        per_snap.append(x)
        if len(x) < 5:
            continue
        o = np.sort(x)
        # between halos, not above the most massive or below the least massive
        lo, hi = o[0] * (1 + 3e-2), o[-1] * (1 - 3e-2) if use_v else o[-1] * (1 - 0.01)
        lo = max(lo, o[0] + 2.1) if use_v else o[0] * 1.01
        hi = min(hi, o[-1] - 2.1) if use_v else hi
        if hi <= lo:
            continue
        q = np.exp(rng.uniform(np.log(lo), np.log(hi), 14))
        with case.quiet(), np.errstate(all='ignore'):
            got = np.asarray(f(q, np.full(len(q), z)))
        floor = floors[len(per_snap) - 1]
        for v, g in zip(q, got):
            cell = 1.01 if use_v else v * 0.0047
            n_hi, n_lo = (o > v - cell).sum(), (o > v + cell).sum()
            if n_lo - 1.5 > floor * 1.01:
                case.check(np.isnan(g), 'no_counterpart', '%s(%s, %s) is %s, but there are only %.1f galaxies for the %d halos above' % (fname, v, z, g, floor, n_lo))
                case.observe('without_counterpart')
                continue
            if n_hi + 1.5 > floor * 0.99:
                continue
            if np.isnan(g) and any((np.asarray(other) > v - (1.01 if use_v else v * 0.0047)).sum() + 1.5 > fl * 0.99 for other, fl in zip(per_snap_all, floors)):
                continue    # no counterpart in a neighbouring snapshot: not interpolated
            case.check(np.isfinite(g), 'abundance', '%s(%s, %s) is %s, expected a match; %d-%d halos, %.2f galaxies' % (fname, v, z, g, n_lo, n_hi, floor))
            n = (smf_above(g, z, s.cosmo) if stars else irlf_above(g, z, lf)) * vol
            case.check(n_lo * 0.98 - 1.6 <= n <= n_hi * 1.02 + 1.6, 'abundance',
                       lambda: '%s(%s, z=%s) = %s: %.2f galaxies in the box are above, but %d-%d halos' % (fname, v, z, g, n, n_lo, n_hi))
            case.observe('galaxies')
        # halos that are too light were not matched
        order = np.argsort(q)
        gg = got[order]
        gg = gg[np.isfinite(gg)]
        case.check(bool(np.all(np.diff(gg) >= -1e-9 * gg[:-1])), 'order', '%s does not grow with the halo' % fname)
        single = [float(f(float(v), z)) for v in q[:3]]
        case.close(np.array(single), got[:3], 'single', '%s of single halos' % fname, rtol=1e-9)
    # between snapshots
    if len(zs) > 1:
        i = int(rng.integers(len(zs) - 1))
        a, b = zs[i], zs[i + 1]
        w = float(rng.uniform(0, 1))
        v = np.exp(rng.uniform(np.log(max(per_snap[i].min(), per_snap[i + 1].min())), np.log(min(per_snap[i].max(), per_snap[i + 1].max())), 10))
        with case.quiet(), np.errstate(all='ignore'):
            va, vb, vm_ = f(v, np.full(10, a)), f(v, np.full(10, b)), f(v, np.full(10, a + (b - a) * w))
        # at a snapshot, a missing value in either neighbour makes it missing
        k = np.isfinite(va) & np.isfinite(vb)
        case.close(vm_[k], (va + (vb - va) * w)[k], 'between_snapshots', '%s between snapshots' % fname, rtol=1e-5)
        case.observe('between_snapshots', k.sum())
    out_z = np.array([max(zs) + 0.1, min(zs) - 0.04])
    with case.quiet():
        got = f(np.full(2, float(np.median(per_snap[0]))), out_z)
        far = f(np.array([-1.0 if use_v else mmin * 0.9, 6000. if use_v else mmin * 1.01e10]), np.full(2, zs[0]))
    case.check(bool(np.all(np.isnan(got))), 'outside', '%s at redshifts the simulation does not have: %s' % (fname, got))
    case.check(bool(np.all(np.isnan(far))), 'outside', '%s of halos outside the matched range: %s' % (fname, far))
    if not stars:
        q = np.exp(rng.uniform(np.log(per_snap[0].min()), np.log(per_snap[0].max()), 10))
        own = float(10 ** rng.uniform(-11, -9))
        with case.quiet():
            case.close(mod.sfr(q, zs[0]), mod.lir(q, zs[0]) * 1e-10, 'sfr', 'star formation rate of the infrared luminosity', rtol=1e-9)
            case.close(mod.sfr(q, zs[0], lir_to_sfr=own), mod.lir(q, zs[0]) * own, 'sfr', 'star formation rate with own conversion', rtol=1e-9)
            case.close(cls(s.name, lir_to_sfr=own).sfr(q, zs[0]), mod.lir(q, zs[0]) * own, 'sfr', 'star formation rate with own conversion', rtol=1e-9)
    # stored and loaded again; kept until remade
    q = np.exp(rng.uniform(np.log(per_snap[0].min()), np.log(per_snap[0].max()), 10))
    with case.quiet(), np.errstate(all='ignore'):
        first = f(q, zs[0])
        again = getattr(cls(s.name), fname)(q, zs[0])
        other = dict(args, **{'sm_halomassmin' if stars else 'halomassmin': mmin * 4})
        cached = getattr(cls(s.name, **other), fname)(q, zs[0])
        back = getattr(cls(s.name, **dict(args, **{remake: True})), fname)(q, zs[0])
    case.close(again, first, 'stored', '%s from the stored table' % fname, rtol=1e-12)
    case.close(cached, first, 'stored', '%s with a table in store' % fname, rtol=1e-12)
    case.close(back, first, 'remade', '%s after matching again' % fname, rtol=1e-12)
    if not use_v:
        with case.quiet():
            low = [getattr(cls(s.name, **kw), fname)(mmin * 2, zs[0]) for kw in (dict(other, **{remake: True}), args, dict(args, **{remake: True}))]
        case.check(bool(np.isnan(low[0])), 'remade', '%s is not matched again with other limits when asked for' % fname)
        case.check(bool(np.isnan(low[1])), 'stored', '%s is matched again without being asked for' % fname)
        case.close(low[2], f(mmin * 2, zs[0]), 'remade', '%s after matching again' % fname, rtol=1e-12)
        case.observe('remade')
    case.observe('tables')


def which_halos(case):
    """Only the halos above the limit are matched, wherever they are listed."""
    rng = case.rng
    import simim.galprops.sfr_bethermin17 as b17
    import simim.galprops.sfr_ir as ir
    vm = bool(rng.integers(2))
    stars = bool(case.index % 2)
    cls, fname, remake = (b17.bethermin17_base, 'stellarmass', 'sm_remake') if stars else (ir.g13irlf_base, 'lir', 'remake')
    mmin = float(10 ** rng.uniform(10.3, 11.2))
    h, box = float(rng.uniform(0.55, 0.95)), float(10 ** rng.uniform(0.5, 2))
    n_snaps = int(rng.integers(1, 4))
    z = np.sort(rng.uniform(0.1, 6, n_snaps))[::-1] + np.arange(n_snaps)[::-1] * 0.05
    fields = {'vmax': ('f', 'km/s', 0)} if vm else {}
    few, many = [], []
    for _ in range(n_snaps):
        d = sl.random_halos(rng, int(rng.integers(40, 300)), box, {}, (np.log10(mmin * h) + 0.02, 13.5))
        e = sl.random_halos(rng, int(rng.integers(40, 600)), box, {}, (8.5, np.log10(mmin * h) - 0.02))
        e['uid'] = e['uid'] + d['uid'].max() + 1
        if vm:
            for c in (d, e):
                c['vmax'] = (60 * (c['mass'] / 1e10) ** 0.31 * 10 ** rng.normal(0, 0.2, len(c['mass']))).astype('f')
        few.append(d)
        both = {k: np.concatenate([d[k], e[k]]) for k in d}
        o = rng.permutation(len(both['uid']))
        many.append({k: v[o] for k, v in both.items()})
    q = np.concatenate([10 ** rng.uniform(np.log10(mmin), np.log10(mmin) + 3, 40)]) if not vm else rng.uniform(30, 1200, 40)
    kw = {'sm_comp' if stars else 'comp': True, 'sm_halomassmin' if stars else 'halomassmin': mmin, remake: True}
    out = []
    for halos in (few, many):
        s = sl.make_sim(case, n_snaps=n_snaps, box=box, h=h, omega=0.3, fields=fields, halos=halos, redshifts=z)
        with case.quiet(), np.errstate(all='ignore'):
            f = getattr(cls(s.name, **kw), fname)
            out.append(np.array([np.asarray(f(q, np.full(len(q), a))) for a in z]))
    case.close(out[1], out[0], 'excluded_halos', '%s matched to %s with halos below the limit of %.3g and without' % (cls.__name__, 'vmax' if vm else 'mass', mmin), rtol=1e-9)
    case.observe('excluded_halos', int(np.isfinite(out[0]).sum()))
    case.nontrivial(cls.__name__, vm, mmin, box, h)


def parameters(case):
    """The parts of the models that need no table."""
    rng = case.rng
    import simim.galprops.sfr_bethermin17 as b17
    import simim.galprops.sfr_ir as ir
    if not hasattr(case.build, 'c30sim'):
        case.build.c30sim = sl.make_sim(case, n_snaps=1, n_halos=10)
    s = case.build.c30sim
    with case.quiet():
        opts, P = {}, dict(fq00=0.1017, gamma=-1.039, logmt0=10.53, alpha1=0.2232, alpha2=0.0913, sigsf0=0.8488, beta1=0.0418, beta2=-0.0159)
        for k in P:
            if rng.random() < 0.3:
                P[k] = opts['sffrac_' + k] = P[k] * float(rng.uniform(0.8, 1.2))
        Q = dict(m0=0.5, m1=0.36, a0=1.5, a1=0.3, a2=2.5)
        for k in Q:
            if rng.random() < 0.3:
                Q[k] = opts['sfms_' + k] = Q[k] * float(rng.uniform(0.8, 1.2))
        R = dict(sfms_sigma=0.3, sfms_msoffset=0.87, sfms_sboffset=5.3, sf_sflimit=1e4)
        for k in R:
            if rng.random() < 0.3:
                R[k] = opts[k] = R[k] * float(rng.uniform(0.5, 1.5))
        if 'sf_sflimit' in opts and rng.random() < 0.6:
            R['sf_sflimit'] = opts['sf_sflimit'] = float(10 ** rng.uniform(1, 3))
        corr = bool(rng.random() < 0.7)
        if not corr or rng.random() < 0.5:
            opts['sfms_correztlowz'] = corr
        mod = b17.bethermin17_base(s.name, **opts)
    case.note('options %s' % opts)
    case.nontrivial(sorted(opts.items()))
    # star forming, main sequence and starburst fractions
    n = 60
    m = 10 ** rng.uniform(7, 12.5, n)
    z = np.where(rng.random(n) < 0.3, rng.uniform(0, 0.6, n), rng.uniform(0, 8, n))
    if rng.random() < 0.3:
        z = float(rng.choice([0.1, 0.3, 0.5, 1.0, 2.5]))
    kept = m.copy(), np.array(z)
    from math import erf
    zz = np.broadcast_to(z, n)
    sf = [(1 - P['fq00'] * (1 + a) ** P['gamma']) * (1 - erf((np.log10(b) - P['logmt0'] - P['alpha1'] * a - P['alpha2'] * a * a)
                                                       / (P['sigsf0'] + P['beta1'] * a + P['beta2'] * a * a))) / 2 for a, b in zip(zz, m)]
    ms = []
    for a, b in zip(zz, m):
        lm, r = np.log10(b / 1e9), np.log10(1 + a)
        v = lm - Q['m0'] + Q['a0'] * r - Q['a1'] * max(0, lm - Q['m1'] - Q['a2'] * r) ** 2
        ms.append(10 ** (v - (0.1 * (0.5 - a) / (0.5 - 0.22) if corr and a < 0.5 else 0)))
    sb = np.array([0.015 + 0.015 * min(a, 1) for a in zz])
    sf, ms = np.array(sf), np.array(ms)
    case.close(mod.b17_sffrac(m, z), sf, 'fractions', 'star forming fraction', rtol=1e-9)
    case.close(mod.b17_sfms(m, z), ms, 'main_sequence', 'main sequence', rtol=1e-9)
    case.close(np.broadcast_to(mod.b17_sbfrac(m, z), n), sb, 'fractions', 'starburst fraction', rtol=1e-9)
    case.check(m.tobytes() == kept[0].tobytes() and np.array(z).tobytes() == kept[1].tobytes(), 'inputs_changed', 'the inputs are changed')
    # the stellar mass function
    zc = float(rng.choice([(r[0] + r[1]) / 2 for r in SMF] + list(rng.uniform(0, 8, 14))))
    cosmo = sl.cosmology(float(rng.uniform(0.55, 0.9)), float(rng.uniform(0.2, 0.4)), 0.048)
    case.close(np.array(mod.b17_smfpars(zc, cosmo)), np.array(smf(zc, cosmo)), 'mass_function', 'stellar mass function at %s' % zc, rtol=1e-6)
    # the infrared luminosity function
    lf = dict(lf_alpha0=float(rng.uniform(1.05, 1.5)), lf_sigma0=float(rng.uniform(0.3, 0.6)), lf_lstar0=float(10 ** rng.uniform(9, 11)),
              lf_phistar0=float(10 ** rng.uniform(-3, -2)))
    with case.quiet():
        g = ir.g13irlf_base(s.name, **lf)
    zi = rng.uniform(0, 8, 30)
    zi[:3] = [1.1, 2, 0]
    want = np.array([irlf(a, lf) for a in zi])
    got = g.get_irlf_pars(zi)
    case.close(np.array([np.broadcast_to(v, 30) for v in got]).T, want, 'luminosity_function', 'infrared luminosity function', rtol=1e-9)
    case.close(np.array([np.array(g.get_irlf_pars(float(a)), float) for a in zi[:5]]), want[:5], 'luminosity_function', 'infrared luminosity function at one redshift', rtol=1e-9)
    case.close(np.array([np.broadcast_to(v, 6) for v in g.get_irlf_pars(np.arange(6))]).T, np.array([irlf(a, lf) for a in range(6)]), 'luminosity_function',
               'infrared luminosity function at whole numbers', rtol=1e-9)
    other = dict(alpha0=1.3, lstar0=2e10)
    case.close(np.array(g.get_irlf_pars(1.7, **other), float), np.array(irlf(1.7, dict(lf, lf_alpha0=1.3, lf_lstar0=2e10))), 'luminosity_function',
               'infrared luminosity function with own parameters', rtol=1e-9)
    # star formation rates
    n = 8000
    m = 10 ** rng.uniform(8, 12, n)
    z = float(rng.choice([rng.uniform(0, 1), rng.uniform(1, 4)]))
    zarr = np.full(n, z) if rng.random() < 0.5 else z
    seed = int(rng.integers(1 << 40))
    state = np.random.get_state()[1].tobytes()
    with case.quiet():
        a, issb, isq = mod.b17_sfr(m, zarr, rng=np.random.default_rng(seed), return_fracs=True)
        b = mod.sfr(m, zarr, rng=np.random.default_rng(seed))
        c = mod.sfr(m, zarr, rng=np.random.default_rng(seed + 1))
        ms, sf, sb = mod.b17_sfms(m, z), mod.b17_sffrac(m, z), float(np.max(mod.b17_sbfrac(m, z)))
    case.check(np.random.get_state()[1].tobytes() == state, 'global_random', 'star formation rates use the global random numbers')
    case.check(a.tobytes() == b.tobytes(), 'reproducible', 'star formation rates differ with the same generator')
    case.check(a.tobytes() != c.tobytes(), 'random', 'star formation rates are the same with other random numbers')
    case.check(bool(np.all(a[isq] == 0)) and bool(np.all(a[~isq] > 0)) and not (issb & isq).any(), 'quenched', 'quenched galaxies form stars or others do not')
    case.observe('at_the_limit', int((a == R['sf_sflimit']).sum()))
    case.check(bool(a.max() <= R['sf_sflimit']), 'limit_of_rates', 'star formation rates above the limit')
    k, mu, var = (~isq).sum(), sf.sum(), (sf * (1 - sf)).sum()
    case.check(abs(k - mu) < 6.5 * np.sqrt(var) + 1, 'quenched', '%d of %d galaxies form stars, expected %.1f +- %.1f' % (k, n, mu, np.sqrt(var)))
    half = np.argsort(m)[:n // 2]
    k, mu, var = (~isq)[half].sum(), sf[half].sum(), (sf * (1 - sf))[half].sum()
    case.check(abs(k - mu) < 6.5 * np.sqrt(var) + 1, 'quenched', '%d of the %d lighter galaxies form stars, expected %.1f +- %.1f' % (k, n // 2, mu, np.sqrt(var)))
    on = ~isq
    k, mu = issb.sum(), sb * on.sum()
    case.check(abs(k - mu) < 6.5 * np.sqrt(mu) + 1, 'starbursts', '%d starbursts, expected %.1f' % (k, mu))
    free = on & (ms * R['sfms_sboffset'] * 10 ** (6 * R['sfms_sigma']) < R['sf_sflimit'])
    r = (np.log10(a[free] / ms[free]) - np.where(issb[free], np.log10(R['sfms_sboffset']), np.log10(R['sfms_msoffset']))) / R['sfms_sigma']
    if len(r) > 300:
        case.check(abs(r.mean()) < 6.5 / np.sqrt(len(r)) and abs(r.std() - 1) < 6.5 / np.sqrt(2 * len(r)), 'scatter',
                   'star formation rates scatter about the main sequence by %.3f sigma, centered on %.3f' % (r.std(), r.mean()))
        rb = r[issb[free]]
        if len(rb) > 20:
            case.check(abs(rb.mean()) < 6.5 / np.sqrt(len(rb)), 'starbursts', 'starbursts are centered %.3f sigma from their offset' % rb.mean())
        case.observe('rates', len(r))


SCENARIOS = [('distribution', distribution, 160, 3200), ('match', match, 600, 20000), ('model', model, 40, 900), ('parameters', parameters, 80, 2000), ('which_halos', which_halos, 24, 500)]
MINIMUM = {'distribution_values': 3000, 'matched': 20000, 'extrapolated': 3000, 'galaxies': 300, 'tables': 20, 'rates': 50000, 'between_snapshots': 100,
           'without_counterpart': 5, 'excluded_halos': 200, 'numbered_otherwise': 5, 'refusals_observed': 1000}
