"""C29: line luminosities, star formation rates and stellar masses are those of the
published relations, object by object, with the scatter and duty cycle asked for,
drawn from the generator given."""
import os

import numpy as np
import C30
import linelib as ref

PROPERTY = 'C29'
NEEDS_DATA = True
RULE = ('a case is one model with random options and a random set of objects; values without scatter are compared object by object with an '
        'independent evaluation of the published relation, and with themselves for single objects, subsets and other orders; scatter and '
        'duty cycles are judged statistically over thousands of objects and by repeating with the same generator; told apart by model and options')


def masses(rng, n):
    return 10 ** rng.uniform(8.5, 14.5, n)


def sfrs(rng, n):
    s = 10 ** rng.uniform(-3, 3.3, n)
    return s


def redshifts(rng, n):
    z = rng.uniform(0, 9, n)
    k = rng.random(n) < 0.1
    z[k] = rng.choice([0, 4, 5, 1, 2, 8], k.sum())
    return z


class Model:
    """call(args..., **options) -> values; mean(args..., **options) -> published values.
    scatter: option that switches it; sigma(options, args) in dex; duty likewise."""

    def __init__(self, name, func, args, mean, options=None, scatter=None, sigma=None, preserve=False, duty=None, duty_switch=None,
                 average=None, outputs=1, bad=(), tolerance=1e-6):
        self.__dict__.update(locals())


def models(case):
    import simim.galprops.line_co as co
    import simim.galprops.line_densegas as dg
    import simim.galprops.line_fir as fir
    import simim.galprops.line_fir_yang as yang
    import simim.galprops.sfr_behroozi13 as b13
    rng = case.rng
    cosmo = ref.cosmology(float(rng.uniform(0.55, 0.9)), float(rng.uniform(0.2, 0.4)))
    p = ref.pick
    out = [
        Model('keating16', co.keating16, 'm', ref.keating16, lambda r: p(r, m_min=10 ** r.uniform(9, 11), A=10 ** r.uniform(-7, -5)),
              'scatter_lco', 'sig_lco'),
        Model('li16', co.li16, 's', ref.li16, lambda r: p(r, d_mf=r.uniform(0.8, 1.8), a=r.uniform(1, 1.6), b=r.uniform(-2, 0), nu_rest=r.uniform(1, 6) * 1e11),
              'scatter_lco', 'sig_lco', True),
        Model('pullen13', co.pullen13, 'mz', ref.pullen13, lambda r: dict(cosmo=cosmo, **p(r, sf_length=10 ** r.uniform(-2, 1))),
              duty=ref.f_duty, duty_switch='rand_f_duty', tolerance=2e-2),
        Model('lidz11', co.lidz11, 'm', ref.lidz11, lambda r: p(r, f_duty=r.uniform(0.01, 1)), duty=lambda m, f_duty=0.1: f_duty, duty_switch='rand_f_duty'),
        Model('kamenetzky16', co.kamenetzky16, 's', ref.kamenetzky16,
              lambda r: p(r, lines=[int(j) for j in r.permutation(np.arange(1, 14))[:int(r.integers(1, 14))]], d_mf=r.uniform(0.8, 1.8),
                          fircor=r.uniform(0.3, 1), break_ulirgs=bool(r.integers(2))),
              'scatter_lco', 'sig_lco', outputs=None, bad=[dict(lines=[0]), dict(lines=[14]), dict(lines=[1, 2, 15])]),
        Model('hcn_gao', dg.hcn_gao, 's', ref.hcn_gao, lambda r: p(r, d_mf=r.uniform(0.8, 1.8), a=r.uniform(0.8, 1.2), b=r.uniform(2, 4), nu_rest=r.uniform(1, 6) * 1e11),
              'scatter_lhcn', 'sig_lhcn', True),
        Model('hcn_breysse', dg.hcn_breysse, 'm', ref.hcn_breysse, lambda r: p(r, f_duty=r.uniform(0.01, 1)), duty=lambda m, f_duty=0.1: f_duty,
              duty_switch='rand_f_duty'),
        Model('delooze14', fir.delooze14, 's', ref.delooze14, ref.delooze_options, 'scatter', ('fix_scatter', ref.delooze_sigma),
              bad=[dict(line='[CIII]'), dict(set='spirals'), dict(line='[OI]', set='high z')]),
        Model('uzgil14', fir.uzgil14, 's', ref.uzgil14, lambda r: p(r, line=ref.choose(r, ref.UZGIL), d_mf=r.uniform(0.8, 1.8)), 'scatter', 'sig_scatter',
              bad=[dict(line='[CIII]'), dict(line='[SiIII]33um')]),
        Model('spinoglio12', fir.spinoglio12, 's', ref.spinoglio12, lambda r: p(r, line=ref.choose(r, ref.SPINOGLIO), d_mf=r.uniform(0.8, 1.8)), 'scatter',
              'sig_scatter', bad=[dict(line='[CIII]'), dict(line='[SiIII]33um')]),
        Model('schaerer20', fir.schaerer20, 's', ref.schaerer20, lambda r: p(r, set=ref.choose(r, ref.SCHAERER)), 'scatter', 'sig_scatter',
              bad=[dict(set='DGS')]),
        Model('zhao13', fir.zhao13, 's', ref.zhao13, lambda r: p(r, d_mf=r.uniform(0.8, 1.8)), 'scatter', 'sig_scatter'),
        Model('padmanabhan19', fir.padmanabhan19, 'mz', ref.padmanabhan19,
              lambda r: p(r, m1=10 ** r.uniform(-5, -4), b=r.uniform(0.2, 0.8), n1=10 ** r.uniform(11, 12), a=r.uniform(1.4, 2.1)), 'scatter', 'sig_scatter', True),
        Model('yang22', yang.yang22, 'mz', ref.yang22, lambda r: p(r, line=ref.choose(r, ref.YANG)), 'scatter', ('fix_scatter', ref.yang_sigma),
              duty=ref.yang_duty, duty_switch='fduty', average=False, bad=[dict(line='CO6-5'), dict(line='C')], tolerance=2e-5),
        Model('behroozi13.sfr', b13.sfr, 'zm', ref.behroozi('sfr'), None, 'scatter', 'sigma_scatter', True, tolerance=1e-4),
        Model('behroozi13.stellarmass', b13.stellarmass, 'zm', ref.behroozi('stellarmass'), None, 'scatter', 'sigma_scatter', True, tolerance=1e-4),
    ]
    return out


def draw_args(model, rng, n, same_z=False):
    kinds = {'m': masses, 's': sfrs, 'z': redshifts}
    args = [kinds[k](rng, n) for k in model.args]
    if same_z and 'z' in model.args:
        args[model.args.index('z')] = float(redshifts(rng, 1)[0])
    return args


def as_list(v, model):
    return [np.asarray(x) for x in v] if model.outputs is None else [np.asarray(v)]


def options(model, rng):
    return model.options(rng) if model.options else {}


def off(model):
    kw = {}
    if model.scatter:
        kw[model.scatter] = False
    if model.duty_switch:
        kw[model.duty_switch] = False
    return kw


def pick_model(case):
    ms = models(case)
    return ms[case.index % len(ms)]


def values(case):
    """Without scatter."""
    rng = case.rng
    model = pick_model(case)
    opts = options(model, rng)
    n = int(rng.choice([0, 1, 2, 3, int(rng.integers(4, 80)), int(rng.integers(101, 400))], p=[0.05, 0.1, 0.05, 0.05, 0.6, 0.15]))
    same_z = rng.random() < 0.3
    args = draw_args(model, rng, n, same_z)
    if rng.random() < 0.2 and n and model.args[0] in 'sm':
        if model.args[0] == 's':
            args[0][rng.random(n) < 0.3] = 0
    dt = ['d', 'd', 'f', 'i8'][int(rng.integers(4))]
    if dt == 'i8':
        args = [np.ceil(a).astype('i8') if k in 'ms' and isinstance(a, np.ndarray) else a for k, a in zip(model.args, args)]
    elif dt == 'f':
        args = [a.astype('f') if isinstance(a, np.ndarray) else a for a in args]
    elif n > 3 and model.name == 'keating16':
        # halos exactly at the minimum mass are above it
        args[0][rng.random(n) < 0.2] = opts.get('m_min', 1e10)
        case.observe('at_the_threshold', n)
    elif n > 3 and model.name == 'kamenetzky16' and opts.get('break_ulirgs') and 'd_mf' not in opts:
        args[0][rng.random(n) < 0.2] = 6.0
        case.observe('at_the_threshold', n)
    tol = max(model.tolerance if n > 100 or model.name != 'pullen13' else 1e-6, 2e-4 if dt == 'f' else 0)
    case.note('%s(%s objects, %s, one redshift: %s, %s)' % (model.name, n, dt, same_z, {k: v for k, v in opts.items() if k != 'cosmo'}))
    kept = [np.array(a) for a in args]
    kept_opts = repr(opts)
    state = np.random.get_state()[1].tobytes()
    with case.quiet(), np.errstate(all='ignore'):
        got = as_list(model.func(*args, **opts, **off(model)), model)
        want = as_list(model.mean(*[np.asarray(a, float) for a in args], **opts), model)
        if model.duty_switch and model.average is not False:
            want = [w * model.duty(*[np.asarray(a, float) for a in args], **opts) for w in want]
    case.check(len(got) == len(want), 'outputs', '%s gives %d outputs, expected %d' % (model.name, len(got), len(want)))
    for g, w in zip(got, want):
        case.check(g.shape == (n,), 'shape', '%s gives shape %s for %d objects' % (model.name, g.shape, n))
        ok = np.isclose(g, w, rtol=tol, atol=1e-30, equal_nan=True)
        case.check(ok.all(), 'relation', lambda: '%s: %d of %d values are not those of the published relation, e.g. %r instead of %r for %s'
                   % (model.name, (~ok).sum(), n, g[~ok][0], w[~ok][0], [a if np.ndim(a) == 0 else a[~ok][0] for a in args]))
        case.observe('values', n)
    for a, k in zip(args, kept):
        case.check(np.asarray(a).tobytes() == k.tobytes(), 'inputs_changed', '%s changed what it was given' % model.name)
    case.check(repr(opts) == kept_opts, 'inputs_changed', '%s changed its options' % model.name)
    case.check(np.random.get_state()[1].tobytes() == state, 'global_random', '%s used the global random numbers' % model.name)
    if n == 0:
        case.observe('empty')
        return
    # one at a time, in another order, and a part
    near = max(1e-9, model.tolerance * 2 if model.name == 'pullen13' else 0, 2e-6 if dt == 'f' else 0)
    with case.quiet(), np.errstate(all='ignore'):
        for i in rng.integers(0, n, 3):
            one = [a if np.ndim(a) == 0 else a[i].item() for a in args]
            single = as_list(model.func(*one, **opts, **off(model)), model)
            for s, g in zip(single, got):
                case.check(s.size == 1, 'single', '%s of one object gives %d values' % (model.name, s.size))
                case.close(float(np.ravel(s)[0]), float(g[i]), 'single', '%s of a single object' % model.name, rtol=max(near, 2e-4 if dt == 'f' else 0), atol=1e-30)
                case.observe('singles')
        perm = rng.permutation(n)
        perm = perm[:max(1, int(n * rng.uniform(0.3, 1)))]
        sub = as_list(model.func(*[a if np.ndim(a) == 0 else a[perm] for a in args], **opts, **off(model)), model)
    for s, g in zip(sub, got):
        case.close(s, g[perm], 'object_by_object', '%s of a part of the objects in another order' % model.name, rtol=near, atol=1e-30)
    for b in model.bad:
        case.refuses('unknown_option', '%s accepts %s' % (model.name, b), model.func, *args, **b)
    case.nontrivial(model.name, sorted((k, repr(v)) for k, v in opts.items() if k != 'cosmo'), n, dt, same_z)
    case.sample('%s %s' % (model.name, {k: v for k, v in opts.items() if k != 'cosmo'}))


def scatter(case):
    """With scatter and duty cycle: right distribution, from the generator given."""
    rng = case.rng
    model = pick_model(case)
    if not model.scatter and not model.duty_switch:
        return
    opts = options(model, rng)
    n = 6000
    args = draw_args(model, rng, n, rng.random() < 0.3)
    if model.args == 's':
        args[0][:20] = 0
    kw = {}
    sig = model.sigma
    if model.scatter:
        name, default = (sig, None) if isinstance(sig, str) else sig
        if model.name == 'padmanabhan19':
            kw['scatter'] = True
            kw['sig_scatter'] = float(rng.uniform(0.05, 0.6))
            case.refuses('scatter_width', 'padmanabhan19 scatters by an unknown width', model.func, *args, scatter=True)
        elif rng.random() < 0.6 and (default is None or rng.random() < 0.5):
            kw[name] = float(rng.uniform(0.05, 0.6))
        if name in kw:
            sigma = kw[name]
        elif default is not None:
            sigma = default(*args, **opts)
        else:
            sigma = {'sig_lco': 0.3, 'sig_lhcn': 0.3, 'sig_scatter': 0.4, 'sigma_scatter': 0.3}[name]
    seed = int(rng.integers(1 << 40))
    state = np.random.get_state()[1].tobytes()
    case.note('%s with %s, %s, seed %d' % (model.name, {k: v for k, v in opts.items() if k != 'cosmo'}, kw, seed))
    with case.quiet(), np.errstate(all='ignore'):
        a = as_list(model.func(*args, **opts, **kw, rng=np.random.default_rng(seed)), model)
        b = as_list(model.func(*args, **opts, **kw, rng=np.random.default_rng(seed)), model)
        c = as_list(model.func(*args, **opts, **kw, rng=np.random.default_rng(seed + 1)), model)
        d = as_list(model.func(*args, **opts, **kw), model)
        mean = as_list(model.mean(*args, **opts), model)
    case.check(np.random.get_state()[1].tobytes() == state, 'global_random', '%s used the global random numbers' % model.name)
    for x, y, w, free, m in zip(a, b, c, d, mean):
        case.check(x.tobytes() == y.tobytes(), 'reproducible', '%s gives other values with the same generator' % model.name)
        if model.duty_switch and not model.scatter:
            f = np.broadcast_to(np.clip(model.duty(*args, **opts), 0, 1), (n,))
            if (f * (1 - f)).sum() < 50:
                continue
        case.check(x.tobytes() != w.tobytes(), 'random', '%s gives the same values with other random numbers' % model.name)
        case.check(x.tobytes() != free.tobytes(), 'random', '%s gives the same values with its own random numbers' % model.name)
        for v, what in ((x, 'the generator given'), (free, 'its own generator')):
            on = v > 0
            live = m > 1e-200       # below lie rounded-off exponentials
            case.check(not (v[~live] > 1e-150).any(), 'scattered_zero', '%s: objects without luminosity have some' % model.name)
            if model.duty_switch:
                f = np.broadcast_to(model.duty(*args, **opts), (n,))
                f = np.clip(f, 0, 1)[live]
                k, mu, var = int(on[live].sum()), f.sum(), (f * (1 - f)).sum()
                case.check(abs(k - mu) <= 7 * np.sqrt(var) + 1 + (0.01 * mu if model.name == 'pullen13' else 0), 'duty_fraction', '%s with %s: %d of %d objects shine, expected %.1f +- %.1f'
                           % (model.name, what, k, len(f), mu, np.sqrt(var)))
                # also as a function of the expected fraction
                o = np.argsort(f, kind='stable')
                for part in np.array_split(o, 4):
                    mu, var = f[part].sum(), (f[part] * (1 - f[part])).sum()
                    k = int(on[live][part].sum())
                    case.check(abs(k - mu) <= 7 * np.sqrt(var) + 1 + (0.01 * mu if model.name == 'pullen13' else 0), 'duty_fraction',
                               '%s with %s: %d of %d objects shine where %.1f +- %.1f are expected' % (model.name, what, k, len(part), mu, np.sqrt(var)))
                case.observe('duty_objects', len(f))
            else:
                case.check(bool(on[live].all()), 'duty_fraction', '%s: objects lost their luminosity' % model.name)
            both = on & live
            both &= m > 1e-200
            r = np.log10(v[both] / m[both])
            if not model.scatter:
                case.check(bool(np.all(np.abs(r) < 1e-6)), 'relation', '%s: shining objects are not on the relation' % model.name)
                continue
            s = np.broadcast_to(sigma, (n,))[both]
            if model.preserve:
                r = r + s ** 2 * np.log(10) / 2
            r = r / s
            k = len(r)
            slack = 0.002
            case.check(abs(r.mean()) < 6.5 / np.sqrt(k) + slack, 'scatter_mean', '%s with %s: the scatter is centered on %.3f sigma (%d objects)' % (model.name, what, r.mean(), k))
            case.check(abs(r.std() - 1) < 6.5 / np.sqrt(2 * k) + slack, 'scatter_width', '%s with %s: the scatter is %.3f times as wide as asked for (%d objects)' % (model.name, what, r.std(), k))
            if k > 2000:
                case.check(abs(np.mean(r ** 3)) < 6.5 * np.sqrt(15 / k) + slack, 'scatter_shape', '%s with %s: the scatter is skewed' % (model.name, what))
                case.check(abs(np.mean(r ** 4) - 3) < 6.5 * np.sqrt(96 / k) + slack, 'scatter_shape', '%s with %s: the scatter is not log-normal' % (model.name, what))
            rr = r[:k // 2 * 2].reshape(-1, 2)
            case.check(abs(np.mean(rr[:, 0] * rr[:, 1])) < 6.5 / np.sqrt(max(k // 2, 1)) + slack, 'scatter_independent', '%s with %s: neighbours scatter alike' % (model.name, what))
            case.observe('scattered', k)
    case.nontrivial(model.name, sorted((k, repr(v)) for k, v in opts.items() if k != 'cosmo'), sorted(kw.items()))


def smooth(case):
    """The pieces the relations are put together of join: as redshift and mass vary
    continuously, luminosities do."""
    rng = case.rng
    import simim.galprops.line_fir_yang as yang
    import simim.galprops.line_co_dutycycle as dc
    import simim.galprops.sfr_behroozi13 as b13
    line = ref.YANG[case.index % len(ref.YANG)]
    m = masses(rng, 1)[0]
    z = np.linspace(0.5 if line == 'CII' else 0, 10, 4001)
    L = np.log10(yang.yang22(np.full(len(z), m), z, line=line, scatter=False, fduty=False))
    step = np.abs(np.diff(L))
    # within the pieces, steps are small; at the joints the published fits differ a little
    i = int(np.argmax(step))
    case.check(step[i] < 0.25, 'jump', '%s: log L of yang22 jumps by %.2f at redshift %.3f, mass %.2e' % (line, step[i], z[i], m))
    case.observe('steps', len(step))
    cosmo = ref.cosmology(float(rng.uniform(0.55, 0.9)), float(rng.uniform(0.2, 0.4)))
    length = 10 ** rng.uniform(-2, 1)
    n = int(rng.choice([3, 50, 99, 100, 101, 500]))
    zz = redshifts(rng, n)
    f = dc.f_duty(length, zz, cosmo)
    want = np.minimum(1, length / cosmo.age(zz).value)
    case.check(f.shape == (n,) and bool(np.all((f >= 0) & (f <= 1))), 'fraction', 'duty cycle outside 0-1')
    case.close(f, want, 'duty_cycle', 'duty cycle of %d redshifts' % n, rtol=2e-2 if n > 100 else 1e-9)
    z0 = float(zz[0])
    case.close(np.ravel(dc.f_duty(length, z0, cosmo)), want[:1], 'duty_cycle', 'duty cycle of one redshift', rtol=1e-9)
    case.observe('fractions', n)
    # within the table, SFRs and masses lie between the values around
    mm, zb = masses(rng, 200), rng.uniform(0, 8, 200)
    for kind in ('sfr', 'stellarmass'):
        v = getattr(b13, kind)(zb, mm, scatter=False)
        lo, hi = ref.behroozi_corners(kind, zb, mm)
        case.check(bool(np.all((v >= lo * 0.9999 - 1e-12) & (v <= hi * 1.0001 + 1e-12))), 'between', 'behroozi13 %s is not between the table values around' % kind)
        case.observe('between', 200)
    from simim import constants as k
    for name, B in (('co', ref.CO_FREQ), ('hcn', ref.HCN_FREQ), ('cs', ref.CS_FREQ)):
        for j, f in enumerate(B, 1):
            key = 'nu_%s%d%s%d' % (name, j, '' if j < 10 else 'to', j - 1)
            case.close(getattr(k, key), f * 1e9, 'frequency', key, rtol=2e-4)
    for j in range(1, 11):
        # 13CO: a rotor with B = 55.10101 GHz
        key = 'nu_co_iso13c_%d%s%d' % (j, '' if j < 10 else 'to', j - 1)
        case.close(getattr(k, key), (2 * 55.10101 * j - 4 * 1.7551e-4 * j ** 3) * 1e9, 'frequency', key, rtol=1e-4)
    for key, v in ref.CONST.items():
        case.close(getattr(k, key), v, 'constant', key, rtol=2e-4)
    case.nontrivial(line, m)


def helper(case):
    """log10normal itself."""
    from simim.galprops.log10normal import log10normal
    rng = case.rng
    dex = float(rng.choice([0, rng.uniform(0.01, 0.8)], p=[0.1, 0.9]))
    keep = bool(rng.integers(2))
    shape = [(), (1,), (5000,), (40, 100), (0,)][int(rng.integers(5))]
    x = 10 ** rng.uniform(-3, 10, shape)
    x0 = np.array(x)
    seed = int(rng.integers(1 << 40))
    got = np.asarray(log10normal(x, dex, preserve_linear_mean=keep, rng=np.random.default_rng(seed)))
    again = np.asarray(log10normal(x, dex, preserve_linear_mean=keep, rng=np.random.default_rng(seed)))
    case.check(np.asarray(x).tobytes() == x0.tobytes(), 'inputs_changed', 'log10normal changed what it was given')
    case.check(got.shape == shape, 'shape', 'log10normal gives shape %s for %s' % (got.shape, shape))
    case.check(got.tobytes() == again.tobytes(), 'reproducible', 'log10normal gives other values with the same generator')
    if dex == 0:
        case.close(got, x, 'scatter_mean', 'no scatter', rtol=1e-12)
    elif got.size > 1000:
        r = (np.log10(got / x).ravel() + (dex ** 2 * np.log(10) / 2 if keep else 0)) / dex
        case.check(abs(r.mean()) < 6.5 / np.sqrt(r.size), 'scatter_mean', 'log10normal is centered on %.3f sigma' % r.mean())
        case.check(abs(r.std() - 1) < 6.5 / np.sqrt(2 * r.size), 'scatter_width', 'log10normal is %.3f times too wide' % r.std())
        case.observe('scattered', r.size)
    case.nontrivial(dex, keep, shape)


SCENARIOS = [('values', values, 640, 40000), ('scatter', scatter, 240, 12000), ('smooth', smooth, 32, 600), ('helper', helper, 60, 4000),
             ('main_sequence', C30.parameters, 40, 800)]
MINIMUM = {'rates': 30000, 'values': 8000, 'singles': 700, 'scattered': 1000000, 'duty_objects': 100000, 'steps': 50000, 'fractions': 1000, 'empty': 3,
           'refusals_observed': 50}
