"""C14: the active objects are exactly those that satisfy every condition of the
selection, and everything a handler does with "active" objects uses just those."""
import numpy as np
import handlerlib as hl
import simlib as sl

PROPERTY = 'C14'
NEEDS_DATA = True
RULE = ('a case is one random synthetic simulation (repeated, NaN and infinite values included) and a history of selections '
        'on the handler of one snapshot or on all snapshots together; the active objects seen through every route are compared '
        'with a one-object-at-a-time evaluation of the conditions; non-trivial when a selection kept some objects and dropped '
        'others; told apart by the history of active counts')


def odd_sim(case, n_snaps):
    """A simulation whose extra properties have ties, NaN, infinities."""
    rng = case.rng
    fields = {'tie': ('d', 'None', 0), 'nan': ('d', 'Mpc/h', -1), 'flag': ('i', 'None', 0), 'sq': ('f', 'x', 2)}
    raws = []
    for _ in range(n_snaps):
        n = sl.some_halos(case, 16)
        raw = sl.random_halos(rng, n, 50.0, {})
        raw['tie'] = rng.integers(-2, 3, n).astype('d')
        v = rng.normal(size=n)
        v[rng.random(n) < 0.2] = np.nan
        v[rng.random(n) < 0.1] = np.inf
        v[rng.random(n) < 0.1] = -np.inf
        raw['nan'] = v
        raw['flag'] = rng.integers(0, 3, n).astype('i')
        raw['sq'] = rng.normal(size=n).astype('f')
        raws.append(raw)
    return sl.make_sim(case, n_snaps=n_snaps, box=50.0, fields=fields, halos=raws, labels='mixed')


def condition(model, name, lo, hi, in_h):
    """One object at a time."""
    vals = model.value(name, True, in_h)
    return np.array([bool(v >= lo and v <= hi) for v in vals.tolist()], bool)


def limits(rng, model, name, in_h):
    vals = np.asarray(model.value(name, True, in_h), float)
    fin = np.unique(vals[np.isfinite(vals)])
    exact = model.entry(name)[2] == 0 or (in_h if in_h is not None else model.default_h)
    cand = [-np.inf, np.inf]
    if len(fin):
        scale = np.abs(fin).max() or 1.0
        cand += [fin[0] - 0.01 * scale, fin[-1] + 0.01 * scale]
        mids = [(a + b) / 2 for a, b in zip(fin[:-1], fin[1:]) if b - a > 1e-5 * scale]
        cand += mids * 3
        if exact:
            cand += fin.tolist() * 2
    return float(cand[int(rng.integers(len(cand)))]), float(cand[int(rng.integers(len(cand)))])


def look(case, h, m, what):
    act = m.active
    case.check(h.nhalos_active == int(act.sum()), 'active_count', lambda: '%s: %d active, expected %d' % (what, h.nhalos_active, act.sum()))
    for name in sorted(m.names()):
        for in_h in (True, False):
            case.close(h.return_property(name, in_h_units=in_h), m.value(name, False, in_h), 'active_values',
                       '%s: active values of %s (little-h units %s)' % (what, name, in_h), rtol=3e-6)
            case.close(h.return_property(name, use_all_inds=True, in_h_units=in_h), m.value(name, True, in_h), 'all_values',
                       '%s: all values of %s (little-h units %s)' % (what, name, in_h), rtol=3e-6)
            case.observe('values_compared', 2 * m.n)
    got = h.eval_stat(lambda u: list(u), ['u'], kw_remap={'u': 'uid'})
    case.check(got == m.value('uid', False, None).tolist(), 'stat_objects',
               lambda: '%s: a statistic was given objects %s, expected %s' % (what, got, m.value('uid', False, None).tolist()))


def selections(case):
    from simim.galprops import Prop
    from simim.siminterface import SimHandler
    rng = case.rng
    s = odd_sim(case, 1)
    d = bool(rng.integers(2))
    h = SimHandler(sl.SIM, in_h_units=d).get_snap(s.labels[0])
    m = hl.Model(s.truth[0], s.fields, s.h, d)
    counts = []
    for i in range(int(rng.integers(3, 9))):
        r = rng.random()
        if r < 0.1:
            h.set_property_range()
            m.active[:] = True
            what = 'reset'
        elif r < 0.2:
            before = m.active.copy()
            case.refuses('bad_select', 'selected by an unknown property', h.set_property_range, 'nothing', 0, 1)
            m.active = before
            what = 'refused'
        elif r < 0.35 and m.active.any():
            # values only for the active objects; NaN elsewhere never satisfies a condition
            tab = dict(zip(m.entry('uid')[0].tolist(), rng.normal(size=m.n).tolist()))
            name = 'made%d' % i
            h.make_property(Prop(name, lambda uid: np.array([tab[int(u)] for u in uid]), ['uid']))
            v = np.array([tab[int(u)] for u in m.entry('uid')[0]])
            v[~m.active] = np.nan
            m.loaded[name] = (v, 'None', 0)
            what = 'make'
        elif r < 0.45:
            b = bool(rng.integers(2))
            h.set_in_h_units(b)
            m.default_h = b
            what = 'units'
        else:
            name = sorted(m.names())[int(rng.integers(len(m.names())))]
            if rng.random() < 0.4:
                name = ['tie', 'nan', 'flag', 'sq'][int(rng.integers(4))]
            in_h = [None, True, False][int(rng.integers(3))]
            lo, hi = limits(rng, m, name, in_h)
            reset = bool(rng.random() < 0.5)
            if rng.random() < 0.3:
                h.set_property_range(name, lo, reset=reset, in_h_units=in_h)
                hi = np.inf
            elif rng.random() < 0.3:
                h.set_property_range(name, pmax=hi, reset=reset, in_h_units=in_h)
                lo = -np.inf
            else:
                h.set_property_range(name, lo, hi, reset, in_h)
            ok = condition(m, name, lo, hi, in_h)
            m.active = ok if reset else ok & m.active
            what = 'select %s in [%r,%r] reset=%s in_h=%s' % (name, lo, hi, reset, in_h)
            case.observe('selections')
            if lo in (m.value(name, True, in_h).tolist()) or hi in m.value(name, True, in_h).tolist():
                case.observe('limits_at_a_value')
            if not reset:
                case.observe('narrowing')
            if 0 < m.active.sum() < m.n:
                case.observe('proper_subsets')
        case.note(what + ' -> %d of %d' % (m.active.sum(), m.n))
        counts.append(int(m.active.sum()))
        look(case, h, m, what)
    if any(0 < c < m.n for c in counts):
        case.nontrivial(counts, m.n)
    case.sample('; '.join(case.log))


def all_snapshots(case):
    """SimHandler.set_property_range applies the condition to every snapshot."""
    from simim.siminterface import SimHandler
    rng = case.rng
    s = odd_sim(case, int(rng.integers(2, 4)))
    d = bool(rng.integers(2))
    sim = SimHandler(sl.SIM, init_snaps=True, in_h_units=d)
    ms = [hl.Model(s.truth[k], s.fields, s.h, d) for k in range(s.n_snaps)]
    for i in range(int(rng.integers(2, 6))):
        r = rng.random()
        if r < 0.15:
            sim.set_property_range()
            for m in ms:
                m.active[:] = True
            what = 'reset'
        elif r < 0.3:
            b = bool(rng.integers(2))
            sim.set_in_h_units(b)
            for m in ms:
                m.default_h = b
            what = 'units %s' % b
        else:
            k = int(rng.integers(s.n_snaps))
            name = sorted(ms[k].names())[int(rng.integers(len(ms[k].names())))]
            in_h = [None, True, False][int(rng.integers(3))]
            lo, hi = limits(rng, ms[k], name, in_h)
            reset = bool(rng.random() < 0.5)
            sim.set_property_range(name, lo, hi, reset, in_h)
            for m in ms:
                ok = condition(m, name, lo, hi, in_h)
                m.active = ok if reset else ok & m.active
            what = 'select %s in [%r,%r] reset=%s in_h=%s' % (name, lo, hi, reset, in_h)
            case.observe('global_selections')
        case.note(what)
        for j, m in enumerate(ms):
            look(case, sim.get_snap(s.labels[j]), m, '%s, snapshot %d' % (what, j))
    case.nontrivial([int(m.active.sum()) for m in ms], s.h)
    # without persistent snapshots there is nothing a selection could apply to
    lazy = SimHandler(sl.SIM)
    case.refuses('lazy_selection', 'a selection was accepted that cannot have any effect', lazy.set_property_range, 'mass', 0, 1)


SCENARIOS = [('selections', selections, 90, 2500), ('all_snapshots', all_snapshots, 20, 500)]
MINIMUM = {'selections': 150, 'limits_at_a_value': 30, 'narrowing': 60, 'proper_subsets': 50, 'global_selections': 20,
           'values_compared': 20000}
