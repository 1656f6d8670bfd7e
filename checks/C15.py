"""C15: a statistic is evaluated once on exactly the values it asks for, and
leaves everything as it was."""
import copy

import numpy as np
import handlerlib as hl
import lclib as ll
import simlib as sl

PROPERTY = 'C15'
NEEDS_DATA = True
RULE = ('a case is a snapshot or light cone handler with a random selection and unit choice, and statistics whose function records '
        'what it is given: properties (remapped or not), quantities of the simulation, other arguments, failing functions, '
        'bins of redshift; compared with a model of the handler; told apart by the arguments asked for')
setup = ll.setup


def snap_handler(case):
    from simim.siminterface import SimHandler
    rng = case.rng
    s = sl.make_sim(case, n_snaps=int(rng.integers(1, 3)), n_halos=sl.some_halos(case, 25), labels='mixed')
    k = int(rng.integers(s.n_snaps))
    d = bool(rng.integers(2))
    h = SimHandler(sl.SIM, in_h_units=d).get_snap(s.labels[k])
    m = hl.Model(s.truth[k], s.fields, s.h, d)
    extra = {'h': s.h, 'redshift': float(s.snaps['redshift'][k]), 'box_edge_h': s.box, 'box_edge_no_h': s.box / s.h,
             'box_edge': s.box if d else s.box / s.h}
    return s, h, m, extra


def cone_handler(case, n=1):
    from simim.lightcone import LCHandler
    rng = case.rng
    s = ll.lc_sim(case, n_halos=(200, 2000))
    c = ll.cone_spec(case, s)
    c.mass = 0
    mk = ll.make_cone(s, c, 'lc')
    ll.build(case, s, mk, n)
    mk.add_properties('uid', *sorted(k for k in s.extra if k.startswith('prop')))
    attrs, got, _ = ll.read(ll.files(mk, n)[0])
    d = bool(rng.integers(2))
    h = LCHandler(s.name, 'lc', 0, in_h_units=d)
    # an image of the same halo can be there twice, so objects are told by their number
    fields = {k: s.fields.get(k, ('d', 'None', 0)) for k in got}
    m = hl.Model(got, fields, s.h, d)
    extra = {'h': s.h, 'shape': c.mode, 'open_angle': c.angle, 'aspect_ratio': c.aspect, 'maximum redshift': c.z1}
    return s, c, h, m, extra


class Recorder:
    def __init__(self, fail=False):
        self.calls, self.fail, self.result = [], fail, object()

    def __call__(self, **kw):
        self.calls.append({k: np.copy(v) if isinstance(v, np.ndarray) else v for k, v in kw.items()})
        for v in kw.values():  # what a function does with its arguments is its own business
            if isinstance(v, np.ndarray) and v.flags.writeable:
                v[...] = 0
        if self.fail:
            raise RuntimeError('boom')
        return self.result


def ask(case, m, extra):
    """A random request: (kwargs, remap, others, what the function should get by name)."""
    rng = case.rng
    pool = sorted(m.names()) + sorted(extra)
    kwargs, remap, source = [], {}, {}
    for i in range(int(rng.integers(0, 5))):
        target = pool[int(rng.integers(len(pool)))]
        if rng.random() < 0.6 or not target.isidentifier() or target in source:
            # under a name of its own, or one that stands for something else
            name = 'arg%d' % i
            other = pool[int(rng.integers(len(pool)))]
            if rng.random() < 0.5 and other.isidentifier() and other not in source:
                name = other
            remap[name] = target
        else:
            name = target
        kwargs.append(name)
        source[name] = target
    if rng.random() < 0.3:
        remap['unused'] = pool[0]
    others = {k: v for k, v in (('scale', 2.5), ('text', 'abc'), ('table', [1, 2])) if rng.random() < 0.4}
    return kwargs, remap, source, others


def judge_call(case, m, extra, call, source, others, use_all, in_h, what):
    case.check(set(call) == set(source) | set(others), 'argument_names',
               lambda: '%s: the function got arguments %s, expected %s' % (what, sorted(call), sorted(set(source) | set(others))))
    for name, target in source.items():
        if m.exists(target):
            case.close(np.asarray(call[name]), m.value(target, use_all, in_h), 'argument_values',
                       '%s: argument %s (property %s)' % (what, name, target), rtol=3e-6)
            case.observe('arguments')
        elif isinstance(extra[target], str):
            case.check(call[name] == extra[target], 'argument_extra', lambda: '%s: %s is %r' % (what, target, call[name]))
        else:
            case.close(np.asarray(call[name], float), np.asarray(extra[target], float), 'argument_extra',
                       '%s: argument %s (%s of the simulation)' % (what, name, target), rtol=1e-6)
            case.observe('quantities')
    for k, v in others.items():
        case.check(call[k] == v, 'argument_other', lambda: '%s: argument %s is %r, expected %r' % (what, k, call[k], v))


def like_metadata(case, h, m, extra):
    """A property of each object with the name of a quantity of the simulation."""
    from simim.galprops import Prop
    rng = case.rng
    name = str(rng.choice([k for k in sorted(extra) if k.isidentifier() and not isinstance(extra[k], str)]))
    vals, dep = rng.uniform(1, 2, m.n), int(rng.choice([0, -1, 2]))
    h.make_property(Prop(name, lambda mass: vals.copy(), ['mass'], function_return_in_h_units=True, h_dependence=dep))
    m.loaded[name] = (vals, 'None', dep)
    case.observe('properties_like_quantities')


def history(case, s, h, m, extra):
    rng = case.rng
    if rng.random() < 0.4 and m.n:
        like_metadata(case, h, m, extra)
    hist = hl.History(case, h, m, ops=['load', 'select', 'select', 'units', 'unload', 'make'])
    asked = []
    for step in range(int(rng.integers(3, 8))):
        hist.step()
        if 'box_edge' in extra:  # in the units of the handler
            extra['box_edge'] = s.box if m.default_h else s.box / s.h
        kwargs, remap, source, others = ask(case, m, extra)
        use_all = bool(rng.integers(2))
        in_h = [None, True, False][int(rng.integers(3))]
        kw = dict(kw_remap=remap, other_kws=others, use_all_inds=use_all, give_args_in_h_units=in_h)
        if not remap and rng.random() < 0.5:
            kw.pop('kw_remap')
        if not others and rng.random() < 0.5:
            kw.pop('other_kws')
        given = copy.deepcopy((kwargs, remap, others))
        what = 'statistic of %s (remap %s, others %s, all %s, little-h units %s)' % (kwargs, remap, sorted(others), use_all, in_h)
        case.note(what)
        r = Recorder(fail=rng.random() < 0.2)
        if r.fail:
            case.refuses('failure_hidden', what + ': the failure of the function was hidden', h.eval_stat, r, kwargs, **kw)
            case.observe('failing_functions')
        else:
            out = h.eval_stat(r, kwargs, **kw)
            case.check(out is r.result, 'result', what + ': the result is not what the function returned')
        case.check(len(r.calls) == 1, 'calls', lambda: '%s: the function was called %d times' % (what, len(r.calls)))
        judge_call(case, m, extra, r.calls[0], source, others, use_all, in_h, what)
        case.check(given == (kwargs, remap, others), 'caller_arguments', lambda: '%s: changed what the caller passed: %s' % (what, (kwargs, remap, others)))
        case.observe('statistics')
        asked.append((tuple(kwargs), use_all, in_h))
        if rng.random() < 0.2:
            case.refuses('unknown_argument', 'a statistic of an unknown quantity was evaluated', h.eval_stat, lambda nothing: 1, ['nothing'])
        hl.compare(case, h, m, 'after a statistic', everything=False)
    hl.compare(case, h, m, 'at the end')
    case.nontrivial(asked, s.h)


def snapshots(case):
    history(case, *snap_handler(case))


def cones(case):
    s, c, h, m, extra = cone_handler(case)
    if m.n == 0 or len(np.unique(m.entry('uid')[0])) < m.n:
        case.observe('set_aside')
        return
    history(case, s, h, m, extra)


def evolution(case):
    s, c, h, m, extra = cone_handler(case)
    rng = case.rng
    if m.n == 0:
        return
    if rng.random() < 0.7:
        lim = float(np.quantile(m.value('mass', True, True), rng.random())) * 1.001
        h.set_property_range('mass', pmin=lim, in_h_units=True)
        m.active = m.value('mass', True, True) >= lim
    edges = np.sort(rng.uniform(c.zmin, c.z1, int(rng.integers(2, 6))))
    if rng.random() < 0.4:
        z = m.value('redshift', True, True)
        edges[int(rng.integers(len(edges)))] = float(z[int(rng.integers(len(z)))])  # an object at the edge is part of the bin
        edges = np.clip(np.sort(edges), float(c.zmin), float(c.z1))
    order = rng.permutation(len(edges))
    kwargs, remap, source, others = ask(case, m, extra)
    in_h = [None, True, False][int(rng.integers(3))]
    use_h = m.default_h if in_h is None else in_h
    flags = {k: bool(rng.integers(2)) for k in ('zmin_kw', 'zmax_kw', 'volume_kw')}
    fail_at = int(rng.integers(1, len(edges))) if rng.random() < 0.3 else None
    given = copy.deepcopy((kwargs, remap, others))
    calls = []

    def f(**kw):
        calls.append({k: np.copy(v) if isinstance(v, np.ndarray) else v for k, v in kw.items()})
        if len(calls) == fail_at:
            raise RuntimeError('boom')
        return len(calls)
    kw = dict(kw_remap=remap, other_kws=others, give_args_in_h_units=in_h, **flags)
    if not others:
        kw.pop('other_kws')
    what = 'evolution of %s (remap %s, others %s, little-h units %s, %s) in %d bins' % (kwargs, remap, sorted(others), in_h, flags, len(edges) - 1)
    case.note(what)
    if fail_at:
        case.refuses('failure_hidden', what + ': the failure of the function was hidden', h.eval_stat_evo, edges[order], f, kwargs, **kw)
        case.observe('failing_functions')
        done = fail_at
    else:
        bins, vals = h.eval_stat_evo(edges[order], f, kwargs, **kw)
        case.close(np.asarray(bins, float), edges, 'evolution_bins', what + ': bins', rtol=1e-12)
        case.check(list(vals) == list(range(1, len(edges))), 'evolution_values', lambda: '%s: values %s' % (what, vals))
        done = len(edges) - 1
    case.check(len(calls) == done, 'calls', lambda: '%s: %d calls' % (what, len(calls)))
    full = m.active
    z = m.value('redshift', True, True)
    for i, call in enumerate(calls):
        m.active = (z >= edges[i]) & (z <= edges[i + 1])
        exp = dict(others)
        src = dict(source)
        for flag, name in (('zmin_kw', 'zmin'), ('zmax_kw', 'zmax'), ('volume_kw', 'volume')):
            if flags[flag]:
                exp[name] = {'zmin': edges[i], 'zmax': edges[i + 1]}.get(name)
        if 'volume' in exp:
            d1, d2 = (s.cosmo.comoving_distance(e).value if e > 0 else 0 for e in (edges[i], edges[i + 1]))
            sky = np.pi * (c.angle / 2) ** 2 if c.mode == 'circle' else c.angle ** 2 * c.aspect
            case.close(call.pop('volume', np.nan), sky * (d2 ** 3 - d1 ** 3) / 3 * (s.h ** 3 if use_h else 1), 'evolution_volume',
                       '%s: volume of bin %d' % (what, i), rtol=1e-5)
            exp.pop('volume')
        judge_call(case, m, extra, call, src, exp, False, in_h, '%s, bin %d' % (what, i))
        case.observe('bins')
    m.active = full
    case.check(given == (kwargs, remap, others), 'caller_arguments', lambda: '%s: changed what the caller passed: %s' % (what, (kwargs, remap, others)))
    hl.compare(case, h, m, 'after an evolution', everything=False)
    # the next one is not influenced by this one
    r = Recorder()
    h.eval_stat_evo(edges[:2], r, ['mass'])
    case.check(len(r.calls) == 1 and set(r.calls[0]) == {'mass'}, 'leftover_arguments', lambda: 'a later evolution got arguments %s' % [sorted(k) for k in r.calls])
    case.nontrivial(kwargs, len(edges), flags, s.h)


SCENARIOS = [('snapshots', snapshots, 80, 1200), ('cones', cones, 24, 300), ('evolution', evolution, 50, 600)]
MINIMUM = {'properties_like_quantities': 10, 'statistics': 250, 'arguments': 300, 'quantities': 80, 'failing_functions': 30, 'bins': 50}
