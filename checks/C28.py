"""C28: the function of a property is evaluated on exactly what it asks for, and
what it returns is recorded as declared."""
import handlerlib as hl
import lclib as ll
import numpy as np
import simlib as sl

PROPERTY = 'C28'
NEEDS_DATA = True
RULE = ('a case is a snapshot, light cone or sphere in a random state (units, selection, generated properties), and a random property: any subset '
        'of its properties and metadata as arguments, remapped or not, additional arguments, 1-4 outputs in any container, any h dependence; '
        'the function records what it is given and tampers with it; or a predefined property; told apart by signature, state and target')
setup = ll.setup


class Target:
    """A handler, a model of its properties, and its metadata."""


def snapshot(case, lone=False):
    from simim.siminterface import SimHandler
    rng = case.rng
    n = int(rng.integers(1, 4)) if lone else 4 + sl.some_halos(case, 56)
    s = sl.make_sim(case, n_snaps=int(rng.integers(1, 4)), n_halos=n, labels='mixed')
    k = int(rng.integers(s.n_snaps))
    t = Target()
    t.kind, t.name = 'snapshot', 'snapshot %d' % k
    t.in_h = bool(rng.integers(2))
    sim = SimHandler(sl.SIM)
    t.handler = sim.get_snap(s.labels[k])
    t.handler.set_in_h_units(t.in_h)
    t.model = hl.Model(s.truth[k], s.fields, s.h, t.in_h)
    t.path, t.group = s.path + '/data.hdf5', 'Snapshot %d' % s.labels[k]
    t.extra = {'h': s.h, 'redshift': float(s.snaps['redshift'][k]), 'box_edge_h': s.box, 'box_edge_no_h': s.box / s.h,
               'box_edge': s.box if t.in_h else s.box / s.h}
    t.s = s
    return t


def lightcone(case):
    from simim.lightcone import LCHandler
    rng = case.rng
    t = Target()
    if rng.random() < 0.3:
        s = ll.sphere_sim(case, n_halos=(100, 800))
        c = ll.sphere_spec(case, s)
        mk = ll.make_sphere(s, c, 'lc')
    else:
        s = ll.lc_sim(case, n_halos=(100, 1200))
        c = ll.cone_spec(case, s)
        mk = ll.make_cone(s, c, 'lc')
    ll.build(case, s, mk, 1)
    t.in_h = bool(rng.integers(2))
    t.handler = LCHandler(s.name, 'lc', 0, in_h_units=t.in_h)
    t.path, t.group = ll.files(mk, 1)[0], 'Lightcone Full'
    state = hl.file_state(t.path, t.group)
    t.model = hl.Model({k: v[0] for k, v in state.items()}, {k: (None, v[1], v[2]) for k, v in state.items()}, s.h, t.in_h)
    t.kind, t.name = 'light cone', repr(c)
    a = t.handler.metadata
    t.extra = {'h': s.h, 'minimum redshift': c.zmin, 'maximum redshift': c.z1}
    t.s = s
    return t


def target(case, what):
    t = {'snapshot': snapshot, 'lone': lambda c: snapshot(c, True), 'lc': lightcone}[what](case)
    ops = ['select', 'select', 'load', 'units'] + (['make'] if 'uid' in t.model.saved else [])
    hist = hl.History(case, t.handler, t.model, ops=ops)
    for _ in range(int(case.rng.integers(0, 5))):
        hist.step()
    if 'box_edge' in t.extra:
        t.extra['box_edge'] = t.extra['box_edge_h'] if t.model.default_h else t.extra['box_edge_no_h']
    if t.model.n and case.rng.random() < 0.4:
        # a property of each object with the name of one of the metadata
        case.observe('properties_like_metadata')
        like_metadata(case, t)
    t.trace = hist.trace
    return t


def like_metadata(case, t):
    from simim.galprops import Prop
    rng = case.rng
    name = str(rng.choice([k for k in sorted(t.extra) if k.isidentifier()]))
    vals, dep = rng.uniform(1, 2, t.model.n), int(rng.choice([0, -1, 2]))
    t.handler.make_property(Prop(name, lambda mass: vals.copy(), ['mass'], function_return_in_h_units=True, h_dependence=dep), use_all_inds=True)
    t.model.loaded[name] = (vals, 'None', dep)
    t.extra.pop(name)


def snapshot_of(t):
    """All values the handler has, without going through the check under way."""
    return {n: np.array(t.handler.return_property(n, use_all_inds=True, in_h_units=True)) for n in sorted(t.model.names())}


def tamper(args):
    for v in args.values():
        if isinstance(v, np.ndarray) and v.ndim and v.flags.writeable:
            v[...] = 0


def protocol(what):
    def scenario(case):
        from simim.galprops import MultiProp, Prop
        rng = case.rng
        t = target(case, what)
        m = t.model
        for round_ in range(3):
            n_args = int(rng.integers(1, 4))
            pool = sorted(m.names())
            if n_args > len(pool):
                n_args = len(pool)
            sources = [pool[int(i)] for i in rng.permutation(len(pool))[:n_args]]
            extras = [k for k in sorted(t.extra) if rng.random() < 0.35]
            cosmo = rng.random() < 0.3
            kwargs, remap, source = [], {}, {}
            for i, sname in enumerate(sources + extras + (['cosmo'] if cosmo else [])):
                ident = sname.isidentifier()
                if ident and rng.random() < 0.5 and sname not in kwargs:
                    k = sname
                else:
                    k = 'arg%d' % i
                    if rng.random() < 0.3:
                        # the name of another property, which is not the one asked for
                        other = [p for p in pool if p not in sources and p.isidentifier() and p not in kwargs]
                        if other:
                            k = other[int(rng.integers(len(other)))]
                    remap[k] = sname
                kwargs.append(k)
                source[k] = sname
            remap_extra = dict(remap)
            if rng.random() < 0.3:
                remap_extra['not_an_argument'] = 'nothing'
            give_h = bool(rng.integers(2))
            return_h = bool(rng.integers(2))
            n_out = int(rng.integers(1, 5))
            single = n_out == 1 and rng.random() < 0.7
            hdeps = [[0, 0, -1, 1, 2, -3, 1.5][int(rng.integers(7))] for _ in range(n_out)]
            if n_out > 1 and rng.random() < 0.3:
                hdeps = [hdeps[0]] * n_out
            units = ['unit%d' % int(rng.integers(9)) for _ in range(n_out)]
            if n_out > 1 and rng.random() < 0.3:
                units = [units[0]] * n_out
            names = ['out%d_%d' % (round_, i) for i in range(n_out)]
            container = ['list', 'tuple', 'array', 'kept list', 'int array'][int(rng.integers(5))]
            tampers = rng.random() < 0.5
            coef = rng.uniform(0.5, 2, size=(n_out, n_args))
            shift = float(rng.normal())
            kw = {} if rng.random() < 0.5 else {'shift': shift}
            calls, kept = [], []

            def pure(args, shift=0.0):
                vals = [np.asarray(args[k], float) for k in kwargs[:n_args]]
                add = sum(float(args[k]) for k in kwargs[n_args:] if k in args and source[k] != 'cosmo')
                outs = []
                for i in range(n_out):
                    with np.errstate(invalid='ignore', over='ignore'):
                        o = sum(c * np.arctan(v) for c, v in zip(coef[i], vals)) + add + shift
                        if container == 'int array':
                            o = np.where(np.isfinite(o), np.round(o * 3), 0).astype('i8')
                    outs.append(o)
                return outs

            def func(**given):
                shift = given.pop('shift', 0.0)
                calls.append(({k: np.array(v) if not k == ckey else v for k, v in given.items()}, shift))
                outs = pure({k: v for k, v in given.items()}, shift)
                if tampers:
                    tamper(given)
                if single:
                    return outs[0]
                if container == 'tuple':
                    return tuple(outs)
                if container in ('array', 'int array'):
                    return np.array(outs)
                if container == 'kept list':
                    kept[:] = outs
                    return kept
                return outs
            ckey = kwargs[-1] if cosmo else None

            if single:
                p = Prop(names[0], func, list(kwargs), give_args_in_h_units=give_h, function_return_in_h_units=return_h,
                         units=units[0], h_dependence=hdeps[0])
            else:
                u = [units[0]] if len(set(units)) == 1 and rng.random() < 0.5 else list(units)
                d = [hdeps[0]] if len(set(hdeps)) == 1 and rng.random() < 0.5 else list(hdeps)
                p = MultiProp(list(names), func, list(kwargs), give_args_in_h_units=give_h, function_return_in_h_units=return_h,
                              units=u, h_dependence=d, wrap=False)
            use_all = bool(rng.integers(2))
            mode = ['evaluate', 'evaluate_all', 'make'][int(rng.integers(3))]
            before = snapshot_of(t)
            given_remap, given_kw = dict(remap_extra), dict(kw)
            case.note('%s of f(%s) remap=%s use_all=%s give_h=%s return_h=%s hdeps=%s container=%s on %s'
                      % (mode, kwargs, remap, use_all, give_h, return_h, hdeps, container, t.name))
            rename = None
            if mode == 'make' and rng.random() < 0.4:
                rename = ['ren%d_%d' % (round_, i) for i in range(n_out)]
                if n_out == 1 and rng.random() < 0.5:
                    rename = rename[0]
            with case.quiet():
                if mode == 'make':
                    t.handler.make_property(p, rename=rename, kw_remap=given_remap, other_kws=given_kw, use_all_inds=use_all)
                    got = None
                else:
                    req = hl.defaults_left_out(rng, dict(use_all_inds=use_all, kw_remap=given_remap, kw_arguments=given_kw),
                                               use_all_inds=False, kw_remap={}, kw_arguments={})
                    got = getattr(p, mode)(t.handler, **req)
            case.check(given_remap == remap_extra and given_kw == kw, 'caller_objects', 'the dictionaries given to %s were changed' % mode)
            case.check(len(calls) == 1, 'calls', 'the function was called %d times' % len(calls))
            args, shift_given = calls[0]
            want_args = {}
            for k in kwargs:
                sname = source[k]
                if sname == 'cosmo':
                    continue
                want_args[k] = m.value(sname, use_all, give_h) if sname in m.names() else t.extra[sname]
            case.check(set(args) == set(kwargs), 'arguments', lambda: 'the function was given %s, it asks for %s' % (sorted(args), sorted(kwargs)))
            for k, w in want_args.items():
                case.close(args[k], w, 'argument_values', 'argument %s (%s) of %s' % (k, source[k], mode), rtol=3e-6)
                case.observe('argument_values', np.size(w))
            if cosmo:
                co = args[ckey]
                case.check(abs(co.h - t.s.h) < 1e-6 and abs(co.Om0 - t.s.om) < 1e-6, 'cosmology', 'the cosmology given is another')
            case.check(shift_given == kw.get('shift', 0.0), 'additional', 'the additional argument was lost')
            # what came out
            ref = pure(dict(args), kw.get('shift', 0.0))
            if not return_h:
                ref = [o / t.s.h ** d if d else o for o, d in zip(ref, hdeps)]
            if got is not None:
                if single and mode == 'evaluate':
                    got = [got]
                case.check(len(got) == n_out, 'outputs', '%d outputs, expected %d' % (len(got), n_out))
                for i in range(n_out):
                    case.close(got[i], ref[i], 'output_values', '%s, output %d' % (mode, i), rtol=1e-9)
                    case.observe('output_values', np.size(ref[i]))
            else:
                fin = names if rename is None else ([rename] if isinstance(rename, str) else rename)
                for i, n in enumerate(fin):
                    v = np.asarray(ref[i])
                    if not use_all and not m.active.all():
                        full = np.full(m.n, np.nan, dtype=np.result_type(v.dtype, np.float16))
                        full[m.active] = v
                        v = full
                    m.generated.add(n)
                    m.loaded[n] = (v, units[i], hdeps[i])
                    case.close(t.handler.return_property(n, use_all_inds=True, in_h_units=True), v, 'output_values', 'made property %s' % n, rtol=1e-6)
                    case.observe('output_values', np.size(v))
                if rename is not None:
                    case.check(not any(t.handler.has_property(n) for n in names), 'renamed', 'a renamed property is also there under its old name')
                if rng.random() < .4:
                    # the units and powers of h declared are the ones on disk
                    t.handler.write_property(*fin, overwrite=bool(rng.integers(2)) or any(n in m.saved for n in fin))
                    state = hl.file_state(t.path, t.group)
                    for i, n in enumerate(fin):
                        m.saved[n] = m.loaded[n]
                        case.check(n in state, 'written', lambda: 'property %s was written and is not in the file' % n)
                        case.check(state[n][1:] == (units[i], hdeps[i]), 'declared',
                                   lambda: 'property %s declared with %r is recorded with %r' % (n, (units[i], hdeps[i]), state[n][1:]))
                        case.close(state[n][0], m.loaded[n][0], 'output_values', 'written property %s' % n, rtol=1e-6)
                        case.observe('declarations_on_disk')
                hl.compare(case, t.handler, m, 'after make_property', everything=False)
            if container == 'kept list' and not single:
                for i in range(n_out):
                    w = pure(dict(args), kw.get('shift', 0.0))[i]
                    case.close(kept[i], w, 'returned_object', 'the list the function returned was changed')
            after = snapshot_of(t)
            for n in before:
                case.check(before[n].tobytes() == after[n].tobytes(), 'side_effect', lambda: 'evaluating changed property %s' % n)
            case.observe('evaluations')
            if tampers:
                case.observe('tampering_functions')
            if remap:
                case.observe('remapped')
            if not m.active.all() and not use_all:
                case.observe('partial')
            # refusals
            r = rng.random()
            if r < 0.25:
                q = Prop('bad', lambda **k: np.zeros(m.n), ['nothing_like_it'])
                case.refuses('missing', 'a property of something the handler does not have was evaluated', q.evaluate, t.handler)
                case.refuses('missing', 'a property of something the handler does not have was made', t.handler.make_property, q)
            elif r < 0.4:
                q = Prop('bad', lambda **k: np.zeros(m.n), [sources[0]] if sources[0].isidentifier() else ['mass'])
                case.refuses('missing', 'an argument remapped to nothing was evaluated', q.evaluate, t.handler, False,
                             {q.kwargs[0]: 'nothing_like_it'})
            elif r < 0.55:
                extra = int(rng.choice([1, 3]))
                q = MultiProp(['bad1', 'bad2'], lambda mass=None: [np.zeros(np.size(mass))] * extra, ['mass'], wrap=False)
                case.refuses('output_number', 'two properties were taken from %d outputs' % extra, q.evaluate_all, t.handler)
                case.refuses('output_number', 'two properties were made from %d outputs' % extra, t.handler.make_property, q)
            elif r < 0.62:
                case.refuses('same_names', 'two properties of one name were declared', MultiProp, ['a', 'b', 'a'], func, ['mass'])
                q = MultiProp(['bad1', 'bad2'], lambda mass: [1. * mass, 2. * mass], ['mass'], wrap=False)
                case.refuses('same_names', 'two properties were made under one name', t.handler.make_property, q, rename=['bad', 'bad'])
            elif r < 0.75:
                case.refuses('declaration', 'two units for three properties', MultiProp, ['a', 'b', 'c'], func, ['mass'], units=['u', 'v'], h_dependence=[0])
                case.refuses('declaration', 'four units for three properties', MultiProp, ['a', 'b', 'c'], func, ['mass'], units=['u'] * 4, h_dependence=[0])
                case.refuses('declaration', 'four h dependences for three properties', MultiProp, ['a', 'b', 'c'], func, ['mass'], units=['u'], h_dependence=[0] * 4)
                case.refuses('declaration', 'two h dependences for three properties', MultiProp, ['a', 'b', 'c'], func, ['mass'], units=['u'], h_dependence=[0, 1])
            hl.compare(case, t.handler, m, 'in the end', everything=False)
            case.nontrivial(kwargs, sorted(remap.items()), hdeps, container, mode, use_all, give_h, return_h, m.active.tobytes())
        case.sample('%s after %s' % (t.kind, t.trace))
    return scenario


def builtins_(what):
    """Predefined properties on a handler are their functions of what it holds."""
    def scenario(case):
        import simim.galprops as gp
        from simim.galprops import MultiProp, Prop
        rng = case.rng
        t = target(case, what)
        m = t.model
        sfr = 10 ** rng.uniform(-2, 3, m.n)
        if rng.random() < 0.3:
            sfr[rng.random(m.n) < 0.3] = 0
        with case.quiet():
            t.handler.make_property(Prop('sfr', lambda mass: sfr, ['mass'], units='Msun/yr'), use_all_inds=True)
        m.generated.add('sfr')
        m.loaded['sfr'] = (sfr, 'Msun/yr', 0)
        found = sorted(k for k in dir(gp) if isinstance(getattr(gp, k), MultiProp))
        gone = sorted(k for k in PREDEFINED if 'prop_' + k not in found)
        case.check(not gone, 'predefined', lambda: 'there are no predefined properties %s' % gone)

        def relation(name):
            if name[5:] not in PREDEFINED:
                return getattr(gp, name).prop_function
            import importlib
            module, function = PREDEFINED[name[5:]].split('.')
            return getattr(importlib.import_module('simim.galprops.' + module), function)
        for pname in [found[int(i)] for i in rng.permutation(len(found))[:6]]:
            p = getattr(gp, pname)
            use_all = bool(rng.integers(2))
            seed = int(rng.integers(1 << 30))
            args = {}
            for k in p.kwargs:
                if k == 'cosmo':
                    args[k] = t.s.cosmo
                elif k in m.names():
                    args[k] = m.value(k, use_all, False)
                else:
                    args[k] = t.extra[k]
            case.note('%s on %s, all=%s' % (pname, t.name, use_all))
            with case.quiet():
                want = relation(pname)(**args, rng=np.random.default_rng(seed))
            if isinstance(p, Prop):
                want = [want]
            fin = ['%s_%d' % (pname, i) for i in range(p.n_props)]
            try:
                with case.quiet():
                    t.handler.make_property(p, rename=fin, other_kws={'rng': np.random.default_rng(seed)}, use_all_inds=use_all, overwrite=True)
            except Exception as e:
                case.fail('predefined_fails', '%s cannot be made on a %s: %r' % (pname, t.kind, e))
                raise
            for i, n in enumerate(fin):
                v = np.asarray(want[i])
                case.check(v.shape == (int(m.active.sum()) if not use_all else m.n,), 'predefined_shape', '%s gives shape %s' % (pname, v.shape))
                fullv = v
                if not use_all and not m.active.all():
                    fullv = np.full(m.n, np.nan)
                    fullv[m.active] = v
                got = t.handler.return_property(n, use_all_inds=True, in_h_units=True)
                case.close(got, fullv, 'predefined_values', '%s on a %s' % (n, t.kind), rtol=2e-4)
                m.generated.add(n)
                m.loaded[n] = (np.array(got), p.units[p.names[i]], p.h_dependence[p.names[i]])
                case.check(p.units[p.names[i]] in ('Lsun', 'Msun/yr', 'Msun') and p.h_dependence[p.names[i]] == 0, 'predefined_units',
                           '%s has unit %s, h^%s' % (pname, p.units[p.names[i]], p.h_dependence[p.names[i]]))
                case.observe('output_values', np.size(v))
            case.observe('predefined')
            case.nontrivial(pname, m.active.tobytes(), use_all)
        hl.compare(case, t.handler, m, 'with predefined properties', everything=False)
    return scenario


# the relation each is named after
PREDEFINED = {
    'co_sled': 'line_co.kamenetzky16', 'li_co': 'line_co.li16', 'lidz_co': 'line_co.lidz11', 'pullen_co': 'line_co.pullen13',
    'keating_co': 'line_co.keating16', 'gao_hcn': 'line_densegas.hcn_gao', 'breysse_hcn': 'line_densegas.hcn_breysse',
    'delooze_fir': 'line_fir.delooze14', 'uzgil_fir': 'line_fir.uzgil14', 'spinoglio_fir': 'line_fir.spinoglio12',
    'delooze_cii': 'line_fir.delooze14', 'uzgil_cii': 'line_fir.uzgil14', 'spinoglio_cii': 'line_fir.spinoglio12',
    'schaerer_cii': 'line_fir.schaerer20', 'yang_cii': 'line_fir_yang.yang22', 'padmanabhan_cii': 'line_fir.padmanabhan19',
    'zhao_nii': 'line_fir.zhao13', 'behroozi_sfr': 'sfr_behroozi13.sfr', 'behroozi_mass': 'sfr_behroozi13.stellarmass'}
SCENARIOS = [('snapshot', protocol('snapshot'), 300, 4000), ('small', protocol('lone'), 80, 1000), ('lightcone', protocol('lc'), 60, 800),
             ('predefined', builtins_('snapshot'), 60, 800), ('predefined_lc', builtins_('lc'), 20, 300)]
MINIMUM = {'properties_like_metadata': 10, 'evaluations': 800, 'argument_values': 20000, 'output_values': 20000, 'tampering_functions': 100, 'remapped': 200, 'partial': 30,
           'predefined': 200, 'refusals_observed': 50}
