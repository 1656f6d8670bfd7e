"""C12: detectors and fields are what they were declared to be; refused requests change nothing."""
import numpy as np
import instlib as il

PROPERTY = 'C12'
NEEDS_DATA = False
RULE = ('a case is one random history of valid and invalid requests to add, remove and configure detectors and fields, with '
        'instrument defaults; after each the listing and the responses in force are compared with a model, and after a '
        'refused one also the usability of existing maps; non-trivial when a request was refused; told apart by history')
MINIMUM = {'requests': 1000, 'refused': 300, 'defaults_used': 200, 'single_detectors': 20, 'maps_survive': 50, 'parameters_left_out': 20}


def listing(inst):
    return (list(inst.detector_names), sorted(inst.detectors), list(inst.field_names), sorted(inst.fields))


def responses_in_force(case, inst, model, what):
    """What each detector does, by evaluating it."""
    x, y, f = np.array([-1., .2, 1.5]), np.array([-.7, .4]), np.array([97.3, 100.2, 102.7])
    case.check([str(n) for n in inst.detector_names] == list(model), 'listing', lambda: '%s: detectors %s, expected %s' % (what, inst.detector_names, list(model)))
    case.check(set(inst.detectors) == set(model), 'listing', '%s: detector table and names differ' % what)
    for n, d in model.items():
        o = inst.detectors[n]
        case.close(o.spatial_response(x, y, f, **o.spatial_kwargs), d['spatial'](x, y, f), 'response', '%s: spatial response of %s' % (what, n), rtol=1e-7)
        case.close(o.spectral_response(f, **o.spectral_kwargs), d['spectral'](f), 'response', '%s: spectral response of %s' % (what, n), rtol=1e-7)
        case.close(np.array(o.pointing_offsets, float), np.array(d['offset']), 'offset', '%s: pointing offset of %s' % (what, n), rtol=1e-13)
        case.close(o.noise_function(4, .5, **o.noise_kwargs), d['noise'](4, .5), 'response', '%s: noise of %s' % (what, n), rtol=1e-9)


def noise_ref(d):
    return lambda n, dt, lvl=d.noise.level, kw=dict(d.noise_kw): il.Noise.expected(lvl, n, dt, **kw)


def history(case):
    from simim.instrument import Instrument
    from simim.map.gridder import Grid
    rng = case.rng
    dd = il.Det(rng, 99)
    has = {k: bool(rng.random() < .7) for k in ('spatial', 'spectral', 'noise')}
    haskw = {k: bool(rng.random() < .7) for k in has}
    kw = {}
    if has['spatial']:
        kw.update(default_spatial_response=dd.spatial, default_spatial_kwargs=dict(dd.spatial_kw) if haskw['spatial'] else None)
    if has['spectral']:
        kw.update(default_spectral_response=dd.spectral, default_spectral_kwargs=dict(dd.spectral_kw) if haskw['spectral'] else None)
    if has['noise']:
        kw.update(default_noise_function=dd.noise, default_noise_kwargs=dict(dd.noise_kw) if haskw['noise'] else None)
    inst = Instrument(spatial_unit='rad', spectral_unit='Hz', flux_unit='Jy', best_spatial_res=5., best_spectral_res=5., **kw)
    for k in ('default_spatial_kwargs', 'default_spectral_kwargs', 'default_noise_kwargs'):
        if kw.get(k):
            for q in kw[k]:
                kw[k][q] = 55.      # the caller's dictionaries are its own
    default = {'spatial': dd.spatial_ref, 'spectral': dd.spectral_ref, 'noise': noise_ref(dd)}
    model, counter, fcounter, fields = {}, 0, 0, []
    ops = []
    ident = 0
    for step in range(int(rng.integers(5, 18))):
        r = rng.random()
        ident += 1
        refused = None
        before = listing(inst)
        if r < .4:
            d = il.Det(rng, ident)
            args = d.arguments()
            refs = {'spatial': d.spatial_ref, 'spectral': d.spectral_ref, 'noise': noise_ref(d)}
            refs['offset'] = d.offset or (0., 0.)
            bad = False
            for k, fn, kk in (('spatial', 'spatial_response', 'spatial_kwargs'), ('spectral', 'spectral_response', 'spectral_kwargs'), ('noise', 'noise_function', 'noise_kwargs')):
                q = rng.random()
                if q < .35:     # rely on the default
                    args.pop(fn)
                    args.pop(kk)
                    refs[k] = default[k]
                    bad |= not has[k] or not haskw[k]
                    case.observe('defaults_used')
                elif q < .45:   # default function, own parameters
                    if has[k]:
                        args.pop(fn)
                        args[kk] = dict({'spatial': dd.spatial_kw, 'spectral': dd.spectral_kw, 'noise': dd.noise_kw}[k])
                        refs[k] = default[k]
                        case.observe('defaults_used')
                elif q >= .9 and args[fn] in (il.asym, il.ramp, d.noise):     # own function, no parameters given
                    args.pop(kk)
                    refs[k] = {'spatial': il.asym, 'spectral': il.ramp, 'noise': lambda n, dt, lv=d.noise.level: il.Noise.expected(lv, n, dt)}[k]
                    case.observe('parameters_left_out')
                elif q < .49:
                    args[fn] = 'no such function' if rng.random() < .5 else 3.
                    bad = True
                elif q < .53:
                    args[kk] = [1, 2]
                    bad = True
            if rng.random() < .06:
                args['pointing_offsets'] = (1, 2, 3)
                bad = True
            name = None if rng.random() < .3 else 'd%d' % int(rng.integers(8))
            label = str(counter) if name is None else name
            bad |= label in model
            refused = bad
            op = 'add %s %s' % (label, 'bad' if bad else '')
            given = {k: v for k, v in args.items() if isinstance(v, dict)}

            def act():
                inst.add_detector(name=name, **args)
            if not bad:
                act()
                model[label] = refs
                counter += 1
                for v in given.values():
                    for q in v:
                        v[q] = 66.
        elif r < .5:
            names = [n for n in model if rng.random() < .4]
            bad = rng.random() < .4
            if bad:
                names = names + (['nobody'] if rng.random() < .5 or not names else [names[0]])
            refused = bad
            op = 'del %s' % names

            def act():
                inst.del_detectors(*names)
            if not bad:
                act()
                for n in names:
                    model.pop(n)
        elif r < .75:
            d = il.Det(rng, ident)
            k = ['spatial', 'spectral', 'noise'][int(rng.integers(3))]
            call = {'spatial': inst.set_spatial_respones, 'spectral': inst.set_spectral_respones, 'noise': inst.set_noise_functions}[k]
            fn = {'spatial': 'spatial_response', 'spectral': 'spectral_response', 'noise': 'noise_function'}[k]
            kk = {'spatial': 'spatial_kwargs', 'spectral': 'spectral_kwargs', 'noise': 'noise_kwargs'}[k]
            args = {fn: d.arguments()[fn], kk: d.arguments()[kk]}
            ref = {'spatial': d.spatial_ref, 'spectral': d.spectral_ref, 'noise': noise_ref(d)}[k]
            names = [n for n in model if rng.random() < .5]
            inst_too = rng.random() < .3
            hit = list(model) if not names and not inst_too else names
            bad = rng.random() < .4
            if bad:
                which = int(rng.integers(4))
                if which == 0:
                    args[fn] = 'no such function'
                elif which == 1:
                    args[kk] = 'not a dict'
                elif which == 2:
                    names = names + ['nobody']
                elif hit:
                    args[fn] = None
                else:
                    args[fn] = 7
            refused = bad
            names = names + (['instrument'] if inst_too else [])
            op = 'set %s %s %s' % (k, names, 'bad' if bad else '')

            def act():
                call(*names, **args)
            if not bad:
                act()
                for n in hit:
                    model[n][k] = ref
                if inst_too:
                    default[k] = ref
                    has[k] = haskw[k] = True
                    if k == 'spatial':
                        dd.spatial_kw = dict(d.spatial_kw)
                    elif k == 'spectral':
                        dd.spectral_kw = dict(d.spectral_kw)
                    else:
                        dd.noise_kw = dict(d.noise_kw)
                for q in args[kk]:
                    args[kk][q] = 66.
        elif r < .92:
            g = il.rand_field(rng, Grid, nprop=2)
            akw = {}
            bad = rng.random() < .5
            why = ''
            if bad:
                w = int(rng.integers(9))
                why = str(w)
                if w == 0:
                    akw['field_property_idx'] = 2
                elif w == 1:
                    g.fourier_transform(0)
                elif w == 2:
                    g.collapse_dimension(2)
                elif w == 3:
                    g.scale_axis(int(rng.integers(2)), 1., axunits='deg')
                elif w == 4:
                    g.scale_axis(2, 1., axunits='GHz')
                elif w == 5:
                    g.scale_axis(int(rng.integers(3)), 20.)
                elif w == 6:
                    g = g.copy_axes(2)
                elif w == 7:
                    g.gridunits = np.array([['mJy', 'mJy'], ['mJy', 'Jy'], ['Jy', 'mJy']][int(rng.integers(3))])
                    akw['field_property_idx'] = int(np.nonzero(g.gridunits == 'mJy')[0][-1])
                else:
                    akw['field_property_idx'] = -1
            elif rng.random() < .4:
                akw['field_property_idx'] = 1
            elif rng.random() < .3:
                # the unit of another property does not matter
                k = int(rng.integers(2))
                g.gridunits = np.array(['Jy', 'mJy'] if k == 0 else ['mJy', 'Jy'])
                akw['field_property_idx'] = k
            name = None if rng.random() < .4 else 'f%d' % int(rng.integers(6))
            label = str(fcounter) if name is None else name
            bad = bool(bad or label in fields)
            refused = bad
            op = 'field %s %s%s' % (label, 'bad' if bad else '', why)

            def act():
                inst.add_field(g, name=name, in_place=bool(rng.random() < .5), **akw)
            if not bad:
                act()
                fields.append(label)
                fcounter += 1
        else:
            names = [n for n in fields if rng.random() < .4]
            bad = rng.random() < .4
            if bad:
                names = names + ['nothing']
            refused = bad
            op = 'delfield %s' % names

            def act():
                inst.del_fields(*names)
            if not bad:
                act()
                for n in names:
                    fields.remove(n)
        case.note(op)
        ops.append(op.split()[0] + ('!' if refused else ''))
        case.observe('requests')
        if refused:
            mapped = None
            if model and fields and rng.random() < .5:
                inst.map_fields(kernel_size=2)
                pos = np.array([[0.1, 0.1], [1., -1.]])
                mapped = inst.sample_fields(pos, fields[0], sample_noise=False)
            case.refuses('accepts_invalid', 'accepted: ' + op, act)
            case.observe('refused')
            case.check(listing(inst) == before, 'refusal_changes', lambda: 'refused %s but went from %s to %s' % (op, before, listing(inst)))
            if mapped is not None:
                # what was usable stays usable
                got = inst.sample_fields(pos, fields[0], sample_noise=False)
                case.check(np.array_equal(got, mapped, equal_nan=True), 'refusal_changes', 'samples differ after a refused request')
                case.observe('maps_survive')
        responses_in_force(case, inst, model, 'after ' + op)
        case.check(list(inst.field_names) == fields and set(inst.fields) == set(fields), 'listing', lambda: 'fields %s, expected %s' % (inst.field_names, fields))
    if any('!' in o for o in ops):
        case.nontrivial(tuple(ops))
    case.sample(ops)


def single(case):
    """A Detector is an instrument with one detector."""
    from simim.instrument import Detector, Instrument
    from simim.map.gridder import Grid
    rng = case.rng
    d = il.Det(rng, 0)
    A = d.arguments()
    one = Detector(spatial_unit='rad', spectral_unit='Hz', flux_unit='Jy', **A)
    many = Instrument(spatial_unit='rad', spectral_unit='Hz', flux_unit='Jy')
    many.add_detector(**A)
    g = il.rand_field(rng, Grid)
    pos = rng.uniform(-3, 3, size=(20, 2))
    out = []
    for i in (one, many):
        i.add_field(g)
        i.map_fields(kernel_size=3)
        out.append(i.sample_fields(pos, dt=.1))
    case.check(out[0].shape == (20, 1) and np.array_equal(out[0], out[1], equal_nan=True), 'single', 'a Detector differs from an Instrument with one detector')
    for what, kw in (('spatial', {'spatial_unit': 'parsec'}), ('spectral', {'spectral_unit': 'eV'}), ('flux', {'flux_unit': 'cows'}), ('frame', {'pointing_offset_frame': 'galactic'})):
        case.refuses('accepts_invalid', 'unknown %s accepted' % what, Instrument, **kw)
    case.observe('single_detectors')
    case.nontrivial('single', str(d.spatial), str(d.spectral), d.offset)


SCENARIOS = [('history', history, 300, 6000), ('single', single, 40, 400)]
