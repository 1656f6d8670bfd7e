"""A model of one catalogue handler (a snapshot or a lightcone seen through the
package) and random histories of operations judged against it."""
import h5py
import numpy as np


class Model:
    """saved / loaded: name -> (values in stored units, unit, h dependence)."""

    def __init__(self, truth, fields, h, default_h):
        self.h = h
        self.default_h = default_h
        self.n = len(truth['mass'])
        self.saved = {k: (np.array(v), fields[k][1], fields[k][2]) for k, v in truth.items()}
        self.loaded = {}
        self.given = set(self.saved)        # what the file held to begin with
        self.generated = set()              # what was made since
        self.active = np.ones(self.n, bool)

    def exists(self, name):
        return name in self.saved or name in self.loaded

    def names(self):
        return set(self.saved) | set(self.loaded)

    def entry(self, name):
        return self.loaded[name] if name in self.loaded else self.saved[name]

    def value(self, name, everything, in_h):
        v, unit, hdep = self.entry(name)
        if in_h is None:
            in_h = self.default_h
        v = v if everything else v[self.active]
        if not in_h and hdep != 0:
            v = v * self.h ** hdep
        return v


def tiny(model, *names):
    return [n for n in model.saved if n not in ('mass', 'uid', 'pos_x', 'pos_y', 'pos_z', 'redshift', 'ra', 'dec')]


def compare(case, handler, model, what, everything=True):
    """Everything a user can see of the handler agrees with the model."""
    case.check(set(handler.extract_keys()) == model.names(), 'listing',
               lambda: '%s: listed properties %s, expected %s' % (what, sorted(handler.extract_keys()), sorted(model.names())))
    case.check(set(handler.extract_keys('saved')) == set(model.saved), 'listing_saved',
               lambda: '%s: saved properties %s, expected %s' % (what, sorted(handler.extract_keys('saved')), sorted(model.saved)))
    case.check(set(handler.extract_keys('loaded')) == set(model.loaded), 'listing_loaded',
               lambda: '%s: loaded properties %s, expected %s' % (what, sorted(handler.extract_keys('loaded')), sorted(model.loaded)))
    for which in ('any', 'saved', 'loaded', 'generated'):
        keys = list(handler.extract_keys(which))
        case.check(len(keys) == len(set(keys)), 'listing_twice', lambda: '%s: %r properties listed more than once: %s' % (what, which, sorted(keys)))
    gen = set(handler.extract_keys('generated'))
    case.check(not gen & (model.given - model.generated), 'listing_generated',
               lambda: '%s: listed as generated, but never made: %s' % (what, sorted(gen & (model.given - model.generated))))
    case.check(gen <= model.names() and (model.names() - set(model.saved)) <= gen, 'listing_generated',
               lambda: '%s: generated properties %s' % (what, sorted(gen)))
    case.check(handler.nhalos_active == int(model.active.sum()), 'active_count',
               lambda: '%s: %d active halos, expected %d' % (what, handler.nhalos_active, model.active.sum()))
    names = sorted(model.names())
    if not everything:
        names = [names[int(i)] for i in case.rng.choice(len(names), size=min(3, len(names)), replace=False)]
    for name in names:
        case.check(handler.has_property(name), 'has_property', '%s: has_property(%s) is False' % (what, name))
        case.check(handler.has_loaded(name) == (name in model.loaded), 'has_loaded', '%s: has_loaded(%s) is wrong' % (what, name))
        for use_all in (True, False):
            for in_h in (None, True, False):
                got = handler.return_property(name, use_all_inds=use_all, in_h_units=in_h)
                want = model.value(name, use_all, in_h)
                if got is None:
                    case.fail('no_value', '%s: %s exists but returns nothing' % (what, name))
                case.close(got, want, 'values', '%s: property %s (all halos %s, little-h units %s)' % (what, name, use_all, in_h),
                           rtol=3e-6)
                case.observe('values_compared', np.size(want))
    for name in ('nothing', 'mass_cuts'):
        case.check(not handler.has_property(name), 'has_property', '%s: has_property(%s) is True' % (what, name))


def random_prop(case, model, uid_name='uid', n_props=None, names=None):
    """A property object whose values are known per object, and what it should
    leave in the handler."""
    from simim.galprops import MultiProp, Prop
    rng = case.rng
    n_props = int(rng.integers(1, 4)) if n_props is None else n_props
    pool = list(dict.fromkeys(['made%d' % i for i in range(4)] + tiny(model)[:3]))
    if names is None:
        names = [pool[int(i)] for i in rng.choice(len(pool), size=n_props, replace=False)]
    uids = model.entry(uid_name)[0]
    tables, hdeps, units = [], [], []
    kinds = []
    for k in range(n_props):
        kind = ['d', 'f', 'i', 'b'][int(rng.choice(4, p=[0.5, 0.2, 0.2, 0.1]))]
        hd = [0, 0, -1, 1, 2, 0.5][int(rng.integers(6))] if kind in 'df' else 0
        if kind in 'df':
            vals = rng.normal(size=model.n).astype(kind)
        elif kind == 'i':
            vals = rng.integers(-9, 9, model.n).astype('i8')
        else:
            vals = rng.random(model.n) < 0.5
        kinds.append(kind)
        tables.append(dict(zip(uids.tolist(), vals.tolist())))
        hdeps.append(hd)
        units.append('unit%d' % int(rng.integers(9)))
    in_h = bool(rng.integers(2))
    calls = []

    def func(uid, factor=1):
        calls.append(np.size(uid))
        out = [np.array([t[int(u)] for u in uid]).astype({'d': 'd', 'f': 'f', 'i': 'i8', 'b': bool}[k]) for t, k in zip(tables, kinds)]
        if factor != 1:
            out = [o * factor for o in out]
        return out[0] if n_props == 1 and single else out
    single = n_props == 1 and rng.random() < 0.6
    if single:
        prop = Prop(names[0], func, ['uid'], units=units[0], h_dependence=hdeps[0], function_return_in_h_units=in_h)
    else:
        prop = MultiProp(names, func, ['uid'], units=units, h_dependence=hdeps, function_return_in_h_units=in_h, wrap=False)
    factor = 1 if rng.random() < 0.7 else 3

    def expected(active):
        res = []
        for t, k, hd, un in zip(tables, kinds, hdeps, units):
            v = np.array([t[int(u)] for u in uids])
            v = v.astype({'d': 'd', 'f': 'f', 'i': 'i8', 'b': bool}[k]) * factor if factor != 1 else \
                v.astype({'d': 'd', 'f': 'f', 'i': 'i8', 'b': bool}[k])
            if not in_h and hd != 0:
                v = v / model.h ** hd
            if not active.all():
                v = v.astype(np.result_type(v.dtype, np.float16))
                v[~active] = np.nan
            res.append((v, un, hd))
        return res
    return prop, names, expected, ({'factor': factor} if factor != 1 else {}), calls


def defaults_left_out(rng, kws, **defaults):
    """The same request, without some of the arguments that are the documented defaults."""
    return {k: v for k, v in kws.items() if not (k in defaults and (v is defaults[k] or v == defaults[k]) and rng.random() < .5)}


class History:
    """Random operations on a handler and its model."""

    OPS = ['load', 'unload', 'make', 'write', 'delete', 'select', 'select', 'units', 'bad']

    def __init__(self, case, handler, model, reopen=None, ops=None):
        self.case, self.h, self.m, self.reopen = case, handler, model, reopen
        self.ops = ops or self.OPS
        self.trace = []

    def step(self):
        case, rng = self.case, self.case.rng
        op = self.ops[int(rng.integers(len(self.ops)))]
        with case.quiet():
            getattr(self, op)()
        case.observe('operations')
        case.observe('op_' + op)
        self.trace.append(op)

    def pick(self, names):
        names = sorted(names)
        return names[int(self.case.rng.integers(len(names)))] if names else None

    # -- operations ---------------------------------------------------------
    def makes(self, kws):
        return defaults_left_out(self.case.rng, kws, rename=None, other_kws={}, overwrite=False, use_all_inds=False,
                                 overwrite_to_disk=False, unload_to_disk=False)

    def several(self, names, most=3):
        names = sorted(names)
        k = 1 if self.case.rng.random() < .6 else int(self.case.rng.integers(1, most + 1))
        return [names[int(i)] for i in self.case.rng.permutation(len(names))[:k]]

    def load(self):
        names = self.several(self.m.saved)
        self.case.note('load %s' % names)
        self.h.load_property(*names)
        for name in names:
            self.m.loaded[name] = tuple([self.m.saved[name][0].copy()] + list(self.m.saved[name][1:]))

    def unload(self):
        names = self.several(self.m.loaded)
        if not names:
            return
        self.case.note('unload %s' % names)
        self.h.unload_property(*names)
        for name in names:
            self.m.loaded.pop(name)
            if name not in self.m.saved:
                self.case.observe('unsaved_unloads')

    def make(self, **kw):
        case, rng, m = self.case, self.case.rng, self.m
        use_all = bool(rng.integers(2))
        prop, names, expected, other, calls = random_prop(case, m)
        rename = None
        if rng.random() < 0.3:
            rename = ['renamed%d' % i for i in rng.permutation(5)[:len(names)]]
            if len(rename) == 1 and rng.random() < 0.5:
                rename = rename[0]
        final = names if rename is None else ([rename] if isinstance(rename, str) else rename)
        clash = [n for n in final if m.exists(n)]
        overwrite = bool(rng.random() < 0.6)
        kws = dict(rename=rename, other_kws=other, overwrite=overwrite, use_all_inds=use_all)
        if rng.random() < 0.2:
            prop.kwargs[:] = ['uid']
            kws['kw_remap'] = {'uid': 'uid'}
        case.note('make %s rename=%s overwrite=%s all=%s other=%s' % (names, rename, overwrite, use_all, other))
        if clash and not overwrite:
            case.refuses('overwrite_refused', 'making %s replaced existing %s without being asked' % (final, clash),
                         self.h.make_property, prop, **defaults_left_out(rng, kws, rename=None, other_kws={}, overwrite=False, use_all_inds=False))
            case.observe('clashes_refused')
            return
        act = np.ones(m.n, bool) if use_all else m.active.copy()
        exp = expected(act)
        self.h.make_property(prop, **defaults_left_out(rng, kws, rename=None, other_kws={}, overwrite=False, use_all_inds=False))
        case.check(calls == [int(act.sum())], 'evaluated_on',
                   lambda: 'property function was called with %s objects, expected one call with %d' % (calls, act.sum()))
        for n, e in zip(final, exp):
            m.loaded[n] = e
            m.generated.add(n)
        case.observe('partial_makes' if not act.all() else 'full_makes')

    def select(self):
        case, rng, m = self.case, self.case.rng, self.m
        kind = rng.random()
        if kind < 0.1:
            self.h.set_property_range()
            m.active[:] = True
            case.note('select all')
            return
        name = self.pick(m.names())
        in_h = [None, True, False][int(rng.integers(3))]
        vals = np.asarray(m.value(name, True, in_h), float)
        fin = np.unique(vals[np.isfinite(vals)])
        kw = {}
        lo, hi = -np.inf, np.inf
        if len(fin) > 1:
            # limits half way between values, so that rounding cannot matter
            mids = (fin[1:] + fin[:-1]) / 2
            scale = np.abs(fin).max()
            mids = mids[(fin[1:] - fin[:-1]) > 1e-5 * scale]
            if len(mids):
                if rng.random() < 0.7:
                    lo = float(rng.choice(mids))
                    kw['pmin'] = lo
                if rng.random() < 0.7:
                    hi = float(rng.choice(mids))
                    kw['pmax'] = hi
        hd = m.entry(name)[2]
        if len(fin) and rng.random() < 0.25 and (hd == 0 or (in_h if in_h is not None else m.default_h)):
            # inclusive limit exactly at a stored value
            v = float(rng.choice(fin))
            if rng.random() < 0.5:
                lo = kw['pmin'] = v
            else:
                hi = kw['pmax'] = v
            case.observe('inclusive_limits')
        reset = bool(rng.random() < 0.6)
        self.h.set_property_range(name, reset=reset, in_h_units=in_h, **kw)
        with np.errstate(invalid='ignore'):
            ok = (vals >= lo) & (vals <= hi)
        m.active = ok if reset else (ok & m.active)
        case.note('select %s in [%r, %r] reset=%s in_h=%s -> %d' % (name, lo, hi, reset, in_h, m.active.sum()))
        case.observe('selections')
        if not reset:
            case.observe('narrowing_selections')
        if m.active.sum() == 0 and rng.random() < 0.7:
            self.h.set_property_range()
            m.active[:] = True

    def units(self):
        b = bool(self.case.rng.integers(2))
        self.case.note('little-h units by default: %s' % b)
        self.h.set_in_h_units(b)
        self.m.default_h = b

    def write(self):
        case, rng, m = self.case, self.case.rng, self.m
        name = self.pick(m.loaded)
        if name is None:
            return
        dtype = None if rng.random() < 0.7 or m.loaded[name][0].dtype.kind != 'f' else 'f'
        overwrite = bool(rng.random() < 0.6)
        case.note('write %s overwrite=%s dtype=%s' % (name, overwrite, dtype))
        if name in m.saved and not overwrite:
            # of several, none is written
            others = [n for n in self.several(m.loaded) if n != name]
            case.refuses('write_refused', 'writing %s replaced the saved property without being asked' % name,
                         self.h.write_property, *(others + [name]), **({} if rng.random() < .5 else {'overwrite': False}))
            case.observe('clashes_refused')
            return
        others = [n for n in self.several(m.loaded) if n != name and (overwrite or n not in m.saved)] if dtype is None else []
        self.h.write_property(name, *others, **defaults_left_out(rng, dict(overwrite=overwrite, dtype=dtype), overwrite=False, dtype=None))
        for name in [name] + others:
            v, u, hd = m.loaded[name]
            m.saved[name] = (v.astype(dtype) if dtype else v.copy(), u, hd)
            case.observe('writes')

    def make_write(self):
        case, rng, m = self.case, self.case.rng, self.m
        prop, names, expected, other, calls = random_prop(case, m)
        clash = [n for n in names if m.exists(n)]
        disk_clash = [n for n in names if n in m.saved]
        use_all = bool(rng.integers(2))
        unload = bool(rng.integers(2))
        over = bool(rng.random() < 0.7)
        over_disk = over if rng.random() < 0.8 else not over
        case.note('make and write %s all=%s unload=%s overwrite=%s/%s' % (names, use_all, unload, over, over_disk))
        kws = dict(other_kws=other, overwrite=over, use_all_inds=use_all, write_to_disk=True,
                   overwrite_to_disk=over_disk, unload_to_disk=unload)
        act = np.ones(m.n, bool) if use_all else m.active
        if not act.all():
            case.refuses('restricted_write', 'a property of some halos only was written to disk', self.h.make_property, prop, **self.makes(kws))
            case.observe('clashes_refused')
            return
        if clash and not over:
            case.refuses('overwrite_refused', 'making %s replaced existing %s without being asked' % (names, clash),
                         self.h.make_property, prop, **self.makes(kws))
            case.observe('clashes_refused')
            return
        if disk_clash and not over_disk:
            # the values may be in memory afterwards, the file must not change
            exp = expected(np.ones(m.n, bool))
            case.refuses('overwrite_refused', 'making %s replaced the saved %s without being asked' % (names, disk_clash),
                         self.h.make_property, prop, **self.makes(kws))
            case.observe('clashes_refused')
            if all(self.h.has_loaded(n) and np.allclose(np.asarray(self.h.return_property(n, True, True), float), e[0].astype(float), rtol=1e-6, equal_nan=True)
                   for n, e in zip(names, exp)):
                for n, e in zip(names, exp):
                    m.loaded[n] = e
                    m.generated.add(n)
            return
        exp = expected(np.ones(m.n, bool))
        self.h.make_property(prop, **self.makes(kws))
        for n, e in zip(names, exp):
            m.saved[n] = e
            m.generated.add(n)
            m.loaded[n] = e
            if unload:
                m.loaded.pop(n)
        case.observe('writes', len(names))

    def delete(self):
        case, m = self.case, self.m
        names = self.several(tiny(m))
        if not names:
            return
        case.note('delete %s' % names)
        self.h.delete_property(*names)
        for name in names:
            m.saved.pop(name)
            m.loaded.pop(name, None)
            case.observe('deletes')

    def bad(self):
        case, rng, m, h = self.case, self.case.rng, self.m, self.h
        from simim.galprops import MultiProp, Prop
        kind = int(rng.integers(9))
        case.note('bad request %d' % kind)
        unsaved = self.pick(m.names() - set(m.saved)) or 'nothing'
        unloaded = self.pick(m.names() - set(m.loaded)) or 'nothing'
        if kind == 0:
            case.refuses('bad_return', 'an unknown property was returned', h.return_property, 'nothing')
        elif kind == 1:
            case.refuses('bad_load', 'a property that is not saved was loaded', h.load_property, *(self.several(set(m.saved)) + [unsaved]))
        elif kind == 2:
            case.refuses('bad_write', 'a property that is not in memory was written', h.write_property,
                         *(self.several(m.loaded) + [unloaded]), overwrite=True)
        elif kind == 3:
            case.refuses('bad_delete', 'a property that is not saved was deleted', h.delete_property, *(self.several(tiny(m)) + [unsaved]))
        elif kind == 4:
            case.refuses('bad_select', 'selected by an unknown property', h.set_property_range, 'nothing', 0, 1)
        elif kind == 5:
            p = Prop('made_bad', lambda nothing: nothing, ['nothing'])
            case.refuses('bad_make', 'evaluated a property of unknown quantities', h.make_property, p)
        elif kind < 8:
            # the values of one of them fit no catalogue
            names = ['made_bad%d' % i for i in range(int(rng.integers(1, 4)))]
            if rng.random() < .6:
                names[0] = self.pick(m.names()) or names[0]
            odd = int(rng.integers(len(names)))
            p = MultiProp(['out%d' % i for i in range(len(names))], lambda uid: [np.zeros(len(uid) + 2 * (i == odd)) for i in range(len(names))], ['uid'])
            case.refuses('bad_values', 'values that do not fit the catalogue were kept', h.make_property, p, rename=names, overwrite=True, use_all_inds=bool(rng.random() < .5))
        else:
            def boom(uid):
                raise RuntimeError('boom')
            p = Prop('made_bad', boom, ['uid'])
            case.refuses('bad_function', 'the failure of a property function was hidden', h.make_property, p)
        case.observe('refused_requests')


def file_state(path, group):
    """What is on disk: name -> (bytes, unit, h dependence)."""
    out = {}
    with h5py.File(path, 'r') as f:
        for k in f[group].keys():
            if k == 'mass_cuts':
                continue
            d = f[group][k]
            out[k] = (d[:], str(d.attrs['units']), d.attrs['h dependence'])
    return out
