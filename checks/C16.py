"""C16: what is written to disk is what comes back, and nothing else on disk changes."""
import h5py
import numpy as np
import handlerlib as hl
import simlib as sl

PROPERTY = 'C16'
NEEDS_DATA = True
RULE = ('a case is a random synthetic simulation and a history of writing, overwriting and deleting properties of one or all '
        'snapshots, with other handlers opened in between; after every step the raw contents of every snapshot on disk are '
        'compared with a model, and handlers opened afresh are compared with what was written; non-trivial when the file '
        'changed at least once; told apart by history')


def raw_attrs(path):
    with h5py.File(path, 'r') as f:
        out = {k: np.asarray(v).tolist() for k, v in f.attrs.items()}
        for g in f:
            out[g] = {k: np.asarray(v).tolist() for k, v in f[g].attrs.items()}
            out[g + '/cuts'] = f[g]['mass_cuts'][:].tolist()
    return out


def on_disk(case, path, models, attrs, what, last):
    """Every snapshot holds exactly its saved properties; what the last step did not
    write is bit for bit as it was.  last: (snapshot, name) -> (model entry, values)."""
    for k, m in enumerate(models):
        got = hl.file_state(path, 'Snapshot %d' % k)
        case.check(set(got) == set(m.saved), 'disk_names', lambda: '%s: snapshot %d has %s on disk, expected %s'
                   % (what, k, sorted(got), sorted(m.saved)))
        for name, (v, unit, hd) in m.saved.items():
            gv, gu, gh = got[name]
            if gv.size == 0:
                gv = gv.flatten()
            gv, v = np.asarray(gv), np.asarray(v)
            same = gv.shape == v.shape and (gv.size == 0 or gv.dtype.kind == v.dtype.kind)
            if same and v.dtype.kind == 'f':
                same = bool(np.all(np.isclose(gv, v, rtol=1e-6, atol=0, equal_nan=True)))
            elif same:
                same = bool(np.all(gv == v))
            old = last.get((k, name))
            if old is not None and old[0] is m.saved[name]:
                same = same and gv.tobytes() == old[1].tobytes() and gv.dtype == old[1].dtype
                case.observe('untouched_datasets')
            last[(k, name)] = (m.saved[name], gv)
            case.check(same, 'disk_values', lambda: '%s: values of %s in snapshot %d on disk are %s %s, expected %s %s'
                       % (what, name, k, gv.dtype, gv[:5], v.dtype, v[:5]))
            case.check(gu == unit and gh == hd, 'disk_units', lambda: '%s: unit of %s in snapshot %d on disk is %r, h^%s; expected %r, h^%s'
                       % (what, name, k, gu, gh, unit, hd))
            case.observe('values_compared', v.size)
    now = raw_attrs(path)
    case.check(now == attrs, 'disk_metadata', lambda: '%s: metadata on disk changed: %s'
               % (what, [k for k in set(now) | set(attrs) if now.get(k) != attrs.get(k)]))


def one_snapshot(case):
    from simim.siminterface import SimHandler
    rng = case.rng
    s = sl.make_sim(case, n_snaps=int(rng.integers(1, 4)), n_halos=sl.some_halos(case, 12))
    path = s.path + '/data.hdf5'
    models = [hl.Model(s.truth[k], s.fields, s.h, False) for k in range(s.n_snaps)]
    attrs = raw_attrs(path)
    last = {}
    on_disk(case, path, models, attrs, 'a fresh file', last)
    sim = SimHandler(sl.SIM)
    changed = 0
    trace = []
    for i in range(int(rng.integers(3, 7))):
        k = int(rng.integers(s.n_snaps))
        h = sim.get_snap(k)
        m = models[k]
        m.loaded, m.active, m.default_h = {}, np.ones(m.n, bool), False
        hist = hl.History(case, h, m, ops=['make', 'make', 'write', 'write', 'make_write', 'delete', 'load', 'unload', 'select', 'units', 'bad'])
        case.note('open snapshot %d' % k)
        hl.compare(case, h, m, 'reopened', everything=False)
        for j in range(int(rng.integers(2, 7))):
            before = {n: (v.tobytes(), u, d) for n, (v, u, d) in m.saved.items()}
            hist.step()
            on_disk(case, path, models, attrs, 'after %s' % hist.trace[-1], last)
            changed += before != {n: (v.tobytes(), u, d) for n, (v, u, d) in m.saved.items()}
        trace += [k] + hist.trace
    for k, m in enumerate(models):
        m.loaded, m.active, m.default_h = {}, np.ones(m.n, bool), False
        hl.compare(case, SimHandler(sl.SIM).get_snap(k), m, 'reopened at the end')
    if changed:
        case.observe('file_changes', changed)
        case.nontrivial(trace)
    case.sample('%d snapshots: %s' % (s.n_snaps, trace))


def all_snapshots(case):
    """The same through SimHandler, for all snapshots together."""
    from simim.galprops import MultiProp, Prop
    from simim.siminterface import SimHandler
    rng = case.rng
    n_snaps = int(rng.integers(1, 4))
    labels = None if rng.random() < .5 else np.sort(rng.choice(np.arange(0, 12), size=n_snaps, replace=False))
    s = sl.make_sim(case, n_snaps=n_snaps, labels=labels)
    if s.labels[0] != 0:
        case.observe('numbered_otherwise')
    path = s.path + '/data.hdf5'
    models = [hl.Model(s.truth[k], s.fields, s.h, False) for k in range(n_snaps)]
    attrs = raw_attrs(path)
    init = bool(rng.integers(2))
    sim = SimHandler(sl.SIM, init_snaps=init)
    trace = []
    for i in range(int(rng.integers(3, 8))):
        op = ['write', 'write', 'delete', 'memory', 'protected', 'reopen'][int(rng.integers(6))]
        names = ['user%d' % j for j in rng.permutation(4)[:int(rng.integers(1, 3))]]
        hds = [int(rng.choice([0, -1, 2])) for _ in names]
        fac = [float(rng.uniform(0.5, 2)) for _ in names]
        units = ['unit%d' % int(rng.integers(9)) for _ in names]
        fn_h = bool(rng.integers(2))

        def func(mass, cosmo, redshift, extra=0.0):
            out = [f * np.log10(np.asarray(mass, 'd')) + redshift + cosmo.h + extra for f in fac]
            return out if len(names) > 1 else out[0]

        def values(k, extra):
            mass = np.asarray(models[k].saved['mass'][0])  # given without little h
            mass = mass * s.h ** -1
            out = []
            for f, hd in zip(fac, hds):
                v = f * np.log10(np.asarray(mass, 'd')) + s.snaps[k]['redshift'] + s.h + extra
                out.append(v if fn_h or hd == 0 else v / s.h ** hd)
            return out
        if len(names) > 1:
            p = MultiProp(names, func, ['mass', 'cosmo', 'redshift'], units=units, h_dependence=hds, function_return_in_h_units=fn_h)
        else:
            p = Prop(names[0], func, ['mass', 'cosmo', 'redshift'], units=units[0], h_dependence=hds[0], function_return_in_h_units=fn_h)
        extra = float(rng.integers(0, 3))
        rename = None
        final = names
        if rng.random() < 0.3:
            final = ['other%d' % j for j in rng.permutation(3)[:len(names)]]
            rename = final if len(final) > 1 or rng.random() < 0.5 else final[0]
        clash = [n for n in final if n in models[0].saved or n in models[0].loaded]
        case.note('%s %s -> %s (clash %s)' % (op, names, final, clash))
        trace.append(op)
        if op == 'write':
            over = bool(rng.random() < 0.6)
            if clash and not over:
                case.refuses('overwrite_refused', 'writing %s replaced what was there without being asked' % final,
                             sim.make_property, p, rename=rename, write=True)
                case.observe('refused_writes')
            else:
                if any(n in models[0].loaded and n not in models[0].saved for n in final):
                    continue
                dt = None if rng.random() < 0.7 else 'f'
                sim.make_property(p, rename=rename, other_kws={'extra': extra}, overwrite=over, write=True, writedtype=dt)
                for k, m in enumerate(models):
                    for n, u, hd, v in zip(final, units, hds, values(k, extra)):
                        m.saved[n] = (v.astype(dt) if dt else v, u, hd)
                        m.loaded.pop(n, None)
                        case.observe('writes')
        elif op == 'delete':
            have = sorted(n for n in models[0].saved if n.startswith(('user', 'other')))
            if have:
                n = have[int(rng.integers(len(have)))]
                case.note('delete ' + n)
                # what follows is compared with the disk below
                case.refuses('delete_unknown', 'deleting %s and an unknown property was accepted' % n, sim.delete_property, n, 'nothing')
                case.refuses('protected', 'deleting %s and mass was accepted' % n, sim.delete_property, n, 'mass')
                if rng.random() < .3:
                    op = 'delete refused'
                else:
                    sim.delete_property(n)
                    for m in models:
                        m.saved.pop(n)
                        m.loaded.pop(n, None)
                    case.observe('deletes')
            else:
                case.refuses('delete_unknown', 'deleting an unknown property was accepted', sim.delete_property, 'nothing')
        elif op == 'memory':
            if not init:
                case.refuses('memory_only', 'a property was made that nothing keeps', sim.make_property, p, rename=rename)
            elif clash and rng.random() < .5:
                case.refuses('overwrite_refused', 'making %s replaced what was there without being asked' % final, sim.make_property, p, rename=rename)
            else:
                kw = {'other_kws': {'extra': extra}, 'rename': rename}
                if clash or rng.random() < .3:
                    kw['overwrite'] = True
                use_all = bool(rng.random() < .5)
                if use_all or rng.random() < .5:
                    kw['use_all_inds'] = use_all
                if rng.random() < .6:
                    # of selected objects only, unless all are asked for
                    limit = float(np.median(np.concatenate([m.saved['mass'][0] for m in models]))) * 1.0001
                    sim.set_property_range('mass', pmax=limit, in_h_units=True)
                    for m in models:
                        m.active = np.asarray(m.saved['mass'][0]) <= limit
                    case.observe('selected_everywhere')
                sim.make_property(p, **kw)
                for k, m in enumerate(models):
                    act = np.ones(m.n, bool) if use_all else m.active
                    for n, u, hd, v in zip(final, units, hds, values(k, extra)):
                        m.generated.add(n)
                        m.loaded[n] = (np.where(act, v, np.nan), u, hd)
                sim.set_property_range()
                for m in models:
                    m.active = np.ones(m.n, bool)
                case.observe('in_memory')
        elif op == 'protected':
            n = ['mass', 'pos_x', 'uid'][int(rng.integers(3))]
            case.refuses('protected', 'the catalogue property %s was deleted for all snapshots' % n, sim.delete_property, n)
            case.refuses('protected', 'the catalogue property %s was overwritten for all snapshots' % n, sim.make_property,
                         p if len(names) == 1 else Prop(n, lambda mass: mass * 2, ['mass']), rename=n, overwrite=True, write=True)
        else:
            if init:
                for m in models:
                    m.loaded = {}
            init = bool(rng.integers(2))
            sim = SimHandler(sl.SIM, init_snaps=init)
        for k, m in enumerate(models):
            # values written are compared to rounding of the property function's arithmetic
            got = hl.file_state(path, 'Snapshot %d' % s.labels[k])
            case.check(set(got) == set(m.saved), 'disk_names', lambda: 'snapshot %d has %s on disk, expected %s' % (k, sorted(got), sorted(m.saved)))
            for n in m.saved:
                case.close(got[n][0].flatten(), m.saved[n][0], 'disk_values', '%s of snapshot %d on disk' % (n, k), rtol=1e-6)
                case.check(got[n][1:] == m.saved[n][1:], 'disk_units', lambda: 'units of %s of snapshot %d on disk are %s' % (n, k, got[n][1:]))
            hl.compare(case, sim.get_snap(s.labels[k]), m, 'snapshot %d after %s' % (k, op), everything=False)
            case.observe('snapshots_compared')
        case.check(raw_attrs(path) == attrs, 'disk_metadata', 'metadata on disk changed')
    case.nontrivial(trace, n_snaps, s.h)


def interrupted(case):
    """Interrupted at any point, writing or deleting a property touches no other, and leaves
    snapshots that can be opened, with the property as it was, as it was to be, or without it."""
    import vkit
    from simim.galprops import Prop
    from simim.siminterface import SimHandler
    rng = case.rng
    s = sl.make_sim(case, n_snaps=int(rng.integers(1, 4)), n_halos=sl.some_halos(case, 12))
    path = s.path + '/data.hdf5'
    models = [hl.Model(s.truth[k], s.fields, s.h, False) for k in range(s.n_snaps)]
    attrs = raw_attrs(path)
    files = ('_handlers.py', 'siminterface/simhandler.py')
    number = 0

    def prop(name, f, unit, hd, kind):
        return Prop(name, lambda mass: (np.log10(np.asarray(mass, 'd')) * f * 100).astype(kind), ['mass'], units=unit, h_dependence=hd, function_return_in_h_units=True)

    def look(what, changing, versions):
        """changing: name that may have changed in any snapshot; versions: [(dict snapshot -> values or None), ...]"""
        absent = []
        for k, m in enumerate(models):
            got = hl.file_state(path, 'Snapshot %d' % k)
            names = set(m.saved) - {changing}
            case.check(names <= set(got) <= names | {changing}, 'disk_names', lambda: '%s: snapshot %d has %s' % (what, k, sorted(got)))
            for n in names:
                v, u, hd = m.saved[n]
                ok = got[n][0].flatten().shape == np.shape(v) and np.allclose(got[n][0].flatten(), v, rtol=1e-6, atol=0) and got[n][1:] == (u, hd)
                case.check(ok, 'others', lambda: '%s: %s of snapshot %d changed' % (what, n, k))
                case.observe('others_compared')
            if changing in got:
                v, u, hd = got[changing]
                fit = [w for w in versions[k] if w is not None and np.shape(w[0]) == v.flatten().shape and np.allclose(v.flatten(), np.asarray(w[0]).astype(v.dtype), rtol=1e-5)]
                case.check(bool(fit), 'half_written', lambda: '%s: values of %s in snapshot %d are neither the old nor the new ones' % (what, changing, k))
                case.check((u, hd) in [w[1:] for w in versions[k] if w is not None], 'half_written', lambda: '%s: unit of %s in snapshot %d is %s' % (what, changing, k, (u, hd)))
            else:
                absent.append(k)
            h = SimHandler(sl.SIM).get_snap(k)
            case.check(set(h.extract_keys()) == set(got), 'reopened', lambda: '%s: snapshot %d, opened again, has %s' % (what, k, sorted(h.extract_keys())))
        case.check(raw_attrs(path) == attrs, 'disk_metadata', '%s: metadata on disk changed' % what)
        return absent
    for step in range(5):
        number += 1
        name = 'user%d' % rng.integers(3)
        every = bool(rng.random() < .5)
        kind = str(rng.choice(['f', 'd', 'i8']))
        f, unit, hd = float(rng.uniform(.5, 2)), 'unit%d' % number, int(rng.choice([0, -1, 2]))
        p = prop(name, f, unit, hd, kind)
        new = [((np.log10(np.asarray(m.saved['mass'][0] / s.h, 'd')) * f * 100).astype(kind), unit, hd) for m in models]
        old = [m.saved.get(name) for m in models]
        k = int(rng.integers(s.n_snaps))
        delete = bool(rng.random() < .25) and all(o is not None for o in old)
        with case.quiet():
            sim = SimHandler(sl.SIM)
            h = sim.get_snap(k)
            if every:
                do = (lambda: sim.delete_property(name)) if delete else (lambda: sim.make_property(p, overwrite=True, write=True))
            elif delete:
                do = lambda: h.delete_property(name)
            else:
                h.make_property(p, overwrite=True)
                do = lambda: h.write_property(name, overwrite=True)
            at = int(rng.integers(1, 60)) if not every else int(rng.integers(1, 25 + 110 * s.n_snaps))
            with vkit.Interrupt(case.build, at, *files, cap=40) as i:
                do()
        what = '%s %s%s interrupted at line %d (%s): %s' % ('deleting' if delete else 'writing', name, ' everywhere' if every else ' of snapshot %d' % k, at, i.where, i.fired)
        case.note(what)
        touched = range(s.n_snaps) if every else [k]
        absent = look(what, name, [[old[j]] + ([None if delete else new[j]] if j in touched else []) for j in range(s.n_snaps)])
        for j in absent:
            case.check(old[j] is None or j in touched, 'others', lambda: '%s: %s is no longer in snapshot %d' % (what, name, j))
        if i.fired:
            case.observe('interrupted_writes')
        else:
            case.observe('whole_writes')
            case.check(not absent or delete or (not every), 'not_written', what)
        # and it can be done again
        with case.quiet():
            if delete:
                left = [j for j in touched if j not in absent]
                if every and left:
                    SimHandler(sl.SIM).delete_property(name)
                    left = []
                for j in touched:
                    hj = SimHandler(sl.SIM).get_snap(j)
                    if j in left:
                        hj.delete_property(name)
                    models[j].saved.pop(name)
            elif every:
                SimHandler(sl.SIM).make_property(p, overwrite=True, write=True)
            else:
                hk = SimHandler(sl.SIM).get_snap(k)
                hk.make_property(p, overwrite=True)
                hk.write_property(name, overwrite=True)
            if not delete:
                for j in touched:
                    models[j].saved[name] = new[j]
        look(what + ', and done again', 'nothing', [[None]] * s.n_snaps)
    case.nontrivial(case.log)
    case.sample('; '.join(case.log))


def several_handlers(case):
    """Handlers of the same snapshots open at once: what one has written is neither replaced by
    another without being asked, nor read by it in other units than those on disk."""
    from simim.galprops import Prop
    from simim.siminterface import SimHandler
    rng = case.rng
    n_snaps = int(rng.integers(2, 4))
    s = sl.make_sim(case, n_snaps=n_snaps, n_halos=int(rng.integers(1, 8)))
    path = s.path + '/data.hdf5'
    disk = [dict(t) for t in ({n: (np.asarray(v), *s.fields[n][1:]) for n, v in s.truth[k].items()} for k in range(n_snaps))]
    attrs = raw_attrs(path)
    handlers = {}
    number = 0

    def prop(name):
        f, hd = float(rng.uniform(1, 2)), int(rng.choice([0, -1, 1, 2]))
        p = Prop(name, lambda mass: np.asarray(mass, 'd') * f, ['mass'], units='unit%d' % number, h_dependence=hd, give_args_in_h_units=True, function_return_in_h_units=True)
        return p, [(np.asarray(disk[k]['mass'][0], 'd') * f, 'unit%d' % number, hd) for k in range(n_snaps)]

    def look(what):
        for k in range(n_snaps):
            got = hl.file_state(path, 'Snapshot %d' % k)
            case.check(set(got) == set(disk[k]), 'several_names', lambda: '%s: snapshot %d has %s on disk, expected %s' % (what, k, sorted(got), sorted(disk[k])))
            for n, (v, u, hd) in disk[k].items():
                case.check(np.array_equal(got[n][0].flatten(), v) and got[n][1:] == (u, hd), 'several_values',
                           lambda: '%s: %s of snapshot %d on disk is %s %s, expected %s %s' % (what, n, k, got[n][0][:3], got[n][1:], v[:3], (u, hd)))
        case.check(raw_attrs(path) == attrs, 'disk_metadata', what + ': metadata on disk changed')
    for step in range(int(rng.integers(5, 12))):
        number += 1
        k = int(rng.integers(n_snaps))
        who = (k, int(rng.integers(2)))
        name = ['user0', 'user0', 'user1'][int(rng.integers(3))]
        if who not in handlers or rng.random() < .1:
            handlers[who] = [SimHandler(sl.SIM).get_snap(k), set(disk[k])]
        h, knows = handlers[who]
        op = ['write', 'write', 'everywhere', 'delete'][int(rng.integers(4))]
        over = bool(rng.random() < .5)
        what = '%s %s %s overwrite=%s' % (op, name, who, over)
        if op == 'write':
            p, new = prop(name)
            h.make_property(p, overwrite=True)
            if name in disk[k] and not over:
                case.refuses('overwrite_refused', what + ': replaced what was there without being asked', h.write_property, name)
                case.observe('refused_for_others' if name not in knows else 'refused_writes')
            else:
                h.write_property(name, overwrite=over)
                disk[k][name] = new[k]
                knows.add(name)
                case.observe('several_writes')
            h.unload_property(name)
        elif op == 'everywhere':
            p, new = prop(name)
            sim = SimHandler(sl.SIM)
            if any(name in d for d in disk) and not over:
                case.refuses('overwrite_refused', what + ': replaced what was there without being asked', sim.make_property, p, write=True)
                case.observe('refused_partly' if not all(name in d for d in disk) else 'refused_writes')
            elif over and any(name in d for d in disk) or not any(name in d for d in disk):
                sim.make_property(p, write=True, overwrite=over)
                for j in range(n_snaps):
                    disk[j][name] = new[j]
                case.observe('several_writes')
        elif name in disk[k]:
            SimHandler(sl.SIM).get_snap(k).delete_property(name)
            disk[k].pop(name)
        case.note(what)
        look(what)
        for (j, i), (q, known) in handlers.items():
            for n in sorted(known & set(disk[j]) & {'user0', 'user1', 'mass', 'pos_x'}):
                v, u, hd = disk[j][n]
                in_h = bool(rng.integers(2))
                if q.has_property(n):
                    case.close(q.return_property(n, in_h_units=in_h), v if in_h or hd == 0 else v * s.h ** hd, 'several_read',
                               '%s: %s read by handler %d of snapshot %d (little-h units %s)' % (what, n, i, j, in_h), rtol=2e-6)
                    case.observe('read_by_others')
    case.nontrivial(case.log)


SCENARIOS = [('interrupted', interrupted, 40, 500), ('several_handlers', several_handlers, 60, 1000), ('one_snapshot', one_snapshot, 60, 1200), ('all_snapshots', all_snapshots, 40, 800)]
MINIMUM = {'file_changes': 100, 'writes': 100, 'deletes': 20, 'in_memory': 5, 'values_compared': 20000,
           'refusals_observed': 40, 'snapshots_compared': 150, 'interrupted_writes': 60, 'numbered_otherwise': 8, 'refused_for_others': 4, 'refused_partly': 15,
           'read_by_others': 400}
