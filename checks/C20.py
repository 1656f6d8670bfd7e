"""C20: formatting adds, replaces and deletes exactly what was asked for."""
import os

import h5py
import numpy as np
import handlerlib as hl
import simlib as sl

PROPERTY = 'C20'
NEEDS_DATA = True
RULE = ('a case is a data directory with raw snapshots (files or directories, names and paths with unusual characters) and a '
        'history of formatting runs (subsets of snapshots, new, added, replaced, basic, deleting raw data with and without '
        'consent) while the raw data change between runs; formatted file and directory tree are compared with a model after '
        'each; non-trivial when both were changed; told apart by history')

FIELDS = {'P': ['pos_x', 'pos_y', 'pos_z'], 'V': ['v_x', 'v_y', 'v_z'], 'M': ['mass'], 'U': ['uid'], 'S': ['sfr'], 'T': ['m_a', 'm_b']}
UNITS = {'pos_x': ('Mpc/h', -1), 'pos_y': ('Mpc/h', -1), 'pos_z': ('Mpc/h', -1), 'v_x': ('km/s', 0), 'v_y': ('km/s', 0), 'v_z': ('km/s', 0),
         'mass': ('Msun/h', -1), 'uid': ('None', 0), 'sfr': ('Msun/yr', 0), 'm_a': ('Msun/h', -1), 'm_b': ('Msun/h', -1)}
BASIC = ['pos_x', 'pos_y', 'pos_z', 'v_x', 'v_y', 'v_z', 'mass']


def tree(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(base, f)
            if os.path.relpath(p, d) != 'data.hdf5':
                out[os.path.relpath(p, d)] = open(p, 'rb').read()
        for x in dirs:
            out[os.path.relpath(os.path.join(base, x), d) + '/'] = None
    return out


class World:
    def __init__(self, case):
        from simim.siminterface._rawsiminterface import SimCatalogs
        rng = self.rng = case.rng
        self.case = case
        self.n = int(rng.integers(2, 6))
        self.h = 0.7
        self.cosmo = sl.cosmology(self.h, 0.3, 0.048)
        z = np.sort(rng.choice(np.arange(10, 400), size=self.n, replace=False))[::-1] / 100
        self.meta = sl.snapshot_table(z, self.cosmo, self.h)
        # the numbers of the snapshots, with gaps, across 9-10 and 99-100
        self.ids = list(range(self.n)) if rng.random() < .5 else sorted(int(i) for i in rng.choice(np.arange(*[(0, 12), (6, 14), (95, 105)][int(rng.integers(3))]), size=self.n, replace=False))
        self.meta['index'] = self.ids
        self.row = {k: i for i, k in enumerate(self.ids)}
        odd = ['plain', 'with space', "quo'te", 'semi;colon', '$HOME', 'a&b', 'star*', '-rf', '~']
        top = sl.fresh_dir(case, 'fmt')
        self.top = top
        self.d = os.path.join(top, odd[int(rng.integers(len(odd)))])
        os.makedirs(os.path.join(self.d, 'raw'))
        for extra in ('notes.txt', 'raw_notes.txt', 'lightcone/x.hdf5', 'raw2/snap_0'):
            p = os.path.join(self.d, extra)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'w').write(extra)
        # a victim for paths cut at a space, or expanded
        for extra in ('with', 'star', 'raw', 'a', 'semi'):
            open(os.path.join(top, 'keep_' + extra), 'w').write(extra)
        os.makedirs(os.path.join(top, 'with'), exist_ok=True)
        open(os.path.join(top, 'with', 'important'), 'w').write('x')
        self.names = {}
        for k in self.ids:
            name = ['snap_%d', 'snap %d', "s'%d", 'group_%d;x', '-r%d', 'sna*%d'][int(rng.integers(6))] % k
            self.names[k] = (name, bool(rng.integers(2)))
        self.version = 0
        self.raw = {}
        for k in self.ids:
            self.new_raw(k)
        open(os.path.join(self.d, 'raw', 'other file'), 'w').write('other')
        md = {'name': sl.SIM, 'number_snaps': self.n, 'cosmo_name': 's', 'cosmo_omega_matter': 0.3, 'cosmo_omega_lambda': 0.7,
              'cosmo_omega_baryon': 0.048, 'cosmo_h': self.h, 'box_edge': 50.0}
        np.save(os.path.join(self.d, 'meta.npy'), md)
        np.save(os.path.join(self.d, 'meta_snaps.npy'), self.meta)
        world = self

        class Cat(SimCatalogs):
            def __init__(self, snaps='all'):
                self.allsnaps = np.array(world.ids)
                super().__init__(sl.SIM, world.d, snaps, True)
                self.basic_fields = {'P': [(n, 'f') + UNITS[n] for n in FIELDS['P']], 'V': [(n, 'f') + UNITS[n] for n in FIELDS['V']],
                                     'M': [('mass', 'f') + UNITS['mass']]}
                self.dm_fields = {'U': [('uid', 'i8') + UNITS['uid']]}
                self.matter_fields = {'S': [('sfr', 'f') + UNITS['sfr']],
                                      'T': [('m_a', 'f') + UNITS['m_a'], ('none_x', 'f', 'x', 0), ('m_b', 'f') + UNITS['m_b']]}
                self.transform_keys = {'T': lambda x, h: x * h}

            def _loader(self, path, snapshot, fields):
                name, isdir = world.names[int(snapshot)]
                p = os.path.join(path, name)
                raw = np.load(os.path.join(p, 'part.npz') if isdir else p)
                return {f: raw[f] for f in fields}, len(raw['M'])

            def _get_rawsnapfiles(self, snapshot):
                return [world.names[int(snapshot)][0]]
        self.Cat = Cat
        self.file = None  # snapshot -> {name: (values, unit, hdep)}

    def new_raw(self, k):
        rng = self.rng
        self.version += 1
        n = int(rng.integers(1, 9)) if rng.random() < 0.85 else 0
        m = (10 ** rng.uniform(8, 13, n)).astype('f')
        raw = {'P': rng.uniform(0, 50, (n, 3)).astype('f'), 'V': rng.normal(size=(n, 3)).astype('f'), 'M': m, 'U': rng.permutation(n).astype('i8') + 100 * self.version,
               'S': rng.random(n).astype('f'), 'T': rng.random((n, 3)).astype('f')}
        name, isdir = self.names[k]
        p = os.path.join(self.d, 'raw', name)
        if isdir:
            os.makedirs(os.path.join(p, 'sub'), exist_ok=True)
            open(os.path.join(p, 'sub', 'more'), 'w').write('more')
            p = os.path.join(p, 'part.npz')
        with open(p, 'wb') as f:
            np.savez(f, **raw)
        self.raw[k] = raw

    def formatted(self, k, names):
        raw = self.raw[k]
        order = np.argsort(raw['M'], kind='stable')[::-1]
        allv = {'mass': raw['M'], 'uid': raw['U'], 'sfr': raw['S'], 'm_a': raw['T'][:, 0] * self.h, 'm_b': raw['T'][:, 2] * self.h}
        for j, a in enumerate('xyz'):
            allv['pos_' + a], allv['v_' + a] = raw['P'][:, j], raw['V'][:, j]
        return {n: (allv[n][order], UNITS[n][0], UNITS[n][1]) for n in names}

    def compare(self, what, want_tree):
        case = self.case
        p = os.path.join(self.d, 'data.hdf5')
        if self.file is None:
            case.check(not os.path.exists(p), 'no_file', what + ': a formatted file appeared')
        else:
            with h5py.File(p, 'r') as f:
                groups = set(f.keys())
                meta = f.attrs['snapshots']
                number = int(f.attrs['number_snaps'])
                h = float(f.attrs['cosmo_h'])
                own = {g: f[g].attrs['metadata'] for g in groups}
            case.check(groups == {'Snapshot %d' % k for k in self.file}, 'snapshots', lambda: '%s: %s in the file, expected %s' % (what, sorted(groups), sorted(self.file)))
            case.check([int(i) for i in meta['index']] == sorted(self.file) and number == len(self.file), 'snapshot_list',
                       lambda: '%s: the file lists snapshots %s (%d), holds %s' % (what, meta['index'], number, sorted(self.file)))
            case.close(h, self.h, 'metadata', what + ': h')
            for k in self.file:
                for m in (meta[meta['index'] == k][0], np.atleast_1d(own['Snapshot %d' % k])[0]):
                    case.check(all(m[q] == self.meta[self.row[k]][q] for q in self.meta.dtype.names), 'snapshot_metadata', lambda: '%s: metadata of snapshot %d are %s' % (what, k, m))
                got = hl.file_state(p, 'Snapshot %d' % k)
                case.check(set(got) == set(self.file[k]), 'fields', lambda: '%s: snapshot %d has %s, expected %s' % (what, k, sorted(got), sorted(self.file[k])))
                for n, (v, u, hd) in self.file[k].items():
                    case.close(got[n][0], v, 'values', '%s: %s of snapshot %d' % (what, n, k), rtol=1e-6)
                    case.check(got[n][1:] == (u, hd), 'units', lambda: '%s: %s has unit %s' % (what, n, got[n][1:]))
                    case.observe('datasets_compared')
        now = tree(self.top)
        p = os.path.relpath(p, self.top)
        now.pop(p, None)
        case.check(now == want_tree, 'tree', lambda: '%s: files removed %s, added %s, changed %s' % (what, sorted(set(want_tree) - set(now)),
                   sorted(set(now) - set(want_tree)), sorted(q for q in now if q in want_tree and now[q] != want_tree[q])))
        case.observe('trees_compared')

    def drop_raw(self, t, k):
        base = os.path.relpath(os.path.join(self.d, 'raw', self.names[k][0]), self.top)
        return {q: v for q, v in t.items() if not (q == base or q.startswith(base + '/'))}

    def has_raw(self, k):
        return os.path.exists(os.path.join(self.d, 'raw', self.names[k][0]))

    def tree(self):
        t = tree(self.top)
        t.pop(os.path.relpath(os.path.join(self.d, 'data.hdf5'), self.top), None)
        return t


def history(case):
    rng = case.rng
    w = World(case)
    trace = []
    changed = removed = 0
    for i in range(int(rng.integers(3, 8))):
        op = ['format', 'format', 'format', 'raw', 'user', 'clean'][int(rng.integers(6))]
        if op == 'raw':
            k = w.ids[int(rng.integers(w.n))]
            if os.path.isdir(os.path.join(w.d, 'raw')):
                w.new_raw(k)
            trace.append('raw')
            continue
        before = w.tree()
        if op == 'user':
            # something made by a user, in one snapshot
            if w.file:
                k = sorted(w.file)[int(rng.integers(len(w.file)))]
                from simim.galprops import Prop
                from simim.siminterface import SimHandler
                c = float(rng.random())
                hd = SimHandler(sl.SIM).get_snap(k)
                hd.make_property(Prop('mine', lambda v_x: v_x * 0 + c, ['v_x']), overwrite=True, write_to_disk=True, overwrite_to_disk=True)
                w.file[k]['mine'] = (np.full(len(w.file[k]['mass'][0]), c), 'None', 0)
                trace.append('user')
                w.compare('after making a property', before)
            continue
        if op == 'clean':
            yes = bool(rng.integers(2))
            reply = ['maybe', 'y'] if yes else ['', 'what', 'n']
            with sl.answers('y'):
                cat = w.Cat()
            with sl.answers(*reply) as a:
                cat.clean_raw()
            case.check(len(a.asked) == len(reply), 'asked', lambda: 'asked %d questions for answers %s' % (len(a.asked), reply))
            want = before
            if yes:
                base = os.path.relpath(os.path.join(w.d, 'raw'), w.top)
                want = {q: v for q, v in before.items() if not q.startswith(base + '/')}
                removed += len(before) - len(want)
                case.observe('raw_removed', len(before) - len(want))
            else:
                case.observe('refused_cleaning')
            case.note('clean_raw answered %s' % reply)
            w.compare('after clean_raw answered %s' % reply, want)
            trace.append('clean%d' % yes)
            continue
        snaps = [int(k) for k in rng.permutation(w.ids)[:int(rng.integers(1, w.n + 1))]]
        remake, overwrite, basic = (bool(rng.random() < p) for p in (0.25, 0.4, 0.3))
        new = w.file is None or remake
        todo = snaps if new else [k for k in snaps if overwrite or k not in w.file]
        if not all(w.has_raw(k) for k in todo):
            for k in todo:
                if not w.has_raw(k):
                    os.makedirs(os.path.join(w.d, 'raw'), exist_ok=True)
                    w.new_raw(k)
            before = w.tree()
        clean = bool(rng.random() < 0.35)
        ask = bool(rng.random() < 0.7)
        yes = bool(rng.random() < 0.6)
        case.note('format %s remake=%s overwrite=%s basic=%s clean=%s/%s/%s' % (snaps, remake, overwrite, basic, clean, ask, yes))
        asked_for = list(snaps)
        if rng.random() < .2:       # snapshots that do not exist are skipped
            asked_for.insert(int(rng.integers(len(asked_for) + 1)), int(rng.choice([-1, w.ids[-1] + 1, w.ids[-1] + 7])))
            case.observe('missing_snapshots')
        asked_for = asked_for[0] if len(asked_for) == 1 and rng.random() < .5 else asked_for if rng.random() < .7 else np.array(asked_for)  # of any kind
        with sl.answers('y'):
            cat = w.Cat(snaps=asked_for)
        with sl.answers('?', 'y' if yes else 'n') as a:
            cat.format(remake=remake, overwrite=overwrite, basic=basic, realtime_clean_raw=clean, realtime_clean_raw_check=ask)
        case.check(bool(a.asked) == (clean and ask), 'asked', lambda: 'asked %s for clean=%s check=%s' % (a.asked, clean, ask))
        want = before
        if not (clean and ask and not yes):
            if new:
                names = BASIC if basic else list(UNITS)
                w.file = {}
            else:
                first = sorted('Snapshot %d' % k for k in w.file)[0]
                names = BASIC + [n for n in w.file[int(first.split()[1])] if n in UNITS and n not in BASIC]
            for k in todo:
                w.file[k] = w.formatted(k, names)
                if clean:
                    n0 = len(want)
                    want = w.drop_raw(want, k)
                    removed += 1
                    case.observe('raw_removed', n0 - len(want))
            changed += bool(todo)
            case.observe('formats')
            if not new:
                case.observe('additions')
        else:
            case.observe('refused_cleaning')
        trace.append(('format', len(todo), remake, overwrite, basic, clean, yes))
        w.compare(case.log[-1], want)
    case.check(not any('REFUSED' in c for c in case.build.shell_calls), 'containment', lambda: 'tried to remove %s' % case.build.shell_calls)
    if changed:
        case.nontrivial(trace, w.d[-5:])
    case.sample('%r: %s' % (os.path.basename(w.d), trace))


def interrupted(case):
    """Interrupted at any point, a formatting run has lost nothing, and running it again completes it."""
    import vkit
    rng = case.rng
    w = World(case)
    allsnaps = list(w.ids)
    first = [int(k) for k in rng.permutation(w.ids)[:int(rng.integers(1, w.n))]]
    mode = ['new', 'add', 'replace', 'replace_clean'][int(rng.integers(4))]
    basic = bool(rng.random() < .3)
    with sl.answers('y'):
        cat = w.Cat()
    names = BASIC if basic else list(UNITS)
    kw = {'basic': basic}
    if mode != 'new':
        with sl.answers('y'):
            pre = w.Cat(snaps=first)
        pre.format(basic=basic)
        w.file = {k: w.formatted(k, names) for k in first}
        w.compare('before', w.tree())
    old = dict(w.file or {})
    if mode in ('replace', 'replace_clean'):
        for k in allsnaps:
            w.new_raw(k)
        kw['overwrite'] = True
    clean = mode == 'replace_clean' or (mode != 'replace' and rng.random() < .6)
    if clean:
        kw.update(realtime_clean_raw=True, realtime_clean_raw_check=False)
    p = os.path.join(w.d, 'data.hdf5')
    good = {k: [w.formatted(k, names)] + ([old[k]] if k in old else []) for k in allsnaps}
    if mode == 'add':
        for k in old:
            good[k] = [old[k]]
    todo = allsnaps if mode != 'add' else [k for k in allsnaps if k not in old]

    def whole(f, k, versions):
        g = 'Snapshot %d' % k
        if g not in f or 'metadata' not in f[g].attrs:
            return False
        got = hl.file_state(p, g)
        for want in versions:
            if set(got) == set(want) and all(
                    got[n][0].shape == v.shape and np.allclose(got[n][0], v, rtol=1e-6) and got[n][1:] == (u, hd) for n, (v, u, hd) in want.items()):
                return True
        return False
    size = 220 + 110 * len(todo)
    leftover = set()  # formatted, interrupted before the raw data were deleted
    for attempt in range(3):
        before = w.tree()
        have = {k: w.has_raw(k) for k in allsnaps}
        lines = int(rng.integers(1, size)) if rng.random() < .85 else int(rng.integers(1, 60))
        with sl.answers('y'), vkit.Interrupt(case.build, lines, 'siminterface/_rawsiminterface.py', cap=30) as i:
            w.Cat(snaps=[k for k in allsnaps if w.has_raw(k) or k not in todo]).format(**kw)
        case.note('%s, basic %s, deleting raw %s: interrupted at line %d (%s): %s' % (mode, basic, clean, lines, i.where, i.fired))
        if i.fired:
            case.observe('interrupted_runs')
        gone, kept = [], []
        with (h5py.File(p, 'r') if os.path.exists(p) else h5py.File('none', 'w', driver='core', backing_store=False)) as f:
            for k in allsnaps:
                ok = whole(f, k, good[k])
                raw = w.has_raw(k)
                if not raw:
                    gone.append(k)
                elif ok:
                    kept.append(k)  # interrupted between the two
                case.check(ok or raw, 'lost', lambda: '%s: snapshot %d is neither raw nor formatted whole' % (case.log[-1], k))
                if k in old and k not in todo:
                    case.check(ok, 'others', lambda: '%s: snapshot %d was not asked for, and changed' % (case.log[-1], k))
                case.observe('snapshots_kept')
        want = before
        for k in gone:
            case.check(clean and k in todo, 'removed', lambda: '%s: raw data of snapshot %d were removed' % (case.log[-1], k))
            want = w.drop_raw(want, k)
        case.check(w.tree() == want, 'tree', lambda: '%s: other files changed' % case.log[-1])
        if not i.fired:
            break
        leftover.update(kept)
        if mode == 'replace_clean':
            return case.nontrivial(mode, lines, w.n)
    left = [k for k in allsnaps if w.has_raw(k) or mode == 'replace']
    with sl.answers('y'):
        again = w.Cat(snaps=[k for k in allsnaps if k in left or k not in todo])
    want = w.tree()
    if mode == 'replace_clean':
        kw.pop('overwrite')
    again.format(**kw)
    w.file = {k: good[k][0] for k in allsnaps}
    for k in allsnaps:
        if clean and k in todo and k not in leftover:
            want = w.drop_raw(want, k)
    w.compare('%s; completed' % case.log[-1], want)
    case.observe('completed_runs')
    case.nontrivial(mode, basic, clean, w.n, case.log[-1])
    case.sample('; '.join(case.log))


def shipped_cleaning(case):
    """Raw data of the supported simulations: what belongs to the snapshots formatted is removed, nothing else."""
    import rawlib as rl
    from simim.siminterface import IllustrisCatalogs, UchuuCatalogs, UniversemachineCatalogs
    rng = case.rng
    kind = case.index % 3
    d = sl.fresh_dir(case, 'raw with space' if rng.random() < 0.5 else 'raw')
    raw = os.path.join(d, 'raw')
    os.mkdir(raw)
    open(os.path.join(raw, 'unrelated'), 'w').write('x')
    expect_gone = []
    with sl.answers('y'):
        if kind == 0:
            names = ['sfr_catalog_%.6f.txt' % a for a in (0.2, 0.5, 0.9)]
            case.build.http = lambda url, *a, **k: rl.Response(rl.listing(names, rng))
            for n in names:
                rl.write_um_text(os.path.join(raw, n), rl.um_columns(rng, 5, 250.0), rng)
            snaps = [int(k) for k in rng.permutation(3)[:int(rng.integers(1, 3))]]
            cat = UniversemachineCatalogs('UniverseMachine-BolshoiPlanck', path=d, snaps=snaps)
            expect_gone = [names[k] for k in snaps]
        elif kind == 1:
            names = ['Uchuu_UM_z%s_data1.h5' % z for z in ('2p00', '1p00', '0p50')]
            case.build.http = lambda url, *a, **k: rl.Response(rl.listing(names, rng))
            for n in names:
                c = rl.um_columns(rng, 5, 2000.0)
                c['Mvir'], c['desc_id'] = c['m'], c['descid']
                for df in range(1, 13):
                    with h5py.File(os.path.join(raw, n.replace('data1', 'data%d' % df)), 'w') as f:
                        for q in rl.UCHUU_FILE.get(df, []):
                            f.create_dataset(q, data=c[q])
            snaps = [int(k) for k in rng.permutation(3)[:int(rng.integers(1, 3))]]
            cat = UchuuCatalogs('UniverseMachine-uchuu', path=d, snaps=snaps)
            expect_gone = [names[k].replace('data1', 'data%d' % df) for k in snaps for df in range(1, 13)]
        else:
            sim = 'TNG100-3-Dark'
            published = [50, 67, 99]

            def http(url, *a, **k):
                if url.rstrip('/').endswith('snapshots'):
                    return rl.Response(data=[{'number': s, 'redshift': (100 - s) / 50} for s in published])
                return rl.Response(data={'name': sim, 'boxsize': 75000., 'num_snapshots': 100, 'cosmology': 'x', 'omega_0': 0.3, 'omega_L': 0.7,
                                         'omega_B': 0.05, 'hubble': 0.7, 'num_files_groupcat': 3})
            case.build.http = http
            for s in published:
                cols = {n: np.abs(rng.normal(size=(5, len(v[0])) if len(v[0]) > 1 else 5)).astype('f4') for n, v in rl.ILL_BASE.items()}
                rl.write_illustris(raw, s, cols, 5, rng, True)
            snaps = [published[int(k)] for k in rng.permutation(3)[:int(rng.integers(1, 3))]]
            cat = IllustrisCatalogs(sim, 'key', path=d, snaps=snaps)
            expect_gone = ['groups_%03d' % s for s in snaps]
        before = set(os.listdir(raw))
        cat.download_meta()
        cat.format(remake=True, realtime_clean_raw=True)
        left = set(os.listdir(raw))
        case.check(left == before - set(expect_gone), 'shipped_cleaning', lambda: 'formatting snapshots %s removed %s, expected %s'
                   % (snaps, sorted(before - left), sorted(expect_gone)))
        case.observe('raw_removed', len(expect_gone))
        with h5py.File(d + '/data.hdf5', 'r') as f:
            case.check(set(f.keys()) == {'Snapshot %d' % s for s in snaps}, 'snapshots', lambda: 'formatted %s' % list(f.keys()))
    case.nontrivial(kind, snaps)


SCENARIOS = [('history', history, 120, 2000), ('shipped_cleaning', shipped_cleaning, 24, 200), ('interrupted', interrupted, 50, 500)]
MINIMUM = {'formats': 120, 'additions': 30, 'raw_removed': 150, 'refused_cleaning': 10, 'trees_compared': 200, 'datasets_compared': 2000, 'interrupted_runs': 60}
