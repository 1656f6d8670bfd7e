"""C27: data are found again where they were put, in every later session, and
places are only replaced with consent."""
import os
import shutil

import numpy as np
import simlib as sl

PROPERTY = 'C27'
NEEDS_DATA = True
RULE = ('a case is a random history of setting up data directories, registering places of simulations, light cones and properties (created or '
        'given; relative, with spaces and other characters), with consent, refusal and nonsense as answers; after every step a new session and '
        'the files are compared with a model; told apart by the steps')

NAMES = ['plain', 'with space', ' lead', 'double  space', 'ünï', 'a=b#c', "quo'te", 'dots.hdf5', 'trail ', 'tab\there', '$HOME', 'per%s{}cent', 'form\x0cfeed\x85\u2028', os.fsdecode(b'no\xfftext')]
BREAKS = ['two\nlines', '\nlead', 'return\rhere', 'both\r\n']     # not kept in the record; refused
SIMS = ['_testbox', 'TNG100-1', 'Illustris-3', 'UniverseMachine-SMDPL', 'UniverseMachine-uchuu']
ITEMS = ['behroozi13', 'b17__testbox', 'g13_TNG100-1']
KINDS = {'sims': ('simulations', '_newsimpath', SIMS), 'lcs': ('lightcones', '_newlcpath', SIMS), 'props': ('galprops', '_newproppath', ITEMS)}


class Asked(Exception):
    pass


class replies:
    """Scripted answers; running out of answers is a sign of an endless question."""

    def __init__(self, *r):
        self.r, self.n = list(r), 0

    def __enter__(self):
        import builtins
        self.old = builtins.input

        def fake(prompt=''):
            self.n += 1
            if not self.r:
                raise Asked(prompt)
            return self.r.pop(0)
        builtins.input = fake
        return self

    def __exit__(self, *a):
        import builtins
        builtins.input = self.old


def junk(rng, *final):
    """Answers with nonsense in between."""
    out = []
    for f in final:
        out += [['maybe', '', 'Y', 'yes', 'N', ' y'][int(rng.integers(6))] for _ in range(int(rng.integers(0, 3)))]
        out.append(f)
    return out


def tree(top):
    out = {}
    for d, ds, fs in os.walk(top):
        for x in ds:
            out[os.path.join(d, x)] = None
        for x in fs:
            with open(os.path.join(d, x), 'rb') as f:
                out[os.path.join(d, x)] = f.read()
    return out


class World:
    def __init__(self, case):
        self.case, self.rng = case, case.rng
        self.top = sl.fresh_dir(case, 'places')
        self.rootfile = os.path.join(case.build.site, 'simim', 'resources', 'rootpath.txt')
        self.old_root = open(self.rootfile).read() if os.path.exists(self.rootfile) else None
        if os.path.exists(self.rootfile):
            os.remove(self.rootfile)
        self.current = None
        self.reg = {}  # root -> kind -> name -> path
        self.steps = []

    def close(self):
        if self.old_root is not None:
            with open(self.rootfile, 'w') as f:
                f.write(self.old_root)
        os.chdir(self.case.build.cwd)

    def newdir(self):
        d = os.path.join(self.top, NAMES[int(self.rng.integers(len(NAMES)))] + str(len(os.listdir(self.top))))
        if self.rng.random() < 0.4:
            d = os.path.join(d, NAMES[int(self.rng.integers(len(NAMES)))].strip() or 'x')
        os.makedirs(d, exist_ok=True)
        return d

    def spell(self, d):
        """The same directory, written as a user may write it."""
        r = self.rng.random()
        if r < 0.2:
            os.chdir(os.path.dirname(d))
            return os.path.basename(d)
        if r < 0.3:
            return d + '/'
        if r < 0.4:
            return os.path.join(os.path.dirname(d), '.', os.path.basename(d))
        return d

    def look(self, what):
        """A new session knows what the model knows."""
        from simim._paths import _SimIMPaths
        case = self.case
        p = _SimIMPaths()
        case.check(p.root == self.current, 'root', lambda: '%s: data directory %r, expected %r' % (what, p.root, self.current))
        known = self.reg.get(self.current, {})
        for kind in KINDS:
            want = known.get(kind, {})
            got = getattr(p, kind)
            case.check(got == want, kind, lambda: '%s: places of %s are %s, expected %s' % (what, kind, got, want))
            case.observe('places', len(want))
        case.observe('sessions')
        if self.current is not None:
            for d in ('simulations', 'lightcones', 'galprops', '.paths'):
                case.check(os.path.isdir(os.path.join(self.current, 'simim_resources', d)), 'directories', '%s: no directory for %s' % (what, d))
        return p

    def setup(self):
        import simim
        rng, case = self.rng, self.case
        roots = sorted(self.reg)
        r = rng.random()
        if roots and r < 0.35:
            d = roots[int(rng.integers(len(roots)))]
            entry = self.spell(d)
        elif r < 0.5:
            d, entry = os.path.expanduser('~'), ''
        elif r < 0.6:
            d, entry = None, os.path.join(self.top, 'not there')
        else:
            d = self.newdir()
            entry = self.spell(d)
        os.makedirs(os.path.expanduser('~'), exist_ok=True)
        before = tree(self.top)
        what = 'set-up of %r' % entry
        if d is None:
            with replies(entry, *['y'] * 4):
                case.refuses('missing_directory', 'a data directory that does not exist', simim.setupsimim)
            case.check(tree(self.top) == before, 'untouched', 'a refused set-up changed files')
            return what + ' refused'
        other = self.current is not None and d != self.current
        # the question is also asked for other spellings of the same directory
        asks = self.current is not None and os.path.expanduser(entry or '~') != self.current
        replace, agree = rng.random() < 0.6, rng.random() < 0.7
        script = junk(rng, *(['y' if replace else 'n'] if asks else []), 'y' if agree else 'n')
        with replies(entry, *script) as q:
            try:
                with case.quiet():
                    simim.setupsimim()
            except Asked as e:
                case.fail('question', '%s: asked again after being answered %s: %s' % (what, script, e))
        case.check(not q.r, 'question', lambda: '%s: answers %s left over' % (what, q.r))
        new = d if (not asks or replace) else self.current
        if not agree:
            case.check(tree(self.top) == before, 'untouched', '%s: a set-up that was refused changed files' % what)
            case.observe('declined')
            return what + ' declined'
        if other and not replace:
            case.observe('declined')
        self.current = os.path.abspath(new)
        self.reg.setdefault(self.current, {k: {} for k in KINDS})
        case.observe('setups')
        return what

    def register(self):
        from simim._paths import _SimIMPaths
        rng, case = self.rng, self.case
        kind = sorted(KINDS)[int(rng.integers(3))]
        sub, method, names = KINDS[kind]
        name = names[int(rng.integers(len(names)))]
        p = self.look('before registering')
        what = '%s of %s' % (kind, name)
        if self.current is None:
            case.refuses('no_root', 'a place without a data directory', lambda: getattr(p, method)(name))
            return what + ' without data directory'
        known = self.reg[self.current][kind]
        mode = ['auto', 'given', 'asked', 'missing'][int(rng.integers(4))]
        check = rng.random() < 0.7
        d = self.newdir() if mode in ('given', 'asked') else None
        script = []
        asks = check and name in known
        keep = asks and rng.random() < 0.4
        if asks:
            script += junk(rng, 'n' if keep else 'y')
        entry = 'auto'
        if mode == 'given':
            entry = self.spell(d)
        elif mode == 'asked':
            entry = None
            if not keep:
                script.append(self.spell(d))
        elif mode == 'missing':
            entry = None
            if not keep:
                script.append(os.path.join(self.top, 'not there'))
        before = tree(self.top)
        with replies(*script) as q:
            def go():
                try:
                    getattr(p, method)(name, entry, check)
                except Asked as e:
                    case.fail('question', '%s: asked again after being answered: %s' % (what, e))
            if mode == 'missing' and not keep:
                case.refuses('missing_place', 'a place that does not exist', go)
                case.check(tree(self.top) == before, 'untouched', 'a refused place changed files')
                return what + ' missing'
            with case.quiet():
                go()
        case.check(not q.r, 'question', lambda: '%s: answers %s left over' % (what, q.r))
        if keep:
            case.check(tree(self.top) == before, 'untouched', '%s: a place that was kept changed files' % what)
            case.observe('declined')
            return what + ' kept'
        place = os.path.abspath(d) if d else os.path.join(self.current, 'simim_resources', sub, name)
        if mode == 'auto':
            case.check(os.path.isdir(place), 'created', '%s: %s was not created' % (what, place))
        known[name] = place
        case.check(getattr(p, kind).get(name) == place, 'this_session', lambda: '%s: this session looks at %s' % (what, getattr(p, kind).get(name)))
        now = tree(self.top)
        gone = [k for k in before if k not in now]
        case.check(not gone, 'untouched', lambda: '%s: removed %s' % (what, gone))
        case.observe('registered')
        return what + ' ' + mode

    def simulation(self):
        """Through the class users format simulations with."""
        from simim.siminterface._rawsiminterface import SimCatalogs
        rng, case = self.rng, self.case
        if self.current is None:
            return 'nothing'
        name = SIMS[int(rng.integers(len(SIMS)))]
        known = self.reg[self.current]['sims']

        class Any(SimCatalogs):
            allsnaps = np.arange(3)
        how = ['auto', 'given', 'temporary', 'missing'][int(rng.integers(4))]
        keep = rng.random() < 0.4
        what = 'simulation %s %s' % (name, how)
        if how == 'missing':
            before = tree(self.top)
            with replies('y', 'y'):
                case.refuses('missing_place', 'a simulation in a place that does not exist', lambda: Any(name, os.path.join(self.top, 'not there')))
                case.refuses('unknown_simulation', 'an unknown simulation', lambda: Any('no such', 'auto'))
            case.check(tree(self.top) == before, 'untouched', 'a refused simulation changed files')
            return what
        d = self.newdir() if how != 'auto' else None
        script = junk(rng, 'n' if keep else 'y') if how == 'given' and name in known else []
        with replies(*script) as q, case.quiet():
            try:
                c = Any(name, 'auto' if how == 'auto' else self.spell(d), 'all', how != 'temporary')
            except Asked as e:
                case.fail('question', '%s: asked %s' % (what, e))
        case.check(not q.r, 'question', lambda: '%s: answers %s left over' % (what, q.r))
        if how == 'auto':
            known.setdefault(name, os.path.join(self.current, 'simim_resources', 'simulations', name))
            want = known[name]
        else:
            want = d
            if how == 'given' and not (script and keep):
                known[name] = d
        case.check(c.path == want, 'simulation_place', lambda: '%s: looks at %r, expected %r' % (what, c.path, want))
        case.observe('simulations')
        return what


def unusable(case):
    """A place that cannot be recorded is refused and changes nothing, or is found again."""
    import simim
    from simim._paths import _SimIMPaths
    from simim.siminterface._rawsiminterface import SimCatalogs
    rng = case.rng
    w = World(case)

    class Any(SimCatalogs):
        allsnaps = np.arange(3)

    try:
        steps = []
        for _ in range(int(rng.integers(1, 4))):
            if w.current is None or rng.random() < .3:
                w.setup()
            elif rng.random() < .5:
                w.register()
            d = os.path.join(w.top, BREAKS[int(rng.integers(len(BREAKS)))] + str(len(os.listdir(w.top))))
            if rng.random() < .3:
                d = os.path.join(d, 'below')
            os.makedirs(d, exist_ok=True)
            before, root = tree(w.top), open(w.rootfile, 'rb').read() if os.path.exists(w.rootfile) else None
            p = _SimIMPaths()
            kind = (['root'] + sorted(KINDS) + ['catalogs'])[int(rng.integers(5))] if w.current else 'root'
            what = '%s at %r' % (kind, d)
            case.note(what)
            name = 'TNG100-2' if kind == 'catalogs' else KINDS[kind][2][0] if kind in KINDS else None
            try:
                with replies(*([d] + ['y'] * 3 if kind == 'root' else ['y'] * 3)), case.quiet():
                    if kind == 'root':
                        simim.setupsimim()
                    elif kind == 'catalogs':
                        Any(name, path=w.spell(d))
                    else:
                        getattr(p, KINDS[kind][1])(name, w.spell(d))
            except Exception:
                now = open(w.rootfile, 'rb').read() if os.path.exists(w.rootfile) else None
                case.check(tree(w.top) == before and now == root, 'untouched', what + ': a refused place changed files')
                case.observe('unusable_refused')
            else:
                q = _SimIMPaths()
                got = q.root if kind == 'root' else q.sims.get(name) if kind == 'catalogs' else getattr(q, kind).get(name)
                case.check(got == d, 'lost_place', lambda: '%s is looked for at %r' % (what, got))
                if kind == 'root':
                    w.current = d
                    w.reg.setdefault(d, {k: {} for k in KINDS})
                else:
                    w.reg[w.current]['sims' if kind == 'catalogs' else kind][name] = d
            w.look('after ' + what)
            steps.append(what)
        case.nontrivial(steps)
    finally:
        w.close()
        shutil.rmtree(os.path.join(os.path.expanduser('~'), 'simim_resources'), ignore_errors=True)


def history(case):
    w = World(case)
    try:
        w.look('at first')
        for _ in range(int(case.rng.integers(4, 14))):
            r = case.rng.random()
            step = w.setup if r < 0.3 or (w.current is None and r < 0.8) else w.register if r < 0.75 else w.simulation
            w.steps.append(step())
            w.look('after %s' % w.steps)
            case.observe('steps')
        case.nontrivial(w.steps)
        case.sample('; '.join(w.steps))
    finally:
        w.close()
        shutil.rmtree(os.path.join(os.path.expanduser('~'), 'simim_resources'), ignore_errors=True)


def moved(case):
    """Simulations and light cones in places of their own are found and used there."""
    from simim.lightcone import LCHandler, LCMaker
    from simim.siminterface import SimHandler
    from simim._paths import _SimIMPaths
    rng = case.rng
    w = World(case)
    try:
        d = w.newdir()
        with replies(d, 'y'), case.quiet():
            import simim
            simim.setupsimim()
        sims, truth = [], {}
        for name in ('_testbox', 'TNG100-1'):
            place = w.newdir()
            s = sl.make_sim(case, name=name, path=place, n_snaps=1, redshifts=[0.1], n_halos=int(rng.integers(20, 200)), box=80.0)
            truth[name] = s
            if rng.random() < 0.7:
                lc = w.newdir()
                with replies(), case.quiet():
                    _SimIMPaths()._newlcpath(name, lc)
            else:
                lc = os.path.join(d, 'simim_resources', 'lightcones', name)
            sims.append((name, place, lc))
        for name, place, lc in sims:
            h = SimHandler(name)
            case.check(h.path == place, 'simulation_place', lambda: '%s is looked for in %r, not %r' % (name, h.path, place))
            got = h.get_snap(0).return_property('uid')
            case.check(np.array_equal(got, truth[name].truth[0]['uid']), 'simulation_data', 'the halos of %s are those of another simulation' % name)
            setname = ['set', 'my set', 'set.1', 'a_b'][int(rng.integers(4))]
            with case.quiet():
                m = LCMaker(name, setname, 2.0, redshift_max=0.02, overwrite=False)
                m.redshift_max = 0.02
                m.build_lightcones(1, rng=np.random.default_rng(1))
            case.check(os.path.exists(os.path.join(lc, setname, 'lc_0000.hdf5')), 'light_cone_place', 'no light cone in %s' % os.path.join(lc, setname))
            case.check(LCHandler(name, setname, 0).metadata['name'] == name, 'light_cone_data', 'light cone of another simulation')
            before = tree(os.path.join(lc, setname))
            case.refuses('name_in_use', 'a name that is in use', lambda: LCMaker(name, setname, 2.0, redshift_max=0.02, overwrite=False))
            with replies(*junk(rng, 'n')):
                case.refuses('name_in_use', 'a name that is in use, with overwriting declined', lambda: LCMaker(name, setname, 2.0, redshift_max=0.02))
            case.check(tree(os.path.join(lc, setname)) == before, 'untouched', 'a refused light cone changed files')
            with replies(*junk(rng, 'y')), case.quiet():
                LCMaker(name, setname, 2.0, redshift_max=0.02)
            case.refuses('unknown', 'a simulation that is not there', lambda: SimHandler('Illustris-1'))
            case.observe('moved')
        case.nontrivial(sims)
    finally:
        w.close()


import lclib as ll
setup = ll.setup
SCENARIOS = [('history', history, 160, 2500), ('unusable', unusable, 60, 800), ('moved', moved, 24, 250)]
MINIMUM = {'steps': 800, 'sessions': 1000, 'places': 1000, 'registered': 150, 'declined': 60, 'setups': 150, 'moved': 40, 'unusable_refused': 40}
