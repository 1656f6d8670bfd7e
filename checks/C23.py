"""C23: a light cone says what it is: its record of what was asked for, its order
and redshift index, its volumes; and what does not fit is refused."""
import hashlib
import os
import signal

import numpy as np
import lclib as ll
import simlib as sl

PROPERTY = 'C23'
NEEDS_DATA = True
RULE = ('a case is a random simulation with a light cone or sphere; metadata, attributes, order and redshift index are compared with what was '
        'asked for and with its objects; volumes of it and of parts of it with the solid angle times the shell; or requests that '
        'do not fit, compared with the files before; told apart by light cone')
setup = ll.setup


def shell(s, z0, z1):
    d = [float(s.cosmo.comoving_distance(z).value) if z > 0 else 0.0 for z in (z0, z1)]
    return (d[1] ** 3 - d[0] ** 3) / 3


def make(case, kind=None):
    sphere = bool(case.rng.random() < 0.4) if kind is None else kind == 'sphere'
    if sphere:
        s = ll.sphere_sim(case)
        c = ll.sphere_spec(case, s)
        mk = ll.make_sphere(s, c, 'lc')
    else:
        s = ll.lc_sim(case)
        c = ll.cone_spec(case, s)
        mk = ll.make_cone(s, c, 'lc')
    n = int(case.rng.integers(1, 3))
    ll.build(case, s, mk, n)
    case.note(repr(c))
    return s, c, mk, n, sphere


def record(case):
    from simim.lightcone import LCHandler
    s, c, mk, n, sphere = make(case)
    total = 0
    for i, p in enumerate(ll.files(mk, n)):
        what = 'light cone %d' % i
        attrs, got, index = ll.read(p)
        h = LCHandler(s.name, 'lc', i)
        for where, md in (('file', attrs), ('handler', h.metadata)):
            case.check(str(md['parent sim']) == s.name and str(md['shape']) == c.mode, 'record', lambda: '%s: %s says %s, %s' % (what, where, md['parent sim'], md['shape']))
            for key, want in (('minimum redshift', c.zmin), ('maximum redshift', c.z1), ('mass cut', c.mass), ('cosmo_h', s.h),
                              ('cosmo_omega_matter', s.om), ('cosmo_omega_baryon', s.ob), ('box_edge', s.box)):
                case.close(float(md[key]), float(want), 'record', '%s: %s of the %s' % (what, key, where), rtol=1e-6)
            if not sphere:
                case.close([md['open angle'], md['aspect ratio']], [c.angle, c.aspect], 'record', '%s: angles of the %s' % (what, where), rtol=1e-9)
        case.check(h.shape == c.mode, 'attributes', 'shape')
        case.close([h.minimum_redshift, h.maximum_redshift], [c.zmin, c.z1], 'attributes', what + ': redshift limits', rtol=1e-6)
        case.close(h.cosmo.comoving_distance(1.0).value, s.cosmo.comoving_distance(1.0).value, 'attributes', what + ': cosmology', rtol=1e-9)
        if not sphere:
            case.close([h.open_angle, h.aspect_ratio], [c.angle, c.aspect], 'attributes', what + ': angles', rtol=1e-9)
        z = np.asarray(got['redshift'], float)
        case.check(bool(np.all(z[1:] >= z[:-1] - 1e-5)), 'order', what + ': objects are not in order of redshift')
        zi = index['redshift'].astype(float)
        case.check(bool(np.all(np.diff(zi) > 0)), 'index', what + ': redshifts of the index do not increase')
        for a, k in zip(zi, index['index']):
            lo, hi = int(np.sum(z <= a - 1e-5)), int(np.sum(z <= a + 1e-5))
            case.check(lo <= k <= hi, 'index', lambda: '%s: index of redshift %s is %s, there are %d objects up to there' % (what, a, k, lo))
        case.observe('indexed', np.sum(index['index'] > 0))
        total += len(z)
    case.nontrivial(repr(c), s.box, total)
    case.observe('objects', total)


def volumes(case):
    from simim.lightcone import LCHandler, LCIterator
    rng = case.rng
    s, c, mk, n, sphere = make(case)
    d = bool(rng.integers(2))
    h = LCHandler(s.name, 'lc', 0, in_h_units=d)
    if rng.random() < 0.3:
        h = LCIterator(s.name, 'lc', [0], in_h_units=d)
    for _ in range(6):
        in_h = [None, True, False][int(rng.integers(3))]
        f = s.h ** 3 if (d if in_h is None else in_h) else 1.0
        kw = {}
        z0, z1 = float(c.zmin), float(c.z1)
        if rng.random() < 0.5:
            z0 = kw['redshift_min'] = float(rng.uniform(z0, z1)) if rng.random() < 0.8 else z0
        if rng.random() < 0.5:
            z1 = kw['redshift_max'] = float(rng.uniform(z0, z1)) if rng.random() < 0.8 else z1
        fits = True
        if sphere:
            sky = 4 * np.pi / {'sphere': 1, 'hemisphere': 2, 'quarter': 4, 'eighth': 8}[c.mode]
            if rng.random() < 0.2:
                kw['shape'] = c.mode
        else:
            shape, angle, aspect = c.mode, c.angle, c.aspect
            if rng.random() < 0.6:
                shape = kw['shape'] = ['box', 'circle'][int(rng.integers(2))]
            if rng.random() < 0.7:
                angle = kw['open_angle'] = float(rng.uniform(0.3, 1.1)) * c.angle
            if rng.random() < 0.5:
                aspect = kw['aspect_ratio'] = float(rng.uniform(0.2, 1))
            if shape == 'box':
                sky = angle ** 2 * aspect
                if c.mode == 'box':
                    margins = [angle / c.angle, angle * aspect / (c.angle * c.aspect)]
                else:
                    margins = [angle * np.sqrt(1 + aspect ** 2) / c.angle]
            else:
                sky = np.pi * (angle / 2) ** 2
                if kw.get('aspect_ratio') is not None:
                    kw.pop('aspect_ratio')
                margins = [angle / c.angle, angle / (c.angle * c.aspect)]
            worst = max(margins)
            if abs(worst - 1) < 1e-6 and ('open_angle' in kw or 'aspect_ratio' in kw or 'shape' in kw) and shape != c.mode and c.aspect != 1:
                continue
            fits = worst < 1 + 1e-9
        what = 'volume(%s) of %r, in_h_units=%s' % (kw, c, in_h)
        if not fits:
            case.refuses('volume_too_wide', what + ': a region that does not fit is not refused', h.volume, in_h_units=in_h, **kw)
            case.observe('regions_refused')
        else:
            case.close(h.volume(in_h_units=in_h, **kw), sky * shell(s, z0, z1) * f, 'volume', what, rtol=2e-5, atol=1e-5 * sky * shell(s, 0, z1) * f * 1e-3)
            case.observe('volumes')
    # what is no part of it
    other = {'shape': str(rng.choice([x for x in ['box', 'circle', 'sphere', 'hemisphere', 'quarter', 'eighth'] if x != c.mode]))} if sphere \
        else {'shape': str(rng.choice(['sphere', 'hemisphere', 'quarter', 'eighth', 'hexagon', 'boxes']))}
    kinds = [other] + ([{'open_angle': float(rng.uniform(0.01, 0.5))}, {'aspect_ratio': float(rng.uniform(0.1, 1))}] if sphere else [])
    for kw in kinds:
        case.refuses('volume_no_part', 'volume(%s) of %r is not refused' % (kw, c), h.volume, **kw)
        case.observe('regions_refused')
    case.refuses('volume_beyond', 'the volume beyond the light cone is not refused', h.volume, redshift_max=float(c.z1) * 1.01 + 1e-3)
    if c.zmin > 0:
        case.refuses('volume_before', 'the volume before the light cone is not refused', h.volume, redshift_min=float(c.zmin) * 0.98)
        case.refuses('volume_before', 'the volume from redshift 0 on is not refused', h.volume, redshift_min=0)
    case.nontrivial(repr(c), s.box)


def tree(path):
    out = {}
    for base, dirs, names in os.walk(path):
        for f in names:
            with open(os.path.join(base, f), 'rb') as fh:
                out[os.path.relpath(os.path.join(base, f), path)] = hashlib.sha256(fh.read()).hexdigest()
    return out


def requests(case):
    """What cannot be done is refused, and costs nothing that was there."""
    from simim.lightcone import LCHandler, LCIterator, LCMaker, SphereMaker
    rng = case.rng
    s, c, mk, n, sphere = make(case, 'cone')
    before = tree(mk.lc_path)
    deg = np.degrees(c.angle)
    top = float(s.snaps['redshift_max'].max())
    size = np.degrees(s.box / ll.D(s, c.z1))

    def wide():
        # near the observer: a wide field that is smaller than the box
        angle = float(rng.uniform(30.5, 60))
        z = float(s.snaps['redshift_min'].min()) + 1e-4
        while np.radians(angle) * ll.D(s, z) > s.box:
            z /= 2
        LCMaker(s.name, 'lc', angle, 1, mode='circle', redshift_max=z, overwrite=True).build_lightcones(1, rng=rng)

    bad = [('a field larger than the box', lambda: LCMaker(s.name, 'lc', size * 1.02, 1, redshift_max=c.zmax, overwrite=True)),
           ('an unknown shape', lambda: LCMaker(s.name, 'lc', deg, 1, mode='hexagon', overwrite=True)),
           ('an aspect over 1', lambda: LCMaker(s.name, 'lc', deg, 1.5, overwrite=True)),
           ('redshift limits in the wrong order', lambda: LCMaker(s.name, 'lc', deg, 1, redshift_min=0.7 * top, redshift_max=0.6 * top, overwrite=True)),
           ('redshift limits in the wrong order', lambda: SphereMaker(s.name, 'lc', redshift_min=2e-3, redshift_max=1e-3, overwrite=True)),
           ('an unknown sphere', lambda: SphereMaker(s.name, 'lc', redshift_max=1e-3, mode='box', overwrite=True)),
           ('an unknown simulation', lambda: LCMaker('Millennium', 'lc', deg, 1, overwrite=True)),
           ('a simulation that is not there', lambda: LCMaker('BolshoiPlanck', 'lc', deg, 1, overwrite=True)),
           ('a name in use', lambda: ll.make_cone(s, c, 'lc', overwrite=False)),
           ('an unknown overwrite mode', lambda: ll.make_cone(s, c, 'lc', overwrite='maybe')),
           ('light cones of an unknown name', lambda: LCHandler(s.name, 'other', 0)),
           ('a light cone that is not there', lambda: LCHandler(s.name, 'lc', n)),
           ('light cones of an unknown simulation', lambda: LCHandler('BolshoiPlanck', 'lc', 0)),
           ('light cones that are not there', lambda: LCIterator(s.name, 'lc', [0, n])),
           # accepted by what is known without a line of sight, but there is none that fits
           ('a field that fits no line of sight', lambda: LCMaker(s.name, 'lc', 0.97 * size, 1, mode='box', redshift_max=c.zmax, overwrite=True).build_lightcones(1, rng=rng)),
           ('a field that fits no line of sight', wide)]
    for i in rng.permutation(len(bad)):
        what, f = bad[int(i)]
        left = signal.alarm(20)  # or it looks for a line of sight forever
        case.refuses('not_refused', '%r: %s is not refused' % (c, what), f)
        signal.alarm(left)
        case.check(tree(mk.lc_path) == before, 'refusal_changed_files', '%r: refusing %s changed the light cones' % (c, what))
    with sl.answers('what', 'n') as a:
        case.refuses('consent', '%r: light cones replaced without consent' % c, ll.make_cone, s, c, 'lc', overwrite='check')
        case.check(len(a.asked) == 2, 'consent', lambda: 'asked %d times' % len(a.asked))
    case.check(tree(mk.lc_path) == before, 'refusal_changed_files', '%r: light cones changed without consent' % c)
    case.observe('requests_refused', len(bad))
    # a name that is free needs no consent
    with sl.answers('n') as a:
        ll.make_cone(s, c, 'free', overwrite='check')
        ll.make_cone(s, c, 'free too', overwrite=False)
    case.check(not a.asked, 'consent', 'asked for consent to use a free name')
    # the largest field that fits
    ll.make_cone(s, c, 'lc', overwrite=True)
    LCMaker(s.name, 'edge', size * 0.995, 1, redshift_max=c.zmax, overwrite=True)
    case.nontrivial(repr(c))


def full(path):
    """Everything a light cone file holds, or None if it cannot be read."""
    import h5py
    out = {}
    try:
        with h5py.File(path, 'r') as f:
            attrs = dict(f.attrs)

            def visit(name, o):
                if isinstance(o, h5py.Dataset):
                    out[name] = o[()].tobytes()
            f.visititems(visit)
            if 'Lightcone Full' in f:
                out['keys'] = sorted(f['Lightcone Full'].keys())
    except OSError:
        return None, None
    return attrs, out


def interrupted(case):
    """A light cone that says it is finished is whole, and an addition that says it is
    complete too, whenever the work was interrupted; and it can then be done again."""
    import vkit
    rng = case.rng
    sphere = bool(rng.random() < 0.4)
    kw = {'n_halos': (100, 600)}
    if sphere:
        s = ll.sphere_sim(case, **kw)
        c = ll.sphere_spec(case, s)
        mk = lambda name: ll.make_sphere(s, c, name)
    else:
        s = ll.lc_sim(case, **kw)
        c = ll.cone_spec(case, s)
        mk = lambda name: ll.make_cone(s, c, name)
    n = int(rng.integers(1, 3))
    seed, old = int(rng.integers(1 << 30)), int(rng.integers(1 << 30))
    extra = [k for k in sorted(s.extra) if k.startswith('prop')]
    case.note(repr(c))
    ref = mk('ref')
    with vkit.Interrupt(case.build, None, 'lightcone/lcmaker.py') as cnt:
        ref.build_lightcones(n, rng=np.random.default_rng(seed))
    case.check(cnt.lines > 20, 'lines', 'building is not observed')
    want = [full(p) for p in ll.files(ref, n)]
    with vkit.Interrupt(case.build, None, 'lightcone/lcmaker.py') as cnt2:
        ref.add_properties(*extra)
    with vkit.Interrupt(case.build, None, 'lightcone/lcmaker.py') as cnt3:
        ref.add_pos_properties('v')
    want2 = [full(p) for p in ll.files(ref, n)]
    for a, _ in want + want2:
        case.check(a['finished'] is not False and str(a['finished']) not in ('False', '0'), 'finished', 'a whole light cone is not marked as finished')
        case.check(bool(a['status_initialized']) and bool(a['status_basic']), 'finished', 'a whole light cone is not marked as such')
    for a, _ in want2:
        case.check(bool(a['status_extra_initialized']) and bool(a['status_extra_completed']), 'completed', 'a complete addition is not marked as complete')
    m = mk('lc')
    before = [(None, None)] * n
    if rng.random() < 0.3:
        m.build_lightcones(n, rng=np.random.default_rng(old))
        before = [full(p) for p in ll.files(m, n)]
    for k in range(6):
        r = rng.random()
        at = int(rng.integers(1, cnt.lines + 1)) if r < .6 else int(rng.integers(1, 60)) if r < .75 else cnt.lines - int(rng.integers(0, 15))
        with vkit.Interrupt(case.build, at, 'lightcone/lcmaker.py') as i:
            m.build_lightcones(n, rng=np.random.default_rng(seed))
        if i.fired:
            case.observe('interrupted_builds')
        case.note('building interrupted at line %d of %d (%s)' % (at, cnt.lines, i.where))
        for j, p in enumerate(ll.files(m, n)):
            if not os.path.exists(p):
                continue
            a, got = full(p)
            if a is None or 'finished' not in a or str(a['finished']) in ('False', '0'):
                case.observe('unfinished')
                continue
            case.observe('finished')
            case.check(got in (want[j][1], before[j][1]), 'unfinished', lambda: 'light cone %d says it is finished, but is not whole after an interruption at line %d of %d' % (j, at, cnt.lines))
    m.build_lightcones(n, rng=np.random.default_rng(seed))
    for j, p in enumerate(ll.files(m, n)):
        case.check(full(p)[1] == want[j][1], 'again', 'light cone %d, made after interruptions, differs' % j)
    # additions
    for what, lines, f in (('add_properties', cnt2.lines, lambda: m.add_properties(*extra)), ('add_pos_properties', cnt3.lines, lambda: m.add_pos_properties('v'))):
        at = int(rng.integers(1, lines + 1))
        with vkit.Interrupt(case.build, at, 'lightcone/lcmaker.py') as i:
            f()
        if i.fired:
            case.observe('interrupted_additions')
        case.note('%s interrupted at line %d of %d (%s)' % (what, at, lines, i.where))
        for again in (False, True):
            if again:
                f()
            for j, p in enumerate(ll.files(m, n)):
                a, got = full(p)
                names = [k for k in got if k.startswith('Lightcone Full/') and k in want2[j][1]]
                case.check(all(got[k] == want2[j][1][k] for k in want[j][1] if k in got and k != 'keys'), 'others', 'light cone %d: other properties changed when %s was interrupted' % (j, what))
                if bool(a['status_extra_completed']):
                    bad = [k for k in names if got[k] != want2[j][1][k]]
                    case.check(not bad, 'incomplete', lambda: 'light cone %d says its additions are complete, but %s is not, after %s was interrupted at line %d of %d%s' % (
                        j, bad, what, at, lines, ' and done again' if again else ''))
                    case.observe('completed')
                if again:
                    case.check(bool(a['status_extra_completed']), 'completed', 'a complete addition is not marked as complete')
    case.nontrivial(repr(c), cnt.lines)
    case.sample('; '.join(case.log))


SCENARIOS = [('interrupted', interrupted, 30, 250), ('record', record, 80, 900), ('volumes', volumes, 60, 600), ('requests', requests, 16, 100)]
MINIMUM = {'indexed': 800, 'volumes': 120, 'regions_refused': 30, 'requests_refused': 180, 'objects': 5000, 'interrupted_additions': 30, 'interrupted_builds': 90}
