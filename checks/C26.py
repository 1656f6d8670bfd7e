"""C26: sets of light cones can be made again from the same random numbers, and
looked at together as one by one."""
import os
import shutil

import h5py
import numpy as np
import lclib as ll
import simlib as sl

PROPERTY = 'C26'
NEEDS_DATA = True
RULE = ('a case is a random simulation and a set of 1-4 light cones or spheres, made twice from the same and once from other random numbers; '
        'or a set handled by an iterator next to single handlers of a copy of the set through a random history; or a mixed set; '
        'told apart by light cones and operations')
setup = ll.setup


def contents(path, skip=('created', 'finished')):
    out = {}

    def visit(name, o):
        if isinstance(o, h5py.Dataset):
            out[name] = (o.dtype.str, o.shape, o[()].tobytes(), repr(sorted((k, str(v)) for k, v in o.attrs.items())))
    with h5py.File(path, 'r') as f:
        f.visititems(visit)
        for k in f.attrs:
            if k not in skip:
                v = f.attrs[k]
                out['attr ' + k] = v.tobytes() if isinstance(v, (np.ndarray, np.generic)) else repr(v)
    return out


def same(case, a, b, key, what):
    x, y = contents(a), contents(b)
    case.check(set(x) == set(y), key, lambda: '%s: %s in one only' % (what, sorted(set(x) ^ set(y))))
    for k in x:
        case.check(x[k] == y[k], key, lambda: '%s: %s differs' % (what, k))
    case.observe('compared', len(x))


def spec(case):
    rng = case.rng
    if rng.random() < 0.4:
        s = ll.sphere_sim(case, n_halos=(100, 1000))
        c = ll.sphere_spec(case, s)
        return s, c, lambda name, **kw: ll.make_sphere(s, c, name, **kw)
    s = ll.lc_sim(case, n_halos=(100, 1500))
    c = ll.cone_spec(case, s)
    return s, c, lambda name, **kw: ll.make_cone(s, c, name, **kw)


def orientation(path):
    with h5py.File(path, 'r') as f:
        return [tuple(np.ravel(f.attrs[k]).tolist()) for k in ('start position',)] + \
            [np.ravel(f.attrs[k]).tolist() for k in ('box flips', 'line of sight vector', 'position angle') if k in f.attrs]


def reproducible(case):
    rng = case.rng
    s, c, mk = spec(case)
    n = int(rng.integers(1, 5))
    seed = int(rng.integers(1 << 30))
    extra = sorted(k for k in s.extra if k.startswith('prop'))
    sets = []
    again = rng.random() < 0.5
    state = np.random.get_state()[1].copy()
    for name, sd in (('lc', seed), ('other', seed + 1), ('lc2', seed)):
        m = mk(name)
        if name == 'lc2' and again:  # into the place of older light cones, made by the same maker
            ll.build(case, s, m, n, seed=seed + 2)
            m.add_pos_properties('v')
            if rng.random() < 0.5:
                m = mk(name)
        np.random.seed(int(rng.integers(1000)))
        state = np.random.get_state()[1].copy()
        ll.build(case, s, m, n, seed=sd)
        case.check(np.array_equal(state, np.random.get_state()[1]), 'global_random_numbers', 'making light cones draws from the global random numbers')
        if extra:
            m.add_properties(*extra)
        m.add_pos_properties('v')
        sets.append(ll.files(m, n))
    for i in range(n):
        same(case, sets[0][i], sets[2][i], 'same_numbers', 'light cone %d made twice from the same random numbers' % i)
        case.check(orientation(sets[0][i]) != orientation(sets[1][i]), 'other_numbers', 'light cone %d is the same for other random numbers' % i)
        for j in range(i):
            case.check(orientation(sets[0][i])[0] != orientation(sets[0][j])[0], 'repeated', 'light cones %d and %d of a set start at the same place' % (j, i))
    # without random numbers given, no two builds are alike
    m = mk('free')
    m.build_lightcones(1)
    first = orientation(ll.files(m, 1)[0])
    m.build_lightcones(1)
    case.check(first != orientation(ll.files(m, 1)[0]), 'default_numbers', 'two builds with default random numbers are the same')
    case.nontrivial(repr(c), n, seed)
    case.observe(c.mode)
    case.sample('%r: %d light cones, twice' % (c, n))


def mean(**kw):
    return {k: (np.sum(v) if np.ndim(v) else v) for k, v in kw.items()}


def equal(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal(p, q) for p, q in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc')
    return a == b or (a != a and b != b)


def attempt(f):
    try:
        return 'done', f()
    except Exception as e:
        return 'refused', type(e).__name__


def iterator(case):
    from simim.galprops import Prop
    from simim.lightcone import LCHandler, LCIterator
    rng = case.rng
    s, c, mk = spec(case)
    n = int(rng.integers(1, 5))
    m = mk('lc')
    ll.build(case, s, m, n)
    m.add_properties('uid')
    copy = os.path.join(os.path.dirname(m.lc_path), 'copy')
    shutil.copytree(m.lc_path, copy)
    with open(os.path.join(m.lc_path, 'notes.txt'), 'w') as f:
        f.write('light cones')
    d = bool(rng.integers(2))
    how = int(rng.integers(4))
    if how == 0:
        numbers = list(range(n))
        it = LCIterator(s.name, 'lc', in_h_units=d)
    elif how == 1:
        numbers = list(range(n))
        it = m.get_LCIterator(in_h_units=d)
    else:
        numbers = [int(i) for i in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
        it = LCIterator(s.name, 'lc', numbers if how == 2 else np.array(numbers), in_h_units=d)
    case.check(sorted(int(i) for i in it.lc_numbers) == sorted(numbers) and it.n_lcs == len(numbers), 'numbers',
               lambda: 'light cones %s, expected %s' % (it.lc_numbers, numbers))
    case.check(it.is_consistent, 'consistent', 'light cones of one set are said to be inconsistent')
    single = {str(i): LCHandler(s.name, 'copy', i, in_h_units=d) for i in numbers}
    names = ['mass', 'redshift', 'uid', 'pos_x', 'ra']
    made = []
    ops = []
    before = []
    for step in range(int(rng.integers(5, 12))):
        op = ['return', 'range', 'reset', 'stat', 'evo', 'make', 'units', 'write', 'delete', 'volume'][int(rng.integers(10))]
        name = (names + made)[int(rng.integers(len(names + made)))]
        in_h = [None, True, False][int(rng.integers(3))]
        if op == 'return':
            f = lambda h: h.return_property(name, use_all_inds=how > 1, in_h_units=in_h)
        elif op == 'range':
            i0 = numbers[0]
            v = np.sort(single[str(i0)].return_property(name, use_all_inds=True))
            lo = float(v[int(rng.integers(len(v)))]) if len(v) else 0.0
            re = bool(rng.integers(2))
            f = lambda h: h.set_property_range(name, lo, reset=re, in_h_units=in_h)
        elif op == 'reset':
            f = lambda h: h.set_property_range()
        elif op == 'stat':
            f = lambda h: h.eval_stat(mean, ['a', 'uid'], kw_remap={'a': name}, other_kws={'k': step}, give_args_in_h_units=in_h)
        elif op == 'evo':
            z = np.linspace(c.zmin, c.z1, int(rng.integers(2, 5)))
            f = lambda h: h.eval_stat_evo(z, mean, ['a', 'uid'], kw_remap={'a': name}, zmin_kw='zlo')
        elif op == 'make':
            new = 'made%d' % int(rng.integers(3))
            ow, us, k = bool(rng.integers(2)), bool(rng.integers(2)), float(rng.normal())
            f = lambda h: h.make_property(Prop(new, lambda uid: uid * k, ['uid'], h_dependence=-1), overwrite=ow, use_all_inds=us)
            made = sorted(set(made) | {new})
        elif op == 'units':
            u = bool(rng.integers(2))
            f = lambda h: h.set_in_h_units(u)
        elif op == 'write':
            f = lambda h: h.write_property(name, overwrite=False)
        elif op == 'delete':
            if not made:
                continue
            gone = made[int(rng.integers(len(made)))]
            f = lambda h: h.delete_property(gone)
        else:
            f = lambda h: h.volume()
        want = {k: attempt(lambda: f(h)) for k, h in single.items()}
        got = attempt(lambda: f(it))
        ops.append(op)
        what = 'after %s: ' % ops
        if any(w[0] == 'refused' for w in want.values()):
            case.check(got[0] == 'refused' or op == 'volume', 'refusal', what + 'the set accepts what a single light cone refuses')
            case.observe('refused')
            if len(set(w[0] for w in want.values())) > 1 or len(want) > 1:
                return  # a refusal can leave some done
            continue
        if op == 'volume':
            v = want[str(it.lc_numbers[0])][1]
            case.check(got[0] == 'done' and got[1] == v, 'volume', lambda: what + 'volume %s, expected %s' % (got, v))
            continue
        case.check(got[0] == 'done', 'refused', lambda: what + 'refused: %s' % (got,))
        case.check(set(got[1]) == set(want), 'keys', lambda: what + 'results for %s, expected %s' % (sorted(got[1]), sorted(want)))
        for k in want:
            case.check(equal(got[1][k], want[k][1]), 'results', lambda: what + 'light cone %s: %s, expected %s' % (k, got[1][k], want[k][1]))
            case.observe('results')
            case.check(it.lc_handlers[k].nhalos_active == single[k].nhalos_active, 'selection', what + 'selections differ')
        # what was returned before stays what it was
        for n_op, (was, w) in enumerate(before):
            case.check(set(was) == set(w) and all(equal(was[k], w[k][1]) for k in w), 'kept_results', lambda: what + 'the results of an earlier call (%d) have changed' % n_op)
            case.observe('kept_results')
        before.append((got[1], want))
        case.observe('operations')
    for i in range(n):
        same(case, os.path.join(m.lc_path, 'lc_%04d.hdf5' % i), os.path.join(copy, 'lc_%04d.hdf5' % i), 'files', 'files after %s' % ops)
    case.nontrivial(repr(c), ops, numbers)


def mixed(case):
    from simim.lightcone import LCHandler, LCIterator
    rng = case.rng
    s, c, mk = spec(case)
    sphere = c.mode not in ('box', 'circle')
    m = mk('lc')
    ll.build(case, s, m, 2)
    m.add_properties('uid')
    # another set that differs in one respect
    import copy
    b = copy.copy(c)
    how = ['zmin', 'zmax', 'mode', 'angle', 'aspect'][int(rng.integers(3 if sphere else 5))]
    if how == 'zmin':
        b.zmin = c.zmin * 0.5 + 0.25 * c.z1
    elif how == 'zmax':
        b.z1 = b.zmax = c.z1 * 0.9 + 0.1 * c.zmin
    elif how == 'mode':
        if sphere:
            b.mode = {'sphere': 'hemisphere', 'hemisphere': 'quarter', 'quarter': 'sphere', 'eighth': 'eighth'}[c.mode]
        else:
            b.mode = {'box': 'circle', 'circle': 'box'}[c.mode]
    elif how == 'angle':
        b.angle = c.angle * 0.9
    else:
        b.aspect = c.aspect * 0.9
    if (how == 'mode' and c.mode == 'eighth') or (how == 'aspect' and c.mode == 'circle'):
        how, b.zmin = 'zmin', c.zmin * 0.5 + 0.25 * c.z1
    m2 = ll.make_sphere(s, b, 'other') if sphere else ll.make_cone(s, b, 'other')
    ll.build(case, s, m2, 1)
    # ... takes any place among them
    odd = int(rng.integers(3))
    if odd < 2:
        shutil.move(os.path.join(m.lc_path, 'lc_%04d.hdf5' % odd), os.path.join(m.lc_path, 'lc_0002.hdf5'))
    shutil.copy(ll.files(m2, 1)[0], os.path.join(m.lc_path, 'lc_%04d.hdf5' % odd))
    same = [i for i in range(3) if i != odd]
    some = [None, [int(i) for i in rng.permutation(3)], [odd, same[0]], [same[1], odd]][int(rng.integers(4))]
    case.refuses('mixed', 'a set of light cones %s of which %d differs in %s' % (some, odd, how), lambda: LCIterator(s.name, 'lc', some))
    it = LCIterator(s.name, 'lc', some, require_consistent=False)
    case.check(not it.is_consistent, 'inconsistent', 'light cones that differ in %s are said to be consistent' % how)
    case.refuses('mixed_volume', 'the volume of a mixed set', lambda: it.volume())
    k = int(rng.choice(some if some else 3))
    case.check(it.volume(number=k) == LCHandler(s.name, 'lc', k).volume(), 'volume', 'volume of light cone %d in a mixed set' % k)
    case.refuses('unknown_volume', 'the volume of a light cone that is not there', lambda: it.volume(number=7))
    it = LCIterator(s.name, 'lc', same)
    case.check(it.is_consistent, 'consistent', 'the light cones of one set are said to be inconsistent')
    case.check(it.volume(number=same[1]) == it.volume() == LCHandler(s.name, 'lc', same[0]).volume(), 'volume', 'volume of a set')
    case.refuses('unknown_volume', 'the volume of a light cone that is not part of the set', lambda: it.volume(number=odd))
    case.refuses('unknown', 'a light cone that is not there', lambda: LCIterator(s.name, 'lc', [0, 5]))
    case.refuses('unknown', 'a set that is not there', lambda: LCIterator(s.name, 'nothing'))
    case.refuses('unknown', 'a light cone that is not there', lambda: LCHandler(s.name, 'lc', 5))
    case.refuses('unknown', 'a simulation without light cones', lambda: LCIterator('Illustris-3', 'lc'))
    case.observe('mixed_sets')
    case.nontrivial(repr(c), how)


def orientations(case):
    """Where the light cones of a set lie: anywhere in the box, in any direction the package allows."""
    from scipy import stats
    rng = case.rng
    sphere = case.index % 2 == 1
    n = 160
    if sphere:
        s = ll.sphere_sim(case, n_halos=(3, 10))
        c = ll.sphere_spec(case, s)
        m = ll.make_sphere(s, c, 'lc')
    else:
        s = ll.lc_sim(case, n_snaps=1, n_halos=(3, 10))
        c = ll.cone_spec(case, s)
        m = ll.make_cone(s, c, 'lc')
    seed = int(rng.integers(1 << 30))
    ll.build(case, s, m, n, seed=seed)
    attrs = []
    for p in ll.files(m, n):
        with h5py.File(p, 'r') as f:
            attrs.append({k: np.asarray(f.attrs[k]) for k in ('start position', 'box flips', 'line of sight vector', 'position angle', 'line of sight transformation matrix',
                                                             'position angle transformation matrix') if k in f.attrs})
    what = '%d light cones %r' % (n, c)
    start = np.array([a['start position'] for a in attrs])
    flips = np.array([a['box flips'] for a in attrs])
    case.check(bool(np.all((start >= 0) & (start < s.box))), 'start', what + ': starting points outside the box')
    for d in range(3):
        case.check(stats.kstest(start[:, d] / s.box, 'uniform').pvalue > 1e-7, 'start', lambda: '%s: starting points along axis %d are not spread over the box' % (what, d))
        case.check(set(flips[:, d]) == {-1, 1} and 40 < np.sum(flips[:, d] == 1) < 120, 'flips', lambda: '%s: flips along axis %d: %s' % (what, d, flips[:, d]))
    for x in (start, flips):
        r = np.corrcoef(x.T)
        case.check(bool(np.all(np.abs(r - np.eye(3)) < 0.45)), 'independent', lambda: '%s: axes are correlated: %s' % (what, r))
    case.check(len({tuple(x) for x in start.tolist()}) == n, 'repeated', what + ': starting points are repeated')
    if not sphere:
        pa = np.array([float(a['position angle']) for a in attrs])
        case.check(stats.kstest(pa / (2 * np.pi), 'uniform').pvalue > 1e-7, 'angle', what + ': position angles are not spread over a turn')
        los = np.array([a['line of sight vector'] for a in attrs])
        case.close(np.linalg.norm(los, axis=1), np.ones(n), 'line_of_sight', what + ': length of the line of sight', rtol=1e-9)
        case.check(len({tuple(x) for x in los.tolist()}) == n and bool(np.all(los.std(axis=0) > 1e-3)), 'line_of_sight', what + ': lines of sight are repeated')
        for a in attrs:
            for key in ('line of sight transformation matrix', 'position angle transformation matrix'):
                q = a[key]
                case.close(q @ q.T, np.eye(3), 'rotation', '%s: %s keeps lengths' % (what, key), atol=1e-9)
            # the line of sight becomes the direction of the cone
            case.close(a['line of sight transformation matrix'] @ a['line of sight vector'], [1, 0, 0], 'rotation', what + ': the line of sight', atol=1e-9)
            case.close(a['position angle transformation matrix'] @ np.array([1., 0, 0]), [1, 0, 0], 'rotation', what + ': the position angle turns about the line of sight', atol=1e-9)
            # never along an axis or a face of the box, where periodic images would repeat
            case.check(bool(np.all(np.abs(a['line of sight vector']) > np.sin(np.radians(.5)))), 'line_of_sight', lambda: '%s: line of sight %s along a face of the box' % (what, a['line of sight vector']))
        # the field keeps clear of the axes, as seen in two of the faces
        r = 0.5 * c.angle * (np.sqrt(1 + c.aspect ** 2) if c.mode == 'box' else 1)
        for k, least, most in ((1, r + np.radians(1), np.pi / 2 - 3 * r - np.radians(1)), (2, 3 * r, np.pi / 2 - 3 * r)):
            t = np.arctan2(los[:, 0], los[:, k])
            case.check(bool(np.all((t > least - 1e-9) & (t < most + 1e-9))), 'line_of_sight',
                       lambda: '%s: lines of sight %s along the axes' % (what, los[(t <= least) | (t >= most)][:3]))
        case.observe('lines_of_sight', n)
    case.observe('orientations', n)
    case.nontrivial(repr(c), seed)
    case.sample(what)


SCENARIOS = [('orientations', orientations, 6, 60), ('reproducible', reproducible, 50, 500), ('iterator', iterator, 70, 800), ('mixed', mixed, 40, 400)]
MINIMUM = {'kept_results': 300, 'compared': 1500, 'results': 300, 'operations': 200, 'mixed_sets': 35, 'refusals_observed': 200, 'orientations': 480}
