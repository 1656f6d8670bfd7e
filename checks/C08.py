"""C08: copies are independent, and a saved grid comes back as it was."""
import os
import numpy as np
import gridlib as gl

PROPERTY = 'C08'
gl.VERY_LONG = .15
NEEDS_DATA = False
RULE = ('a case is one random grid in a random state (reshaped, in Fourier space, a power spectrum, without data), copied or '
        'saved and loaded, after which both are put through the same or different operations and compared; non-trivial when '
        'the grid holds data; told apart by state and geometry')
MINIMUM = {'copies': 150, 'property_copies': 30, 'saves': 100, 'overwrites_refused': 20, 'fourier_states': 20,
           'power_states': 20, 'inactive_states': 20, 'independence_checks': 200}


def random_state(case):
    """A grid in some state a user could have brought it to."""
    from simim.map.gridder import Grid
    rng = case.rng
    active = rng.random() < .85
    g, geom = gl.make_grid(rng, Grid, active=active, nmax=5)
    log = []
    if active:
        gl.fill(rng, g)
        pos, _ = gl.rand_positions(rng, geom, 5, outside=False)
        g.add_from_cat(pos, np.ones((5, 1)))
    for _ in range(int(rng.integers(0, 4))):
        i = int(rng.integers(g.n_dimensions))
        k = int(rng.integers(5))
        if k == 0:
            g.pad(i, 1, val=2.)
        elif k == 1:
            g.scale_axis(i, float(rng.uniform(.3, 3)), axunits=['same', 'megaparsec', None][int(rng.integers(3))])
        elif k == 2 and g.n_pixels[i] > 1:
            g.down_sample(i, 2)
        elif k == 3:
            g.add_new_prop()
        elif k == 4 and active and g.n_dimensions > 1:
            g.collapse_dimension(i, mode='sum')
        log.append(k)
    state = 'map'
    if not active:
        case.observe('inactive_states')
        state = 'inactive'
    elif rng.random() < .3:
        g.fourier_transform([int(i) for i in rng.permutation(g.n_dimensions)[:rng.integers(1, g.n_dimensions + 1)]])
        state = 'fourier'
        case.observe('fourier_states')
    elif rng.random() < .3:
        g = g.power_spectrum(ax=int(rng.integers(g.n_dimensions)))
        state = 'power'
        case.observe('power_states')
    case.note('%s grid, operations %s, cells %s' % (state, log, g.n_pixels))
    return g, state, log


def snapshot(g):
    G = gl.geometry_of(g)
    G['fourier_axunits'] = list(np.atleast_1d(g.fourier_axunits))
    G['grid_active'] = bool(g.grid_active)
    G['is_power_spectrum'] = bool(g.is_power_spectrum)
    if g.grid_active:
        G['n_objects'] = int(g.n_objects)
        G['grid'] = np.copy(g.grid)
    return G


def same(case, A, B, key, what, skip=(), exact=True):
    for k in A:
        if k in skip:
            continue
        if k not in B:
            case.fail(key, '%s: %s is missing' % (what, k))
        a, b = A[k], B[k]
        if k == 'grid':
            case.check(a.shape == b.shape and (np.array_equal(a, b, equal_nan=True) or (
                not exact and np.allclose(a, b, rtol=1e-9, atol=1e-11 * np.nanmax(np.abs(a), initial=0), equal_nan=True))), key,
                lambda: '%s: contents differ%s' % (what, '' if a.shape != b.shape else ' by up to %r of %r' % (np.nanmax(np.abs(a - b)), np.nanmax(np.abs(a)))))
        elif isinstance(a, list) and len(a) and isinstance(a[0], np.ndarray):
            case.check(len(a) == len(b) and all(len(x) == len(y) and np.allclose(x, y, rtol=1e-9, atol=1e-9 * (np.ptp(x) + 1e-300)) for x, y in zip(a, b)), key, lambda: '%s: %s is %s, expected %s' % (what, k, b, a))
        elif isinstance(a, np.ndarray):
            case.check(a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-12), key, lambda: '%s: %s is %s, expected %s' % (what, k, b, a))
        elif isinstance(a, list):
            case.check([None if x is None else (x if isinstance(x, bool) else str(x)) for x in a] == [None if x is None else (x if isinstance(x, bool) else str(x)) for x in b], key, lambda: '%s: %s is %s, expected %s' % (what, k, b, a))
        else:
            case.check(a == b, key, lambda: '%s: %s is %s, expected %s' % (what, k, b, a))


def disturb(rng, g, state):
    """Change everything about a grid."""
    if g.grid_active:
        g.grid[...] = g.grid * 0 + 7
    for a in list(g.axes) + list(g.axes_centers) + list(g.fourier_axes) + list(g.fourier_axes_centers):
        a += 1.5
    g.center_point += 3
    g.side_length *= 2
    g.pixel_size *= 2
    g.n_pixels += 1
    g.fourier_space[...] = ~g.fourier_space
    g.axunits = np.array(['x'] * len(g.axunits))


def legal_operation(rng, g, state, choice):
    """The same legal operation on any grid in this state."""
    i = int(choice[0] * int(g.n_dimensions))
    k = int(choice[1] * 5)
    if k == 0:
        g.scale_axis(i, 1.7)
    elif k == 1:
        g.pad(i, 2)
    elif k == 2:
        g.add_new_prop()
    elif state in ('map', 'fourier'):
        if k == 3:
            g.fourier_transform(i)
        elif not np.any(g.fourier_space):
            g.add_from_cat(np.array([[a[len(a) // 2] for a in g.axes_centers]]), np.array([[2.]]))
        else:
            g.sum_properties()
    elif state == 'power':
        g.sum_properties()
    return k


def copies(case):
    rng = case.rng
    g, state, log = random_state(case)
    A = snapshot(g)
    some = rng.random() < .5
    if some:
        props = [int(i) for i in rng.permutation(g.n_properties)[:rng.integers(1, int(g.n_properties) + 1)]]
        h = g.copy(props if len(props) > 1 or rng.random() < .5 else props[0])
        case.observe('property_copies')
        want = dict(A)
        want['n_properties'] = len(props)
        want['gridunits'] = [A['gridunits'][p] for p in props]
        if 'grid' in A:
            want['grid'] = A['grid'][..., props]
    else:
        h = g.copy()
        want = A
    case.check(h is not g, 'aliased', 'copy returned the grid itself')
    same(case, want, snapshot(h), 'copy', 'copy of a %s grid' % state)
    gl.monitor_geometry(case, h, 'copy')
    B = snapshot(h)
    # independence, both ways, after legal operations and after brute force
    for first, second, keep in ((h, g, A), (g, h, B)):
        d = first.copy()
        for _ in range(3):
            legal_operation(rng, d, state, (rng.random(), rng.random()))
            gl.monitor_geometry(case, d, 'operation on a copy')
        same(case, keep, snapshot(second), 'independent', 'grid after operations on its copy')
        case.observe('independence_checks')
    disturb(rng, h, state)
    same(case, A, snapshot(g), 'independent', 'grid after its copy was overwritten')
    c = g.copy_axes(int(rng.integers(1, 4)))
    C = snapshot(c)
    for k in ('center_point', 'side_length', 'pixel_size', 'n_pixels', 'axes', 'axes_centers', 'fourier_axes', 'fourier_axes_centers', 'axunits'):
        same(case, {k: A[k]}, C, 'copy_axes', 'copy of the axes')
    case.check(not c.grid_active and not np.any(c.fourier_space) and not c.is_power_spectrum, 'copy_axes', 'a copy of the axes has data or a state')
    gl.monitor_geometry(case, c, 'copy of the axes')
    disturb(rng, c, state)
    same(case, A, snapshot(g), 'independent', 'grid after a copy of its axes was overwritten')
    case.refuses('accepts_missing_property', 'copy of a missing property accepted', g.copy, [int(g.n_properties)])
    case.observe('copies')
    if state != 'inactive':
        case.nontrivial(state, tuple(A['n_pixels']), tuple(log), some)
    case.sample('%s grid of %s cells, operations %s' % (state, A['n_pixels'].tolist(), log))


def saves(case):
    from simim.map import LoadGrid
    rng = case.rng
    g, state, log = random_state(case)
    A = snapshot(g)
    name = os.path.join(case.build.cwd, 'grid_%d%s' % (case.index, ['.npz', '', '.map', '.v1.npz'][int(rng.integers(4))]))
    file = name if name.endswith('.npz') else name + '.npz'
    kw = {'compress': True} if rng.random() < .5 else {}
    g.save(name, **kw)
    same(case, A, snapshot(g), 'save_changes', 'grid after saving')
    case.check(os.path.exists(file), 'save_file', lambda: 'saving as %r left no file' % os.path.basename(name))
    h = LoadGrid(file)
    same(case, A, snapshot(h), 'load', 'loaded %s grid' % state)
    gl.monitor_geometry(case, h, 'loaded grid')
    content = open(file, 'rb').read()
    # an existing file survives unless asked otherwise
    case.refuses('overwrites', 'saving over an existing file without overwrite', h.save, name)
    case.check(open(file, 'rb').read() == content, 'overwrites', 'a refused save changed the file')
    case.observe('overwrites_refused')
    # both continue alike
    for _ in range(3):
        choice = (rng.random(), rng.random())
        legal_operation(rng, g, state, choice)
        legal_operation(rng, h, state, choice)
        same(case, snapshot(g), snapshot(h), 'continuation', 'loaded grid after the same operations', exact=False)
    g.save(name, overwrite=True)
    B = snapshot(g)
    same(case, B, snapshot(LoadGrid(file)), 'overwrite', 'grid saved over another')
    os.remove(file)
    case.observe('saves')
    if state != 'inactive':
        case.nontrivial(state, tuple(A['n_pixels']), tuple(log), bool(kw))


SCENARIOS = [
    ('copies', copies, 250, 6000),
    ('saves', saves, 200, 4000),
]
