"""C11: timestreams are the map at the detector's position plus the detector's own noise."""
import numpy as np
import instlib as il

PROPERTY = 'C11'
NEEDS_DATA = False
RULE = ('a case is one random mapped instrument sampled at random positions (inside, outside, repeated) with signal, noise or '
        'both; every sample is compared with the cell of the detector\'s own map at the offset position plus what its '
        'recorded noise function returned; non-trivial when at least two detectors or two fields are sampled; told apart by '
        'offsets, positions and mode')
MINIMUM = {'offsets_changed_afterwards': 50, 'kept_noise': 100, 'samples_compared': 5000, 'samples_outside': 500, 'noise_calls': 200, 'nearly_shared_offsets': 50, 'shared_offsets': 50, 'noise_only': 30, 'signal_only': 50}


def sampling(case):
    from simim.instrument import Instrument
    from simim.map.gridder import Grid
    rng = case.rng
    inst = Instrument(spatial_unit='rad', spectral_unit='Hz', flux_unit='Jy')
    dets, names = [], []
    for i in range(int(rng.integers(1, 6)) if rng.random() < .96 else int(rng.integers(10, 14))):
        d = il.Det(rng, i)
        if i and rng.random() < .5:
            d.share_offset(dets[int(rng.integers(i))])
            case.observe('shared_offsets')
        elif i and rng.random() < .5:
            d.nearly_share_offset(dets[int(rng.integers(i))], rng)
            case.observe('nearly_shared_offsets')
        name = 'd%d' % int(rng.integers(10 ** 6))
        if name in names:
            continue
        inst.add_detector(name=name, **d.arguments())
        if isinstance(d.given_offset, (list, np.ndarray)):
            d.given_offset[0] = d.given_offset[1] = 3.   # the caller's own business afterwards
            case.observe('offsets_changed_afterwards')
        dets.append(d)
        names.append(name)
    fnames, geoms = [], []
    for i in range(int(rng.integers(1, 3))):
        g = il.rand_field(rng, Grid, units=bool(rng.random() < .7))
        inst.add_field(g, name='f%d' % i)
        fnames.append('f%d' % i)
        geoms.append((np.asarray(g.center_point, float)[:2], np.asarray(g.pixel_size, float)[:2], np.asarray(g.n_pixels)[:2], np.asarray(g.side_length, float)[:2]))
    inst.map_fields(kernel_size=3)
    maps = {f: inst.maps[f].grid.copy() for f in fnames}
    npos = int(rng.choice([1, 2, 10, 60])) if rng.random() < .97 else int(rng.integers(300, 6000))
    cen, pix, n, side = geoms[0]
    pos = cen + rng.uniform(-.8, .8, size=(npos, 2)) * side
    if npos > 2:
        pos[1] = pos[0]
    mode = int(rng.integers(3))
    dt = float(rng.uniform(.01, 2))
    kw = [{'dt': dt}, {'sample_noise': False}, {'sample_signal': False, 'dt': dt}][mode]
    case.observe(['signal_and_noise', 'signal_only', 'noise_only'][mode])
    which = [] if rng.random() < .5 else [f for f in fnames if rng.random() < .7]
    ask = which or fnames
    for d in dets:
        d.noise.calls.clear()
    p0 = pos.copy()
    case.note('%d detectors, offsets %s, %d positions, %s' % (len(dets), [d.offset for d in dets], npos, kw))
    out = inst.sample_fields(pos, *which, **kw)
    case.check(np.array_equal(p0, pos), 'inputs_modified', 'the caller\'s positions were modified')
    if len(ask) > 1:
        case.check(isinstance(out, dict) and set(out) == set(ask), 'returns', 'several fields do not come back as a dictionary by field')
    else:
        out = {ask[0]: out}
    for f in ask:
        s = np.asarray(out[f])
        case.check(s.shape == (npos, len(dets)), 'shape', lambda: 'samples of shape %s for %d positions, %d detectors' % (s.shape, npos, len(dets)))
        i = fnames.index(f)
        for j, d in enumerate(dets):
            ref = np.zeros(npos)
            sure = np.ones(npos, bool)
            if mode != 2:
                ref, sure = il.sample_ref(maps[f][..., j], geoms[i][:3], pos + np.array(d.offset or (0, 0)))
            if mode != 1:
                ref = ref + il.Noise.expected(d.noise.level, npos, dt, **d.noise_kw)
            case.close(s[sure, j], ref[sure], 'sample', 'samples of detector %d of %d (offset %s, %s)' % (j, len(dets), d.offset, kw), rtol=1e-9, atol=1e-9)
            case.observe('samples_compared', int(sure.sum()))
            case.observe('samples_outside', int(np.isnan(ref).sum()))
    for d in dets:
        want = [] if mode == 1 else [(npos, dt, d.noise_kw.get('amp', 1.))] * len(ask)
        case.check(d.noise.calls == want, 'noise_calls', lambda: 'noise function called with %s, expected %s' % (d.noise.calls, want))
        case.observe('noise_calls', len(d.noise.calls))
    for d in dets:
        for (n, t, amp), v in d.noise.kept.items():
            case.check(np.array_equal(v, il.Noise.expected(d.noise.level, n, t, amp)), 'noise_modified', 'an array a noise function returned was modified')
            case.observe('kept_noise')
    for f in fnames:
        case.check(np.array_equal(inst.maps[f].grid, maps[f]), 'map_modified', 'sampling changed a map')
    again = inst.sample_fields(pos, *which, **kw)
    again = again if len(ask) > 1 else {ask[0]: again}
    for f in ask:
        case.check(np.array_equal(again[f], out[f], equal_nan=True), 'not_repeatable', 'sampling twice gives different timestreams with a repeatable noise')
    case.refuses('accepts_bad_positions', 'positions with three coordinates accepted', inst.sample_fields, np.zeros((2, 3)), dt=1.)
    case.refuses('accepts_no_dt', 'noise without a timestep accepted', inst.sample_fields, pos)
    case.refuses('accepts_nothing', 'neither signal nor noise accepted', inst.sample_fields, pos, sample_noise=False, sample_signal=False, dt=1.)
    case.refuses('accepts_missing_field', 'a field that does not exist accepted', inst.sample_fields, pos, 'nofield', dt=1.)
    if len(dets) > 1 or len(ask) > 1:
        case.nontrivial([d.offset for d in dets], npos, mode, tuple(ask))
    case.sample('%d detectors, %d fields, %d positions, mode %d' % (len(dets), len(ask), npos, mode))


def white(case):
    """The built-in noise: zero, or white with the documented level, from the generator given."""
    from simim.instrument import Instrument, white_noise, zero_noise
    from simim.map.gridder import Grid
    rng = case.rng
    seed = int(rng.integers(1 << 30))
    rms, bias, dt = float(rng.uniform(.1, 5)), float(rng.normal() * 10), float(10 ** rng.uniform(-3, 2))
    N = 20000
    a = white_noise(N, dt, rms=rms, bias=bias, rng=np.random.default_rng(seed))
    b = white_noise(N, dt, rms=rms, bias=bias, rng=np.random.default_rng(seed))
    case.check(np.array_equal(a, b), 'white_repeat', 'white noise does not follow the generator given')
    s = rms / np.sqrt(dt)
    case.check(a.shape == (N,) and abs(a.mean() - bias) < 6 * s / np.sqrt(N), 'white_mean', lambda: 'white noise of mean %g, bias %g' % (a.mean(), bias))
    case.check(abs(a.std() / s - 1) < 6 / np.sqrt(2 * N), 'white_rms', lambda: 'white noise of deviation %g, expected %g' % (a.std(), s))
    z = (a - a.mean()) / a.std()
    case.check(abs(np.mean(z[1:] * z[:-1])) < 6 / np.sqrt(N), 'white_correlated', 'consecutive white noise samples are correlated')
    case.check(np.array_equal(zero_noise(7, dt), np.zeros(7)), 'zero', 'zero noise is not zero')
    inst = Instrument()
    g = il.rand_field(rng, Grid, units=False)
    gen = np.random.default_rng(seed)
    sp, se = il.rand_spatial(rng), il.rand_spectral(rng)
    base = dict(spatial_response=sp[0], spatial_kwargs=sp[1], spectral_response=se[0], spectral_kwargs=se[1], nominal_frequency=100.)
    inst.add_detector(name='q', noise_function='none', **base)
    inst.add_detector(name='w1', noise_function='white', noise_kwargs={'rms': rms, 'bias': bias, 'rng': gen}, **base)
    inst.add_detector(name='w2', noise_function='white', noise_kwargs={'rms': rms, 'bias': bias}, **base)
    inst.add_detector(name='w3', noise_function='white', noise_kwargs={'rms': rms, 'bias': bias}, **base)
    inst.add_field(g)
    inst.map_fields(kernel_size=3)
    pos = np.repeat(np.array([[a[1] for a in il.axes_of(g)[:2]]]), 50, axis=0)
    sig = inst.sample_fields(pos, sample_noise=False)
    noise = inst.sample_fields(pos, sample_signal=False, dt=dt)
    both = inst.sample_fields(pos, dt=dt)
    case.check(np.all(noise[:, 0] == 0), 'zero', 'a detector without noise has noise')
    case.close(both[:, 0], sig[:, 0], 'sample', 'a detector without noise')
    case.check(not np.array_equal(noise[:, 1], noise[:, 2]) and not np.array_equal(noise[:, 2], noise[:, 3]), 'white_independent', 'detectors share their noise')
    case.check(not np.array_equal(both[:, 2] - sig[:, 2], noise[:, 2]), 'white_independent', 'two samplings share their noise')
    for j in (1, 2, 3):
        case.check(np.all(np.abs(noise[:, j] - bias) < 8 * s), 'white_rms', 'noise far outside its level')
    case.observe('noise_calls', 4)
    case.nontrivial('white', seed)


SCENARIOS = [('sampling', sampling, 300, 6000), ('white', white, 40, 500)]
