"""Reference model of instruments, detectors and fields."""
import numpy as np
from C07 import direct


def asym(dx, dy, freq, a=1., b=0.):
    """A beam that is not symmetric, so that flips and transposes show."""
    dx, dy, freq = (np.atleast_1d(np.asarray(v, float)) for v in (dx, dy, freq))
    x, y, f = dx.reshape(-1, 1, 1), dy.reshape(1, -1, 1), freq.reshape(1, 1, -1)
    return 1 / (1 + (x - .3 * a) ** 2 + 2 * (y + .5 * a) ** 2) * (1 + b * f / 100)


def ramp(freq, s=1.):
    return 1 + s * np.atleast_1d(np.asarray(freq, float)) / 100


def measured(dx, dy, freq, radius, value, stretch=1.):
    """A beam given as a table."""
    dx, dy, freq = (np.atleast_1d(np.asarray(v, float)) for v in (dx, dy, freq))
    r = np.sqrt(dx.reshape(-1, 1, 1) ** 2 + (stretch * dy.reshape(1, -1, 1)) ** 2)
    return np.interp(r, radius, value) * np.ones((1, 1, len(freq)))


def band(freq, at, value):
    """A spectral response given as a table."""
    return np.interp(np.atleast_1d(np.asarray(freq, float)), at, value)


def rand_spatial(rng):
    """(name or function handed over, kwargs, reference function)"""
    k = int(rng.integers(4))
    if k == 3:
        n = int(rng.integers(3, 7))
        kw = {'radius': np.arange(n) * float(rng.uniform(.5, 2)), 'value': np.linspace(1, .1, n) * rng.uniform(.8, 1, n)}
        if rng.random() < .3:
            kw = {k: v.tolist() for k, v in kw.items()}
        if rng.random() < .3:
            kw['stretch'] = float(rng.uniform(.5, 2))
        return measured, kw, lambda x, y, f, kw=dict(kw): measured(x, y, f, **kw)
    if k == 0:
        kw = {'fwhmx': float(rng.uniform(1, 3)), 'fwhmy': float(rng.uniform(1, 3))}
        if rng.random() < .4:
            kw.update(cx=float(rng.uniform(-1, 1)), cy=float(rng.uniform(-1, 1)))
        return str(rng.choice(['gauss', 'Gaussian'])), kw, lambda x, y, f, kw=dict(kw): gauss(x, y, f, **kw)
    if k == 1:
        kw = {'fwhmx': float(rng.uniform(1, 3)), 'fwhmy': float(rng.uniform(1, 3)), 'freq0': float(rng.uniform(90, 110))}
        if rng.random() < .4:
            kw.update(cx=float(rng.uniform(-1, 1)))
        if rng.random() < .4:
            kw.update(freq_exp=float(rng.choice([-2., 0., 1.])))
        return 'spec-gauss', kw, lambda x, y, f, kw=dict(kw): specgauss(x, y, f, **kw)
    kw = {'a': float(rng.uniform(.2, 1)), 'b': float(rng.uniform(0, 1))}
    if rng.random() < .4:       # its parameters are inside: functions that only differ in what they do
        return nameless(asym, kw), {}, lambda x, y, f, kw=dict(kw): asym(x, y, f, **kw)
    return asym, kw, lambda x, y, f, kw=dict(kw): asym(x, y, f, **kw)


def nameless(f, kw):
    return lambda *args: f(*args, **kw)


def similar_spatial(rng, fn, kw):
    """The same response with one parameter slightly different."""
    numbers = [k for k, v in kw.items() if isinstance(v, float) and v]
    if not numbers:
        return None
    kw = dict(kw)
    kw[numbers[int(rng.integers(len(numbers)))]] *= 1.003
    ref = fn if callable(fn) else specgauss if 'spec' in fn else gauss
    return fn, kw, lambda x, y, f, kw=dict(kw): ref(x, y, f, **kw)


def gauss(x, y, f, fwhmx=1, fwhmy=1, cx=0, cy=0):
    out = np.empty((len(x), len(y), len(f)))
    for i, a in enumerate(x):
        for j, b in enumerate(y):
            out[i, j, :] = 0.5 ** ((2 * (a - cx) / fwhmx) ** 2 + (2 * (b - cy) / fwhmy) ** 2)
    return out


def specgauss(x, y, f, freq0=100e9, fwhmx=1, fwhmy=1, cx=0, cy=0, freq_exp=-1):
    out = np.empty((len(x), len(y), len(f)))
    for k, v in enumerate(f):
        s = (freq0 / v) ** freq_exp
        out[:, :, k] = gauss(x, y, [v], fwhmx * s, fwhmy * s, cx, cy)[:, :, 0]
    return out


def rand_spectral(rng):
    k = int(rng.integers(4))
    if k == 3:
        kw = {'at': np.array([95., 99., 101.5, 106.]), 'value': rng.uniform(.2, 1, 4)}
        return band, kw, lambda f, kw=dict(kw): band(f, **kw)
    if k == 0:
        kw = {'freq0': float(rng.uniform(98, 104)), 'fwhm': float(rng.uniform(2, 6))}
        if rng.random() < .5:
            kw['A'] = float(rng.uniform(.5, 3))
        return 'gauss', kw, lambda f, kw=dict(kw): sgauss(f, **kw)
    if k == 1:
        # edges never at a channel center: the channels are at multiples of 1/2
        kw = {'freq0': float(rng.integers(99, 103) + .1), 'width': float(rng.choice([4.3, 8.7, 30.1]))}
        if rng.random() < .5:
            kw['A'] = float(rng.uniform(.5, 3))
        return str(rng.choice(['boxcar', 'box'])), kw, lambda f, kw=dict(kw): sbox(f, **kw)
    kw = {'s': float(rng.uniform(0, 3))}
    if rng.random() < .3:
        return nameless(ramp, kw), {}, lambda f, kw=dict(kw): ramp(f, **kw)
    return ramp, kw, lambda f, kw=dict(kw): ramp(f, **kw)


def sgauss(f, A=1, freq0=100, fwhm=1):
    return np.array([A * 0.5 ** ((2 * (v - freq0) / fwhm) ** 2) for v in f])


def sbox(f, A=1, freq0=100, width=1):
    return np.array([A if abs(v - freq0) <= width / 2 else 0. for v in f])


class Noise:
    """A noise function that records its calls and returns a recognisable series."""

    def __init__(self, level):
        self.level = level
        self.calls = []
        self.keep = False   # hand out the same array every time
        self.kept = {}

    def __call__(self, n, dt, amp=1.):
        self.calls.append((n, dt, amp))
        if self.keep:
            return self.kept.setdefault((n, dt, amp), self.level + amp * dt * np.arange(n))
        return self.level + amp * dt * np.arange(n)

    @staticmethod
    def expected(level, n, dt, amp=1.):
        return level + amp * dt * np.arange(n)


class Det:
    def __init__(self, rng, ident):
        self.spatial, self.spatial_kw, self.spatial_ref = rand_spatial(rng)
        self.spectral, self.spectral_kw, self.spectral_ref = rand_spectral(rng)
        self.noise = Noise(1000. * (ident + 1))
        self.noise.keep = bool(rng.random() < .4)
        self.noise_kw = {'amp': float(rng.uniform(1, 5))} if rng.random() < .6 else {}
        self.offset = None
        if rng.random() < .5:
            self.offset = (float(rng.uniform(-2, 2)), float(rng.uniform(-2, 2)))
        self.given_offset = self.offset
        if self.offset is not None and rng.random() < .5:
            self.given_offset = [list, np.array][int(rng.integers(2))](self.offset)

    def arguments(self, copy=True):
        return dict(spatial_response=self.spatial, spatial_kwargs=dict(self.spatial_kw), spectral_response=self.spectral,
                    spectral_kwargs=dict(self.spectral_kw), noise_function=self.noise, noise_kwargs=dict(self.noise_kw),
                    pointing_offsets=self.given_offset, nominal_frequency=100.)

    def share_offset(self, other):
        self.offset = other.offset
        kind = type(self.given_offset) if isinstance(self.given_offset, (list, tuple)) else np.array
        self.given_offset = None if self.offset is None else kind(self.offset)

    def nearly_share_offset(self, other, rng):
        """Like that of another detector, except for one component, the order or the signs."""
        x, y = other.offset or (0., 0.)
        mine = self.offset or (0.7, -1.1)
        self.offset = [(x, mine[1]), (mine[0], y), (y, x), (-x, -y), (x, -y)][int(rng.integers(5))]
        self.given_offset = self.offset


def rand_field(rng, Grid, nprop=None, units=True, like=None):
    """A random field, if like is given with the same cells at other frequencies."""
    nprop = int(rng.integers(1, 4)) if nprop is None else nprop
    n = np.concatenate((rng.integers(3, 9, size=2), rng.integers(2, 6, size=1)))
    pix = np.array([float(rng.choice([.5, .75, 1.])), float(rng.choice([.5, .6, 1.])), float(rng.choice([.5, 1.]))])
    cen = np.array([float(rng.uniform(-2, 2)), float(rng.uniform(-2, 2)), 0.])
    # channels at multiples of one half around 100
    cen[2] = 100.5 + (0.25 if n[2] % 2 == 0 and pix[2] == .5 else 0.) + (.5 if n[2] % 2 == 0 and pix[2] == 1. else 0)
    if like is not None:
        pix = np.array(like.pixel_size, float)
        if rng.random() < .5:
            n = np.array(like.n_pixels)
        n[2] = like.n_pixels[2]
        cen[2] = float(like.center_point[2]) + float(rng.choice([-.5, .5]))
    kw = {}
    if units:
        kw['axunits'] = ['rad', 'rad', 'Hz']
        kw['gridunits'] = ['Jy'] * nprop if rng.random() < .6 else None
    g = Grid(nprop, tuple(cen), tuple(n * pix), tuple(pix), **kw)
    g.init_grid()
    g.grid[...] = rng.normal(size=g.grid.shape) + 3
    return g


def axes_of(g):
    return [c + (np.arange(n) - (n - 1) / 2) * p for c, n, p in zip(np.asarray(g.center_point, float), np.asarray(g.n_pixels), np.asarray(g.pixel_size, float))]


def beam_ref(spatial_ref, pix, kernel, freqs, norm):
    k = np.ones(2, int) * np.asarray(kernel)
    x = (np.arange(k[0]) - (k[0] - 1) / 2) * pix[0]
    y = (np.arange(k[1]) - (k[1] - 1) / 2) * pix[1]
    b = spatial_ref(x, y, freqs)
    if norm == 'peak':
        b = b / b.max(axis=(0, 1), keepdims=True)
    elif norm == 'area':
        b = b / b.sum(axis=(0, 1), keepdims=True)
    return b


def map_ref(det, data, pix, freqs, kernel, norm, beam=None):
    """What one detector sees: (nx, ny)."""
    b = beam_ref(det.spatial_ref, pix, kernel, freqs, norm) if beam is None else beam
    conv = direct(data[..., None], b[..., None], [0, 1])[..., 0]
    w = det.spectral_ref(freqs)
    return (conv * w).sum(axis=2) / w.sum()


def sample_ref(m, geom, pos):
    """Value of the map cell at each position; second result False where the
    position is too close to a cell edge to tell."""
    cen, pix, n = geom
    out = np.full(len(pos), np.nan)
    sure = np.ones(len(pos), bool)
    for i, p in enumerate(pos):
        u = [(p[d] - cen[d]) / pix[d] + n[d] / 2 for d in range(2)]
        if any(abs(v - np.round(v)) < 1e-6 for v in u):
            sure[i] = False
        c = [int(np.floor(v)) for v in u]
        if all(0 <= c[d] < n[d] for d in range(2)):
            out[i] = m[c[0], c[1]]
    return out, sure
