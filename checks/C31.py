"""C31: a plot shows the data asked for, where it belongs, and plotting changes
nothing; the reference frequency found for a detector is its peak."""
import copy
import os

import numpy as np
import gridlib as gl
import handlerlib as hl
import instlib as il
import lclib as ll
import simlib as sl

PROPERTY = 'C31'
NEEDS_DATA = True
setup = ll.setup
RULE = ('a case is one random catalogue, grid or instrument, plotted with random arguments; what the figure holds (lines, bars, '
        'coloured cells with their corners, labels) is read back from the figure and compared with the data; told apart by the data')
MINIMUM = {'fourier_grids': 20, 'cone_frames': 15, 'lines': 60, 'histograms': 60, 'images': 80, 'frames': 60, 'responses': 60, 'files_saved': 10, 'peaks': 40}


class Shown:
    """The figures a plotting call makes; nothing else may change."""

    def __init__(self, case, *kept):
        self.case = case
        self.kept = kept

    def __enter__(self):
        import matplotlib
        import matplotlib.pyplot as plt
        plt.close('all')
        self.plt, self.rc = plt, dict(matplotlib.rcParams)
        self.before = copy.deepcopy(self.kept)
        return self

    def figures(self):
        return [self.plt.figure(n) for n in self.plt.get_fignums()]

    def __exit__(self, t, v, tb):
        import matplotlib
        self.plt.close('all')
        if t is None:
            self.case.check(self.kept == self.before, 'arguments', lambda: 'the keyword arguments %s became %s' % (self.before, self.kept))
            now = dict(matplotlib.rcParams)
            bad = [k for k in now if now[k] != self.rc.get(k)]
            self.case.check(not bad, 'style', lambda: 'the settings %s of matplotlib were changed' % bad)


def one_axes(case, figs, what, n=1):
    case.check(len(figs) == 1, 'figures', lambda: '%s: %d figures' % (what, len(figs)))
    axes = figs[0].axes
    case.check(len(axes) >= n, 'panels', lambda: '%s: %d panels' % (what, len(axes)))
    return axes


# ------------------------------------------------------------------ catalogues
def catalogue(case):
    from simim.siminterface import SimHandler
    rng = case.rng
    s = sl.make_sim(case, n_snaps=1, n_halos=int(rng.integers(2, 40)), labels='mixed')
    d = bool(rng.integers(2))
    h = SimHandler(sl.SIM, in_h_units=d).get_snap(s.labels[0])
    m = hl.Model(s.truth[0], s.fields, s.h, d)
    if rng.random() < .7:
        cut = float(np.sort(m.value('mass', True, True))[int(rng.integers(m.n))]) * .999
        h.set_property_range('mass', cut, in_h_units=True)
        m.active = m.value('mass', True, True) >= cut
    return s, h, m


def saved(case, kw):
    if case.rng.random() < .25:
        kw['save'] = 'plot%d_%d.png' % (case.index, int(case.rng.integers(1 << 30)))
    return kw.get('save')


def look_saved(case, path):
    if path is not None:
        ok = os.path.exists(path)
        case.check(ok and os.path.getsize(path) > 0, 'saved', 'the plot was not saved')
        case.observe('files_saved')
        if ok:
            os.remove(path)


def labels(case, ax, names, axkws, what):
    leg = ax.get_legend()
    if len(names) > 1:
        case.check(leg is not None and sorted(t.get_text() for t in leg.get_texts()) == sorted(names), 'legend',
                   lambda: '%s: legend %s' % (what, None if leg is None else [t.get_text() for t in leg.get_texts()]))
    if 'xlabel' in axkws:
        case.check(ax.get_xlabel() == axkws['xlabel'], 'xlabel', '%s: label of x' % what)
    if 'yscale' in axkws:
        case.check(ax.get_yscale() == axkws['yscale'], 'yscale', '%s: scale of y' % what)
    if 'title' in axkws:
        case.check(ax.get_title() == axkws['title'], 'title', '%s: title' % what)


def rand_axkws(rng):
    kw = {}
    if rng.random() < .5:
        kw['xlabel'] = 'x%d' % rng.integers(99)
    if rng.random() < .3:
        kw['title'] = 't%d' % rng.integers(99)
    if rng.random() < .3:
        kw['yscale'] = str(rng.choice(['log', 'linear']))
    return kw


def scatter(case):
    rng = case.rng
    s, h, m = catalogue(case)
    names = sorted(m.names())
    for _ in range(2):
        x = names[int(rng.integers(len(names)))]
        ys = [names[int(i)] for i in rng.choice(len(names), size=int(rng.integers(1, 4)), replace=False)]
        use = [True, False, 'compare'][int(rng.integers(3))]
        in_h = [None, True, False][int(rng.integers(3))]
        axkws, plotkws = rand_axkws(rng), {}
        if rng.random() < .5:
            plotkws.update([{'marker': 'x'}, {'ls': '-'}, {'linestyle': '--', 'alpha': .5}, {'ms': 3}][int(rng.integers(4))])
        if rng.random() < .3 and use != 'compare':
            plotkws['color'] = 'g'
        kw = {}
        path = saved(case, kw)
        what = 'plot(%s, %s, use_all_inds=%s, in_h_units=%s)' % (x, ys, use, in_h)
        case.note(what)
        with Shown(case, axkws, plotkws) as f:
            with case.quiet():
                h.plot(x, *ys, use_all_inds=use, in_h_units=in_h, axkws=axkws, plotkws=plotkws, **kw)
            ax = one_axes(case, f.figures(), what)[0]
            lines = ax.get_lines()
            want = []
            for y in ys:
                if use == 'compare':
                    want += [(y, True), (y, False)]
                else:
                    want.append((y, bool(use)))
            case.check(len(lines) == len(want), 'line_count', lambda: '%s: %d lines, expected %d' % (what, len(lines), len(want)))
            for ln, (y, everything) in zip(lines, want):
                case.close(ln.get_xdata(), m.value(x, everything, in_h), 'x_values', '%s: x' % what, rtol=3e-6)
                case.close(ln.get_ydata(), m.value(y, everything, in_h), 'y_values', '%s: y (%s)' % (what, y), rtol=3e-6)
                case.observe('lines')
                if 'marker' in plotkws:
                    case.check(ln.get_marker() == plotkws['marker'], 'marker', '%s: marker' % what)
                if 'ls' in plotkws or 'linestyle' in plotkws:
                    case.check(ln.get_linestyle() == plotkws.get('ls', plotkws.get('linestyle')), 'linestyle', '%s: line style' % what)
                else:
                    case.check(ln.get_linestyle() == 'None', 'linestyle', '%s: points are joined' % what)
            labels(case, ax, ys, axkws, what)
        look_saved(case, path)
        case.nontrivial('plot', m.n, x, ys, use)
    case.refuses('unknown', 'plotted an unknown property', h.plot, 'mass', 'nothing')
    hl.compare(case, h, m, 'after plotting')
    case.sample('; '.join(case.log))


def spread(v, log):
    """Values all the same, or far enough apart for bars that rounding does not merge."""
    v = np.asarray(v, float)
    v = np.log10(v) if log else v
    return np.abs(v[0]) < 1e4 if np.ptp(v) == 0 else np.ptp(v) > 1e-3 * np.abs(v).max()


def histogram(case):
    rng = case.rng
    s, h, m = catalogue(case)
    names = sorted(m.names())
    for _ in range(2):
        log = bool(rng.random() < .4)
        ok = [n for n in names if (not log or np.all(m.value(n, True, None) > 0)) and spread(m.value(n, True, None), log) and spread(m.value(n, False, None), log)]
        ps = [ok[int(i)] for i in rng.choice(len(ok), size=min(len(ok), int(rng.integers(1, 4))), replace=False)]
        use = bool(rng.integers(2))
        in_h = [None, True, False][int(rng.integers(3))]
        plotkws, axkws = {}, rand_axkws(rng)
        if rng.random() < .5:
            plotkws['bins'] = int(rng.integers(1, 8))
        if rng.random() < .3:
            plotkws['cumulative'] = True
        kw = {}
        path = saved(case, kw)
        what = 'hist(%s, use_all_inds=%s, in_h_units=%s, logtransform=%s, %s)' % (ps, use, in_h, log, plotkws)
        case.note(what)
        with Shown(case, axkws, plotkws) as f:
            with case.quiet():
                h.hist(*ps, use_all_inds=use, in_h_units=in_h, logtransform=log, axkws=axkws, plotkws=plotkws, **kw)
            ax = one_axes(case, f.figures(), what)[0]
            bars = [(p.get_x(), p.get_width(), p.get_height()) for p in ax.patches]
            nb = plotkws.get('bins', 10)
            case.check(len(bars) == nb * len(ps), 'bar_count', lambda: '%s: %d bars, expected %d' % (what, len(bars), nb * len(ps)))
            for i, p in enumerate(ps):
                v = np.asarray(m.value(p, use, in_h), float)
                v = np.log10(v) if log else v
                got = np.array(bars[i * nb:(i + 1) * nb])
                top = got[:, 2]
                case.close(got[0, 0], v.min() if np.ptp(v) > 0 else v.min() - .5, 'bins_from', '%s: the bars of %s start' % (what, p), rtol=1e-5, atol=1e-6 * max(np.abs(v).max(), 1e-30))
                case.close(got[-1, 0] + got[-1, 1], v.max() if np.ptp(v) > 0 else v.max() + .5, 'bins_to', '%s: the bars of %s end' % (what, p), rtol=1e-5, atol=1e-6 * max(np.abs(v).max(), 1e-30))
                # a value next to an edge of a bar may be on either side
                edges = np.append(got[:, 0], got[-1, 0] + got[-1, 1])
                slack = 1e-5 * max(np.abs(v).max(), np.abs(edges).max())
                for k in range(nb):
                    lo, hi = (edges[0] if plotkws.get('cumulative') else edges[k]), edges[k + 1]
                    sure = np.sum((v > lo + slack) & (v < hi - slack))
                    may = np.sum((v > lo - slack) & (v < hi + slack))
                    case.check(sure - .5 <= top[k] <= may + .5, 'bar_height', lambda: '%s: bar of %s at %s..%s has height %s, expected %d to %d' % (what, p, lo, hi, top[k], sure, may))
                total = top[-1] if plotkws.get('cumulative') else top.sum()
                case.check(abs(total - len(v)) < .5, 'bars_total', lambda: '%s: the bars of %s hold %s of %d halos' % (what, p, total, len(v)))
                case.observe('histograms')
            labels(case, ax, ps, axkws, what)
        look_saved(case, path)
        case.nontrivial('hist', m.n, ps, use, in_h)
    case.refuses('unknown', 'made a histogram of an unknown property', h.hist, 'nothing')
    hl.compare(case, h, m, 'after histograms')
    case.sample('; '.join(case.log))


# ------------------------------------------------------------------ grids
def cells(coll):
    """(x0, x1, y0, y1, value) of every coloured cell."""
    if hasattr(coll, 'get_coordinates'):
        c = np.asarray(coll.get_coordinates())
        v = np.asarray(coll.get_array(), float).reshape(c.shape[0] - 1, c.shape[1] - 1)
        out = []
        for j in range(v.shape[0]):
            for i in range(v.shape[1]):
                q = c[j:j + 2, i:i + 2]
                out.append((q[..., 0].min(), q[..., 0].max(), q[..., 1].min(), q[..., 1].max(), v[j, i]))
        return np.array(out)
    v = np.asarray(coll.get_array(), float).ravel()
    return np.array([(p.vertices[:, 0].min(), p.vertices[:, 0].max(), p.vertices[:, 1].min(), p.vertices[:, 1].max(), u) for p, u in zip(coll.get_paths(), v)])


def look_cells(case, coll, xs, ys, image, what, key, corners=True, log_floor=None):
    """xs, ys: (centers, width); image[i, j] belongs at xs[i], ys[j]."""
    got = cells(coll)
    if not case.check(len(got) == image.size, key + '_cells', lambda: '%s: %d cells, expected %d' % (what, len(got), image.size)):
        return
    # order by position
    o = np.lexsort((np.round((got[:, 2] - got[:, 2].min()) / (ys[1] or 1)), np.round((got[:, 0] - got[:, 0].min()) / (xs[1] or 1))))
    got = got[o]
    case.close(got[:, 4].reshape(image.shape), image, key, '%s: values shown, by position' % what, rtol=1e-9, atol=1e-12)
    X, Y = np.meshgrid(xs[0], ys[0], indexing='ij')
    if corners:
        case.close(got[:, :4], np.stack((X.ravel() - xs[1] / 2, X.ravel() + xs[1] / 2, Y.ravel() - ys[1] / 2, Y.ravel() + ys[1] / 2), axis=1),
                   key + '_where', '%s: corners of the cells' % what, rtol=1e-7, atol=1e-7 * max(np.abs(xs[0]).max(), np.abs(ys[0]).max(), xs[1], ys[1]))
    case.observe('cells', image.size)


def spaces(case, g, geom):
    """Perhaps transform some axes: centers and widths of the cells along each axis, and the data."""
    rng = case.rng
    nd = len(geom[3])
    four = rng.random(nd) < .5 if rng.random() < .35 else np.zeros(nd, bool)
    if four.any():
        g.fourier_transform([d for d in range(nd) if four[d]])
        case.observe('fourier_grids')
    cen = [(np.arange(n) - n // 2) / s if f else c + (np.arange(n) - (n - 1) / 2) * p for c, s, p, n, f in zip(*geom[:4], four)]
    return cen, np.where(four, 1 / geom[1], geom[2]), g.grid.copy()


def visualize(case):
    from simim.map.gridder import Grid
    rng = case.rng
    g, geom = gl.make_grid(rng, Grid, ndim=int(rng.integers(2, 5)), nmax=5, units=False)
    nd = len(geom[3])
    nprop = g.n_properties
    gl.fill(rng, g)
    cen, width, data = spaces(case, g, geom)
    whole, data = data, data.real
    for _ in range(3):
        ax = [int(v) for v in rng.permutation(nd)[:2]]
        rest = [d for d in range(nd) if d not in ax]
        p = int(rng.integers(nprop))
        kw, args = {}, {'ax': ax, 'property': p}
        if rng.random() < .5:
            args['slice_indices'] = 'sum'
            image = data[..., p].sum(axis=tuple(rest)) if rest else data[..., p]
        else:
            at = [int(rng.integers(geom[3][d])) for d in rest]
            args['slice_indices'] = at
            image = data[..., p]
            for d, i in sorted(zip(rest, at), reverse=True):
                image = np.take(image, i, axis=d)
        if ax[0] > ax[1]:
            image = image.T
        if rng.random() < .3 and ax == [0, 1]:
            args.pop('ax')
        if rng.random() < .3 and p == 0:
            args.pop('property')
        axkws, plotkws = rand_axkws(rng), [{}, {'vmin': -1., 'vmax': 2.}, {'cmap': 'plasma'}][int(rng.integers(3))]
        axkws.pop('yscale', None)
        what = 'visualize(%s) of a grid %s' % (args, list(geom[3]))
        case.note(what)
        with Shown(case, axkws, plotkws, ax) as f:
            with case.quiet():
                g.visualize(axkws=axkws, plotkws=plotkws, **args)
            a = one_axes(case, f.figures(), what)[0]
            case.check(len(a.collections) == 1, 'image_count', what)
            coll = a.collections[0]
            look_cells(case, coll, (cen[ax[0]], width[ax[0]]), (cen[ax[1]], width[ax[1]]), image, what, 'image')
            labels(case, a, [], axkws, what)
            if 'vmin' in plotkws:
                case.check(coll.get_clim() == (-1., 2.), 'limits', '%s: colour limits %s' % (what, coll.get_clim()))
            case.check(str(ax[0]) in a.get_xlabel() or 'xlabel' in axkws, 'axis_label', lambda: '%s: x is labelled %s' % (what, a.get_xlabel()))
            case.check(str(ax[1]) in a.get_ylabel(), 'axis_label', lambda: '%s: y is labelled %s' % (what, a.get_ylabel()))
            case.observe('images')
        case.nontrivial(list(geom[3]), ax, p, str(args.get('slice_indices')))
    case.check(np.array_equal(g.grid, whole), 'grid_changed', 'plotting changed the grid')
    case.refuses('three_axes', 'plotted along three axes', g.visualize, ax=[0, 1, 0])
    if nd > 2:
        case.refuses('slices', 'took too few slices', g.visualize, slice_indices=[0] * (nd - 3))
    case.refuses('slices', 'took too many slices', g.visualize, slice_indices=[0] * (nd - 1))
    e, _ = gl.make_grid(rng, Grid, ndim=2, active=False)
    case.refuses('empty', 'plotted a grid without data', e.visualize)
    e, _ = gl.make_grid(rng, Grid, ndim=1)
    case.refuses('one_dimension', 'plotted a grid of one dimension', e.visualize)
    import matplotlib.pyplot as plt
    plt.close('all')
    case.sample('; '.join(case.log))


def stepthrough(case):
    from matplotlib.animation import AbstractMovieWriter
    from simim.map.gridder import Grid

    class Nothing(AbstractMovieWriter):
        frame_size = (1, 1)

        def setup(self, fig, outfile, dpi=None):
            self.fig, self.outfile, self.dpi = fig, outfile, dpi

        def grab_frame(self, **kw):
            pass

        def finish(self):
            pass
    rng = case.rng
    g, geom = gl.make_grid(rng, Grid, ndim=int(rng.choice([3, 3, 4])), nmax=4, units=False)
    nd = len(geom[3])
    g.grid[...] = rng.uniform(1, 3, size=g.grid.shape)
    cen, width, data = spaces(case, g, geom)
    whole, data = data, data.real
    dims = [int(v) for v in rng.permutation(nd)[:3]]
    slide, face = dims[0], dims[1:]
    if rng.random() < .2:
        slide, face = 2, [0, 1]
    p = int(rng.integers(g.n_properties))
    i0 = int(rng.integers(geom[3][slide]))
    log = bool(rng.random() < .3 and not g.fourier_space.any())
    still = bool(rng.random() < .5)
    kw = {}
    path = None
    if still:
        path = saved(case, kw)
    what = 'animate(slide_dim=%d, face_dims=%s, i0=%d, prop_ind=%d, logscale=%s, still=%s) of a grid %s' % (slide, face, i0, p, log, still, list(geom[3]))
    case.note(what)
    rest = [d for d in range(nd) if d != slide and d not in face]
    # cube[i, j, k]: slide, face 0, face 1
    cube = np.moveaxis(data[..., p].sum(axis=tuple(rest), keepdims=True), [slide] + face, [0, 1, 2]).reshape([geom[3][slide]] + [geom[3][d] for d in face])
    fx = np.log10 if log else (lambda v: v)
    with Shown(case, face) as f:
        with case.quiet():
            anim = g.animate(slide_dim=slide, face_dims=face, i0=i0, prop_ind=p, logscale=log, still=still, **kw)
        axes = one_axes(case, f.figures(), what, 2)
        edge, flat = axes[0], axes[1]
        look_cells(case, edge.collections[0], (cen[slide], width[slide]), (cen[face[1]], width[face[1]]), fx(cube.sum(axis=1)), what + ', summed panel', 'edge')

        def frame(i):
            look_cells(case, flat.collections[0], (cen[face[0]], width[face[0]]), (cen[face[1]], width[face[1]]), fx(cube[i]), '%s, slice %d' % (what, i), 'slice')
            x = np.asarray(edge.get_lines()[0].get_xdata())
            c = cells(edge.collections[0])
            starts = np.unique(np.round(c[:, 0], 9))
            mine = c[np.argsort(c[:, 0], kind='stable')].reshape(geom[3][slide], -1, 5)[i]
            case.close([x.min(), x.max()], [mine[0, 0], mine[0, 1]], 'marker', '%s: the box marks slice %d' % (what, i), rtol=1e-9, atol=1e-9)
            case.observe('frames')
            t = flat.get_title()
            case.close(float(t.split('=')[-1]), cen[slide][i], 'title_value', '%s: title %r of slice %d' % (what, t, i), rtol=0, atol=6e-3)
            return len(starts), t
        titles = {}
        titles[i0] = frame(i0)[1]
        if still:
            case.check(anim is None, 'still', '%s: a still is an animation' % what)
        else:
            seen = []

            def after(n, total):
                seen.append(n)
                t = frame(n)[1]
                case.check(titles.setdefault(n, t) == t, 'title', lambda: '%s: slice %d is titled %s and %s' % (what, n, titles[n], t))
            if case.check(anim is not None, 'animation', '%s: no animation' % what):
                with case.quiet():
                    anim.save('nothing', writer=Nothing(), progress_callback=after)
                case.check(seen == list(range(geom[3][slide])), 'frame_list', lambda: '%s: frames %s' % (what, seen))
                case.observe('animations')
    look_saved(case, path)
    case.check(np.array_equal(g.grid, whole), 'grid_changed', 'animating changed the grid')
    for bad in ({'prop_ind': g.n_properties}, {'slide_dim': nd}, {'face_dims': [0, nd]}, {'face_dims': [0]}, {'face_dims': [0, 1, 2]}):
        case.refuses('bad_arguments', 'animated with %s' % bad, g.animate, still=True, **bad)
    e, _ = gl.make_grid(rng, Grid, ndim=3, active=False)
    case.refuses('empty', 'animated a grid without data', e.animate, still=True)
    e, _ = gl.make_grid(rng, Grid, ndim=2)
    case.refuses('two_dimensions', 'animated a grid of two dimensions', e.animate, still=True)
    f.plt.close('all')
    case.nontrivial(what)
    case.sample(what)


# ------------------------------------------------------------------ instruments
def instrument(case):
    from simim.instrument import Instrument
    rng = case.rng
    inst = Instrument(spatial_unit='rad', spectral_unit='Hz', default_noise_function='none', default_noise_kwargs={})
    dets, freqs = {}, {}
    for i in range(int(rng.integers(1, 4))):
        d = il.Det(rng, i)
        name = 'd%d' % i
        dets[name] = d
        freqs[name] = float(rng.uniform(90, 110))
        a = d.arguments()
        a['nominal_frequency'] = freqs[name]
        inst.add_detector(name, **a)
    names = list(dets)
    for k in names:
        case.check(inst.detectors[k].reffreq == freqs[k], 'nominal', 'the nominal frequency of %s is not the one given' % k)
    what = 'plot_detector_response of %d detectors' % len(names)
    case.refuses('no_region', 'plotted a response without a region', inst.plot_detector_response)
    chosen = names if rng.random() < .5 else [names[int(rng.integers(len(names)))]]
    box = {'xmin': -float(rng.uniform(1, 3)), 'xmax': float(rng.uniform(1, 3)), 'ymin': -float(rng.uniform(1, 3)), 'ymax': float(rng.uniform(1, 3))}
    kw = dict(box)
    if rng.random() < .4:
        inst.best_spatial_res = float(rng.uniform(.3, 1))
        for k in list(box):
            if rng.random() < .5:
                kw.pop(k)
                box[k] = (-5 if 'min' in k else 5) * inst.best_spatial_res
    lim = {'fmin': .9 * min(freqs[k] for k in chosen), 'fmax': 1.1 * max(freqs[k] for k in chosen)}
    for k, v in (('fmin', 80.), ('fmax', 130.)):
        if rng.random() < .3:
            kw[k] = lim[k] = v
    fs = None
    if rng.random() < .4:
        fs = kw['fspatial'] = float(rng.uniform(95, 105))
    with Shown(case, chosen) as f:
        with case.quiet():
            inst.plot_detector_response(*([] if chosen == names and rng.random() < .5 else chosen), **kw)
        figs = f.figures()
        case.check(len(figs) == len(chosen), 'figures', lambda: '%s: %d figures for %d detectors' % (what, len(figs), len(chosen)))
        for fig, k in zip(figs, chosen):
            d = dets[k]
            case.check(len(fig.axes) >= 2, 'panels', what)
            x, y = [np.asarray(v) for v in fig.axes[0].get_lines()[0].get_data()]
            case.close([x.min(), x.max()], [lim['fmin'], lim['fmax']], 'frequencies', '%s: frequencies' % what)
            step = np.diff(x).max()
            safe = np.ones(len(x), bool)
            ref = d.spectral_ref(x)
            case.close(y[safe], ref[safe], 'spectrum', '%s: spectral response of %s' % (what, k), rtol=1e-8)
            case.check(len(x) >= 50 and step < (x.max() - x.min()) / 20, 'samples', '%s: %d points' % (what, len(x)))
            c = cells(fig.axes[1].collections[0])
            at = fs if fs is not None else freqs[k]
            mx, my = (c[:, 0] + c[:, 1]) / 2, (c[:, 2] + c[:, 3]) / 2
            want = np.array([d.spatial_ref(np.array([u]), np.array([v]), np.array([at]))[0, 0, 0] for u, v in zip(mx[::37], my[::37])])
            case.close(c[::37, 4], want, 'beam', '%s: spatial response of %s at %s' % (what, k, at), rtol=1e-7, atol=1e-12)
            w = (c[0, 1] - c[0, 0]) / 2, (c[0, 3] - c[0, 2]) / 2
            case.close([c[:, 0].min() + w[0], c[:, 1].max() - w[0], c[:, 2].min() + w[1], c[:, 3].max() - w[1]],
                       [box['xmin'], box['xmax'], box['ymin'], box['ymax']], 'region', '%s: region' % what, rtol=1e-6)
            case.observe('responses')
    case.refuses('unknown_detector', 'plotted an unknown detector', inst.plot_detector_response, 'nobody', xmin=-1, xmax=1, ymin=-1, ymax=1)
    kw, lim = {}, [.9 * min(freqs.values()), 1.1 * max(freqs.values())]
    for i, (k, v) in enumerate((('fmin', 80.), ('fmax', 130.))):
        if rng.random() < .4:
            kw[k] = lim[i] = v
    with Shown(case, kw) as f:
        with case.quiet():
            inst.plot_spectral_response(**kw)
        ax = one_axes(case, f.figures(), 'plot_spectral_response')[0]
        lines = ax.get_lines()
        case.check(len(lines) == len(names), 'line_count', lambda: 'plot_spectral_response: %d lines of %d detectors' % (len(lines), len(names)))
        for ln, k in zip(lines, sorted(names, key=freqs.get)):
            x, y = [np.asarray(v) for v in ln.get_data()]
            case.close([x.min(), x.max()], lim, 'frequencies', 'plot_spectral_response: frequencies')
            case.close(y, dets[k].spectral_ref(x), 'spectrum', 'plot_spectral_response: response of %s' % k, rtol=1e-8)
            case.observe('responses')
    case.nontrivial(sorted(freqs.items()), sorted(kw.items()))
    case.sample('%s, %s' % (what, kw))


def peak(case):
    """Without a nominal frequency, the frequency of a detector is where it responds most."""
    from simim.instrument import Instrument
    rng = case.rng
    inst = Instrument(spatial_unit='rad', spectral_unit='Hz', default_noise_function='none', default_noise_kwargs={},
                      default_spatial_response='gauss', default_spatial_kwargs={'fwhmx': 1., 'fwhmy': 1.})
    f0 = float(10 ** rng.uniform(1, 12))
    k = int(rng.integers(4))
    fw = f0 * 10 ** rng.uniform(-1.9, 0)
    if k == 0:
        resp, kw, ref = 'gauss', {'freq0': f0, 'fwhm': fw, 'A': float(rng.uniform(.1, 5))}, lambda f: .5 ** ((2 * (f - f0) / fw) ** 2)
    elif k == 1:
        resp, kw, ref = 'boxcar', {'freq0': f0, 'width': fw}, lambda f: float(abs(f - f0) <= fw / 2 * (1 + 1e-9))
    elif k == 2:
        f1 = f0 * float(rng.uniform(3, 30))
        lo = float(rng.uniform(.2, .8))

        def resp(freq):
            freq = np.asarray(freq, float)
            return .5 ** ((2 * (freq - f0) / fw) ** 2) + lo * .5 ** ((2 * (freq - f1) / fw) ** 2)
        kw, ref = {}, resp
    else:
        def resp(freq):
            return np.asarray(freq, float) * 2.
        kw, ref = {}, None
    what = 'detector with response %s %s, peak %g, width %g' % (resp if isinstance(resp, str) else 'function', kw, f0, fw)
    case.note(what)
    with case.quiet():
        inst.add_detector('a', spectral_response=resp, spectral_kwargs=kw)
    got = inst.detectors['a'].reffreq
    if ref is None:
        case.check(np.isnan(got), 'no_peak', lambda: 'a response without a peak has the frequency %s' % got)
        case.observe('without_peak')
    else:
        case.check(np.isfinite(got) and ref(got) >= .9, 'peak', lambda: '%s: the frequency %s is used, where the response is %s of the peak' % (what, got, ref(got)))
        case.observe('peaks')
    case.nontrivial(k, f0, fw)
    case.sample('%s -> %s' % (what, got))


def behroozi(case):
    from simim.galprops.sfr_behroozi13 import behroozi13_base
    b = behroozi13_base()
    prop = ['sfr', 'stellar'][case.index % 2]
    with Shown(case) as f:
        with case.quiet():
            b.plot_grid(prop)
        ax = one_axes(case, f.figures(), 'plot_grid')[0]
        c = cells(ax.collections[0])
        c = c[:: max(1, len(c) // 3000)]
        fun = b.sfr if prop == 'sfr' else b.stellarmass
        z, m = (c[:, 0] + c[:, 1]) / 2, np.sqrt(c[:, 2] * c[:, 3])
        with case.quiet():
            lo = np.array(fun(c[:, 0], c[:, 2], scatter=False)), np.array(fun(c[:, 1], c[:, 3], scatter=False)), np.array(fun(z, m, scatter=False))
        lo = np.array(lo)
        # a cell shows the model somewhere in the cell
        bot, top = lo.min(axis=0), lo.max(axis=0)
        inside = (m > b.grid_mass.min() * 1.05) & (m < b.grid_mass.max() / 1.05) & (z > b.grid_redshift.min() + .05) & (z < b.grid_redshift.max() - .05)
        okay = (c[:, 4] >= bot * .9 - 1e-6) & (c[:, 4] <= top * 1.1 + 1e-6)
        case.check(np.all(okay[inside]), 'model_grid', lambda: '%s: %d of %d cells are not the model at their place' % (prop, (~okay[inside]).sum(), inside.sum()))
        case.observe('cells', int(inside.sum()))
        case.check('Redshift' in ax.get_xlabel() and 'Mass' in ax.get_ylabel(), 'axis_label', 'plot_grid labels')
    case.refuses('unknown', 'plotted an unknown grid', b.plot_grid, 'nothing')
    f.plt.close('all')
    case.nontrivial(prop)
    case.sample('plot_grid %s' % prop)


# ---------------------------------------------------------------- light cones
def cone_animation(case):
    """Every frame shows the objects between its distances, all frames show all of them."""
    from astropy.cosmology import z_at_value
    import astropy.units as u
    import matplotlib
    from matplotlib import animation
    from matplotlib.backend_bases import FigureCanvasBase
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    from simim.lightcone import LCHandler
    rng = case.rng
    s = ll.lc_sim(case, zmax=0.12, n_snaps=int(rng.integers(1, 3)))
    c = ll.cone_spec(case, s)
    with case.quiet():
        ll.build(case, s, ll.make_cone(s, c, 'lc'), 1)
        d, hu = bool(rng.integers(2)), [None, False, True][int(rng.integers(3))]
        h = LCHandler(sl.SIM, 'lc', 0, in_h_units=d)
    hu_now = d if hu is None else hu
    unit = s.cosmo.h if hu_now else 1.
    if len(h.return_property('mass')) < 4:
        return
    with case.quiet():
        if rng.random() < .4:
            m = np.sort(h.return_property('mass', in_h_units=True))
            h.set_property_range('mass', pmin=m[len(m) // 3], in_h_units=True)
    use_all = bool(rng.random() < .3)
    color, size = [['mass', 'redshift', 'pos_z'][int(k)] for k in rng.integers(0, 3, 2)]
    cs, ss = [['log', 'linear'][int(k)] for k in rng.integers(0, 2, 2)]
    what = 'animation of a light cone (%s, %g x %g deg, selected: %s, all: %s, in_h_units %s, default %s, colours %s %s, sizes %s %s)' % (
        c.mode, np.degrees(c.angle), np.degrees(c.angle) * c.aspect, len(h.inds_active) < h.nhalos_all, use_all, hu, d, cs, color, ss, size)
    case.note(what)
    q = {k: h.return_property(k, use_all_inds=use_all, in_h_units=hu_now) for k in ('pos_x', 'pos_y', 'pos_z', 'ra', 'dec', 'redshift', 'mass')}
    fx = {'log': np.log10, 'linear': lambda v: v}
    if any(np.ptp(fx[k](q[n])) == 0 for k, n in ((cs, color), (ss, size))):
        return
    first, last = (s.cosmo.comoving_distance(float(h.metadata[k + ' redshift'])).value * unit for k in ('minimum', 'maximum'))
    arc = 180 / np.pi * 60
    spans, seen, out = [], np.zeros(len(q['mass']), bool), []

    def frame(fig):
        panel = {}
        for ax in fig.axes:
            t = ax.get_title().lower()
            for k in ('light cone', 'physical', 'angular'):
                if k in t:
                    panel[k] = ax
        if not case.check(len(panel) == 3, 'panels', lambda: '%s: panels %s' % (what, [ax.get_title() for ax in fig.axes])):
            return
        cone, xy, sky = panel['light cone'], panel['physical'], panel['angular']
        n = len(spans)
        for ax, a, b in ((cone, q['pos_z'], q['pos_x']), (xy, q['pos_x'], q['pos_y']), (sky, q['ra'] * arc, q['dec'] * arc)):
            case.close(ax.collections[0].get_offsets(), np.stack((a, b), axis=1), 'cone_points', '%s: points of %s' % (what, ax.get_title()), rtol=1e-9, atol=1e-12)
            v = fx[cs](q[color])
            want = matplotlib.colormaps['viridis']((v - v.min()) / np.ptp(v))
            case.close(ax.collections[0].get_facecolors(), want, 'cone_colors', '%s: colours of %s' % (what, ax.get_title()), rtol=0, atol=.02)
        edge = np.asarray(cone.get_lines()[0].get_xdata(), float)
        a, b = edge.min(), edge.max()
        case.close(a, spans[-1][1] if spans else first, 'cone_slices', '%s: frame %d begins' % (what, n), rtol=1e-9)
        spans.append((a, b))
        near = np.minimum(np.abs(q['pos_z'] - a), np.abs(q['pos_z'] - b)) < 1e-7
        inside = (q['pos_z'] > a) & (q['pos_z'] < b)
        for ax in (xy, sky):
            sizes = np.asarray(ax.collections[0].get_sizes(), float)
            shown = sizes > 0
            case.check(np.array_equal(shown[~near], inside[~near]), 'cone_shown', lambda: '%s: frame %d from %r to %r shows %d objects, %d are there'
                       % (what, n, a, b, shown.sum(), inside.sum()))
            o = np.nonzero(shown)[0]
            o = o[np.argsort(fx[ss](q[size][o]), kind='stable')]
            case.check(bool(np.all(np.diff(sizes[o]) >= -1e-9)), 'cone_sizes', '%s: sizes do not follow %s' % (what, size))
        seen[inside] = True
        mid = z_at_value(s.cosmo.comoving_distance, (a + b) / 2 / unit * u.Mpc)
        t = fig._suptitle.get_text()
        case.close(float(t.split('=')[-1].split()[0]), float(mid), 'cone_redshift', '%s: frame %d is titled %r' % (what, n, t), rtol=0, atol=6e-3)
        ratio = c.aspect if c.mode == 'box' else 1
        r = s.cosmo.comoving_transverse_distance(float(mid)).value * unit * c.angle / 2
        for ax, want in ((xy, r), (sky, c.angle / 2 * arc)):
            line = ax.get_lines()[0]
            case.close([np.abs(np.asarray(v, float)).max() for v in (line.get_xdata(), line.get_ydata())], [want, want * ratio], 'cone_outline',
                       '%s: outline of %s in frame %d' % (what, ax.get_title(), n), rtol=1e-3)
        case.observe('cone_frames')

    class Look(animation.AbstractMovieWriter):
        frame_size = (1, 1)
        supported_formats = ['rgba']

        @classmethod
        def isAvailable(cls):
            return True

        def setup(self, fig, outfile, dpi=None):
            self.fig, self.outfile = fig, outfile
            out.append(str(outfile))

        def grab_frame(self, **kw):
            frame(self.fig)

        def finish(self):
            pass
    kept = dict(animation.writers._registered) if hasattr(animation.writers, '_registered') else {}
    idle = {k: k.__dict__.get('draw_idle') for k in (FigureCanvasBase, FigureCanvasAgg)}
    path = 'cone%d' % case.index
    active, before = h.inds_active.copy(), {k: h.return_property(k, use_all_inds=True).tobytes() for k in q}
    try:
        animation.writers.register(matplotlib.rcParams['animation.writer'])(Look)
        FigureCanvasBase.draw_idle = lambda self, *a, **k: None
        with Shown(case) as f:
            with case.quiet():
                h.animate(save=path, use_all_inds=use_all, colorpropname=color, colorscale=cs, sizepropname=size, sizescale=ss, in_h_units=hu)
            f.plt.close('all')
    finally:
        for k, v in idle.items():
            if v is not None:
                k.draw_idle = v
        if kept:
            animation.writers._registered.clear()
            animation.writers._registered.update(kept)
    case.check(len(out) == 1 and out[0].startswith(path), 'cone_file', lambda: '%s: written to %s' % (what, out))
    if case.check(len(spans) > 0, 'cone_frames', '%s: no frames' % what):
        case.check(spans[-1][1] >= last * (1 - 1e-9), 'cone_slices', '%s: frames end at %r, the light cone at %r' % (what, spans[-1][1], last))
        missed = (q['pos_z'] > first + 1e-6) & ~seen
        case.check(not missed.any(), 'cone_shown', '%s: %d objects in no frame' % (what, missed.sum()))
    case.check(np.array_equal(h.inds_active, active) and h.default_in_h_units == d and
               {k: h.return_property(k, use_all_inds=True).tobytes() for k in q} == before, 'cone_changed', '%s changed the light cone' % what)
    for kw in ({'colorscale': 'cubic'}, {'sizescale': 'cubic'}, {'colorpropname': 'nothing'}):
        case.refuses('bad_arguments', 'animated with %s' % kw, h.animate, **kw)
    f.plt.close('all')
    case.nontrivial(what)
    case.sample(what)


SCENARIOS = [('cone_animation', cone_animation, 14, 80), ('scatter', scatter, 40, 300), ('histogram', histogram, 40, 300), ('visualize', visualize, 45, 400), ('stepthrough', stepthrough, 40, 300),
             ('instrument', instrument, 30, 200), ('peak', peak, 70, 600), ('behroozi', behroozi, 2, 2)]
