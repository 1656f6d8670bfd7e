"""C10: sampling never uses a map that no longer matches the instrument."""
import numpy as np
import instlib as il

PROPERTY = 'C10'
NEEDS_DATA = False
RULE = ('a case is one random history of adding, changing and removing detectors and fields, mapping and sampling; the monitor '
        'keeps its own list of detectors and of what each map was made with, and judges every sampling attempt: out of date '
        'must be refused, up to date must succeed with the values recomputed from scratch; non-trivial when both an accepted '
        'and a refused sampling occurred; told apart by history')
MINIMUM = {'samplings_current': 200, 'samplings_stale': 200, 'changes_after_mapping': 200, 'field_replacements': 20}


class Monitor:
    def __init__(self):
        self.dets = {}          # name -> Det, in order
        self.fields = {}        # name -> [data, grid, property, mapped]
        self.defaults = {}

    def touch(self):
        for f in self.fields.values():
            if f['mapped'] is not None:
                f['current'] = False

    def maybe_touch(self):
        """A change that leaves maps correct: refusing and accepting are both right."""
        for f in self.fields.values():
            if f['current'] is True:
                f['current'] = None


def history(case):
    from simim.instrument import Instrument
    from simim.map.gridder import Grid
    rng = case.rng
    inst = Instrument(spatial_unit='rad', spectral_unit='Hz', flux_unit='Jy')
    m = Monitor()
    ident = 0
    ok = stale = 0
    ops = []
    for step in range(int(rng.integers(10, 36))):
        r = rng.random()
        if not m.dets or r < .12 and len(m.dets) < 4:
            d = il.Det(rng, ident)
            ident += 1
            name = 'd%d' % ident
            inst.add_detector(name=name, **d.arguments())
            m.dets[name] = d
            m.touch()
            op = 'add ' + name
            case.observe('changes_after_mapping', any(f['mapped'] for f in m.fields.values()))
        elif not m.fields or r < .2 and len(m.fields) < 3:
            g = il.rand_field(rng, Grid)
            name = 'f%d' % int(rng.integers(3))
            if name in m.fields:
                continue
            p = int(rng.integers(int(g.n_properties)))
            inst.add_field(g, name=name, field_property_idx=p, in_place=bool(rng.random() < .5))
            m.fields[name] = {'data': g.grid[..., p].copy(), 'pix': np.asarray(g.pixel_size, float).copy(), 'axes': il.axes_of(g), 'mapped': None, 'current': False,
                              'geom': (np.asarray(g.center_point)[:2].copy(), np.asarray(g.pixel_size)[:2].copy(), np.asarray(g.n_pixels)[:2].copy())}
            op = 'field ' + name
        elif r < .26 and len(m.dets) > 1:
            name = list(m.dets)[int(rng.integers(len(m.dets)))]
            inst.del_detectors(name)
            m.dets.pop(name)
            m.touch()
            op = 'del ' + name
            case.observe('changes_after_mapping', any(f['mapped'] for f in m.fields.values()))
        elif r < .3 and len(m.fields) > 1:
            name = list(m.fields)[int(rng.integers(len(m.fields)))]
            inst.del_fields(name)
            m.fields.pop(name)
            op = 'delfield ' + name
            case.observe('field_replacements')
        elif r < .45:
            # change responses of some or all detectors, sometimes the default only
            some = [n for n in m.dets if rng.random() < .5]
            kind = ['spatial', 'spectral', 'noise'][int(rng.integers(3))]
            d = il.Det(rng, ident)
            ident += 1
            call = {'spatial': inst.set_spatial_respones, 'spectral': inst.set_spectral_respones, 'noise': inst.set_noise_functions}[kind]
            default_only = rng.random() < .15
            names = ['instrument'] if default_only else some + (['instrument'] if rng.random() < .2 else [])
            if kind == 'spatial':
                call(*names, spatial_response=d.spatial, spatial_kwargs=d.spatial_kw)
            elif kind == 'spectral':
                call(*names, spectral_response=d.spectral, spectral_kwargs=d.spectral_kw)
            else:
                call(*names, noise_function=d.noise, noise_kwargs=d.noise_kw)
            hit = [n for n in names if n != 'instrument'] if names else list(m.dets)
            for n in hit:
                o = m.dets[n]
                if kind == 'spatial':
                    o.spatial, o.spatial_kw, o.spatial_ref = d.spatial, dict(d.spatial_kw), d.spatial_ref
                elif kind == 'spectral':
                    o.spectral, o.spectral_kw, o.spectral_ref = d.spectral, dict(d.spectral_kw), d.spectral_ref
                else:
                    o.noise, o.noise_kw = d.noise, dict(d.noise_kw)
            # what the caller does with its dictionaries afterwards is its own business
            for k in (d.spatial_kw, d.spectral_kw, d.noise_kw):
                for q in k:
                    k[q] = 77.
            if hit:
                m.maybe_touch() if kind == 'noise' else m.touch()
                case.observe('changes_after_mapping', any(f['mapped'] for f in m.fields.values()))
            op = 'set %s %s' % (kind, names)
        elif r < .7:
            some = [n for n in m.fields if rng.random() < .6]
            kernel = int(rng.integers(1, 6))
            norm = ['peak', 'area', 'none'][int(rng.integers(3))]
            inst.map_fields(*some, kernel_size=kernel, spatial_response_norm=norm)
            for n in some or list(m.fields):
                m.fields[n].update(mapped=(kernel, norm), current=True)
            op = 'map %s' % some
        else:
            some = [n for n in m.fields if rng.random() < .6]
            ask = some or list(m.fields)
            npos = int(rng.integers(1, 8))
            pos = rng.uniform(-6, 6, size=(npos, 2))
            states = [m.fields[n]['current'] for n in ask]
            try:
                out = inst.sample_fields(pos.copy(), *some, sample_noise=False)
                refused = False
            except ValueError:
                refused = True
            op = 'sample %s %s' % (some, 'refused' if refused else 'ok')
            case.note(op)
            if all(s is True for s in states):
                case.check(not refused, 'current_refused', 'sampling of up to date maps was refused')
            elif any(s is False for s in states):
                case.check(refused, 'stale_used', 'sampling went ahead with a map that does not match the instrument: %s' % case.log[-6:])
            if refused:
                stale += 1
                case.observe('samplings_stale')
            else:
                ok += 1
                case.observe('samplings_current')
                for n in ask:
                    f = m.fields[n]
                    got = out if len(ask) == 1 else out[n]
                    case.check(got.shape == (npos, len(m.dets)), 'shape', lambda: 'samples of shape %s for %d positions and %d detectors' % (got.shape, npos, len(m.dets)))
                    for j, d in enumerate(m.dets.values()):
                        ref_map = il.map_ref(d, f['data'], f['pix'], f['axes'][2], *f['mapped'])
                        ref, sure = il.sample_ref(ref_map, f['geom'], pos + np.array(d.offset or (0, 0)))
                        case.close(got[sure, j], ref[sure], 'value', 'samples of field %s by detector %d' % (n, j), rtol=1e-7, atol=1e-8 * np.abs(f['data']).sum())
        case.note(op)
        ops.append(op.split()[0])
    case.observe('operations', len(ops))
    if ok and stale:
        case.nontrivial(tuple(ops))
    case.sample(case.log)


SCENARIOS = [('history', history, 400, 8000)]
