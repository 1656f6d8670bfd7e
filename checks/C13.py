"""C13: what a handler returns is what its catalogue holds, in the units asked for,
through any history of loading, unloading, making, writing and deleting properties."""
import numpy as np
import handlerlib as hl
import simlib as sl

PROPERTY = 'C13'
NEEDS_DATA = True
RULE = ('a case is one random synthetic simulation and a history of operations on the handler of one snapshot; after '
        'every operation listings and values (all or selected halos; little-h units by default, asked for, or refused) '
        'are compared with a model; non-trivial when a property was made and values were compared; told apart by history')


def history(case):
    from simim.siminterface import SimHandler
    rng = case.rng
    s = sl.make_sim(case, n_snaps=int(rng.integers(1, 3)), n_halos=sl.some_halos(case, 15), labels='mixed')
    k = int(rng.integers(s.n_snaps))
    d = bool(rng.integers(2))
    with case.quiet():
        sim = SimHandler(sl.SIM, in_h_units=d)
        h = sim.get_snap(s.labels[k])
    m = hl.Model(s.truth[k], s.fields, s.h, d)
    hist = hl.History(case, h, m, ops=['load', 'unload', 'unload', 'make', 'make', 'make', 'write', 'delete', 'select', 'units', 'bad'])
    hl.compare(case, h, m, 'a fresh handler')
    for i in range(int(rng.integers(5, 15))):
        hist.step()
        hl.compare(case, h, m, 'after %s' % hist.trace[-1], everything=False)
    hl.compare(case, h, m, 'at the end')
    if 'make' in hist.trace:
        case.nontrivial(hist.trace, s.h)
    case.sample('h=%.3f, %d halos: %s' % (s.h, m.n, ' '.join(hist.trace)))


def returned_arrays_are_copies(case):
    """Changing what was returned does not change the handler."""
    from simim.siminterface import SimHandler
    rng = case.rng
    s = sl.make_sim(case, n_snaps=1, n_halos=int(rng.integers(2, 10)))
    with case.quiet():
        h = SimHandler(sl.SIM).get_snap(0)
    m = hl.Model(s.truth[0], s.fields, s.h, False)
    names = sorted(m.saved)
    for name in names[:4]:
        if rng.random() < 0.5:
            h.load_property(name)
            m.loaded[name] = m.saved[name]
    with case.quiet():
        hl.History(case, h, m).make()
    names = sorted(m.names())
    for name in names:
        for in_h in (True, False):
            v = h.return_property(name, use_all_inds=bool(rng.integers(2)), in_h_units=in_h)
            v[...] = 0
            case.observe('mutations')
    for which in ('any', 'loaded', 'saved', 'generated'):
        keys = h.extract_keys(which)
        keys.append('not a property')
        h.extract_keys(which)[:0] = ['nor this']
    hl.compare(case, h, m, 'after changing returned arrays')
    case.nontrivial(s.h)


SCENARIOS = [('history', history, 120, 2500), ('returned_arrays_are_copies', returned_arrays_are_copies, 20, 200)]
MINIMUM = {'operations': 500, 'values_compared': 10000, 'partial_makes': 10, 'full_makes': 50, 'clashes_refused': 20,
           'writes': 20, 'deletes': 20, 'unsaved_unloads': 5, 'refused_requests': 30, 'selections': 30}
