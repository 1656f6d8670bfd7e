"""C21: every object of a light cone is a halo of the simulation, seen in the
field from the observer; position, angles, redshift and mass belong together."""
import lclib as ll
import numpy as np

PROPERTY = 'C21'
NEEDS_DATA = True
RULE = ('a case is a random simulation and light cone (box or circle, any aspect, mass and redshift limits), built 1-3 times; every '
        'object is looked up among the periodic images of the halos, and its columns compared with each other, in the file and through '
        'the handler in both unit systems; non-trivial when there were objects; told apart by simulation and light cone')
setup = ll.setup


def judge(case, s, c, n):
    from simim.lightcone import LCHandler
    mk = ll.make_cone(s, c, 'lc')
    ll.build(case, s, mk, n)
    total = 0
    for i, p in enumerate(ll.files(mk, n)):
        what = 'light cone %d' % i
        attrs, got, _ = ll.read(p)
        case.note('%r, box %s, reaching %s' % (c, s.box, ll.D(s, c.z1)))
        ll.derived(case, s, c, got, what)
        ll.match(case, s, got, ll.expected_cone(s, c, attrs), what, judge=('expected',))
        total += len(got['mass'])
        d = bool(case.rng.integers(2))
        h = LCHandler(s.name, 'lc', i, in_h_units=d)
        case.check(h.nhalos_all == len(got['mass']), 'handler_count', lambda: '%s: handler has %s objects of %s' % (what, h.nhalos_all, len(got['mass'])))
        case.close(h.metadata['cosmo_h'], s.h, 'handler_h', what + ': h')
        if not len(got['mass']):
            continue
        for k in ll.BASIC:
            hd = -1 if k[:3] == 'pos' or k == 'mass' else 0
            for u in (None, True, False):
                f = 1.0 if (d if u is None else u) else s.h ** hd
                case.close(np.asarray(h.return_property(k, in_h_units=u), float), np.asarray(got[k], float) * f, 'handler_values',
                           '%s: %s from the handler (in_h_units=%s)' % (what, k, u), rtol=3e-6)
    if total:
        case.nontrivial(repr(c), s.box, total)
    case.sample('%r in a box of %s: %d objects' % (c, s.box, total))


def cone(case):
    s = ll.lc_sim(case)
    judge(case, s, ll.cone_spec(case, s, wide=0.3), int(case.rng.integers(1, 4)))


def behind(case):
    """Wide, nearby light cones: much of the box lies behind the observer."""
    s = ll.lc_sim(case, zmax=0.06, gap=0.005)
    judge(case, s, ll.cone_spec(case, s, wide=0.35), 2)


def tiled(case):
    name = ['TNG100-1', 'Illustris-3', 'TNG300-2', 'TNG100-2-Dark'][int(case.rng.integers(4))]
    s = ll.lc_sim(case, name=name, n_halos=(100, 1500))
    c = ll.cone_spec(case, s, wide=0.55)
    c.angle = min(c.angle, 0.95 * s.box / ll.D(s, c.z1))
    judge(case, s, c, int(case.rng.integers(1, 3)))

def crowded(case):
    """Snapshots of more halos than two bytes can count."""
    s, c = ll.crowded(case)
    judge(case, s, c, 1)


SCENARIOS = [('crowded', crowded, 2, 10), ('cone', cone, 70, 800), ('behind', behind, 40, 400), ('tiled', tiled, 30, 300)]
MINIMUM = {'light_cones': 180, 'objects': 10000}
