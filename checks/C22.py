"""C22: every image of every halo that lies in the field of a light cone is in
the light cone, exactly once."""
import lclib as ll

PROPERTY = 'C22'
NEEDS_DATA = True
RULE = ('a case is a random simulation and light cone (box or circle, any aspect, mass and redshift limits, at boundaries of '
        'snapshots too), built 1-3 times; all periodic images of all halos are compared with its objects; non-trivial when '
        'images were expected; told apart by simulation and light cone')
setup = ll.setup


def judge(case, s, c, n):
    mk = ll.make_cone(s, c, 'lc')
    ll.build(case, s, mk, n)
    total = 0
    for i, p in enumerate(ll.files(mk, n)):
        attrs, got, _ = ll.read(p)
        rows = ll.expected_cone(s, c, attrs)
        case.note('%r, box %s, reaching %s' % (c, s.box, ll.D(s, c.z1)))
        ll.match(case, s, got, rows, 'light cone %d' % i, judge=('once', 'complete'))
        total += len(rows)
    if total:
        case.nontrivial(repr(c), s.box, total)
    case.sample('%r in a box of %s: %d objects' % (c, s.box, total))


def cone(case):
    s = ll.lc_sim(case)
    judge(case, s, ll.cone_spec(case, s, wide=0.3), int(case.rng.integers(1, 4)))


def long(case):
    """Many periods of a small box."""
    s = ll.lc_sim(case, box=float(case.rng.uniform(30, 45)), n_halos=(200, 1000))
    judge(case, s, ll.cone_spec(case, s, wide=0.25), 1)


def tiled(case):
    """Simulations of which the package uses several copies side by side."""
    name = ['TNG100-1', 'Illustris-3', 'TNG300-2', 'TNG100-2-Dark'][int(case.rng.integers(4))]
    s = ll.lc_sim(case, name=name, n_halos=(100, 1500))
    c = ll.cone_spec(case, s, wide=0.55)
    far = ll.D(s, c.z1)
    c.angle = min(c.angle, 0.95 * s.box / far)
    judge(case, s, c, int(case.rng.integers(1, 3)))


def crowded(case):
    s, c = ll.crowded(case)
    judge(case, s, c, 1)


SCENARIOS = [('crowded', crowded, 2, 10), ('cone', cone, 90, 900), ('long', long, 30, 300), ('tiled', tiled, 40, 400)]
MINIMUM = {'light_cones': 200, 'objects': 8000, 'images_expected': 8000}
