"""C24: a sphere, or part of one, holds every halo around its observer within
its distances once, and nothing else."""
import numpy as np
import lclib as ll

PROPERTY = 'C24'
NEEDS_DATA = True
RULE = ('a case is a random simulation and sphere (whole, half, quarter, eighth; mass and redshift limits, at boundaries of snapshots too, '
        'up to the size of the box), built 1-3 times and compared with all periodic images of all halos; non-trivial when images were '
        'expected; told apart by simulation and sphere')
setup = ll.setup


def judge(case, s, c, n, **kw):
    mk = ll.make_sphere(s, c, 'lc')
    ll.build(case, s, mk, n)
    total = 0
    for i, p in enumerate(ll.files(mk, n)):
        attrs, got, _ = ll.read(p)
        what = '%s %d' % (c.mode, i)
        rows = ll.expected_sphere(s, c, attrs)
        case.note('%r, box %s, reaching %s' % (c, s.box, ll.D(s, c.z1)))
        ll.derived(case, s, c, got, what)
        ll.match(case, s, got, rows, what, **kw)
        total += len(rows)
    if total:
        case.nontrivial(repr(c), s.box, total)
    case.observe(c.mode, n)
    case.sample('%r in a box of %s: %d objects' % (c, s.box, total))


def sphere(case):
    s = ll.sphere_sim(case)
    judge(case, s, ll.sphere_spec(case, s), int(case.rng.integers(1, 4)))


def crowded(case):
    """Snapshots of more halos than two bytes can count, and thin shells."""
    s, c = ll.crowded_sphere(case)
    judge(case, s, c, 1)


def beyond(case):
    """Radii between half the box in Mpc/h and half the box in Mpc."""
    s = ll.sphere_sim(case, h=float(case.rng.uniform(0.55, 0.85)))
    c = ll.sphere_spec(case, s, beyond=True)
    if c is None:
        return
    try:
        ll.make_sphere(s, c, 'lc')
    except ValueError:
        case.observe('refused_beyond')
        return
    case.observe('built_beyond')
    judge(case, s, c, 1, missing_key='sphere radius between half the box edge in Mpc/h and half the box edge in Mpc')


def too_large(case):
    """A sphere that no box holds is refused, whatever the unit of its edge."""
    s = ll.sphere_sim(case)
    c = ll.sphere_spec(case, s)
    reach = c.limit / s.h * float(case.rng.uniform(1.02, 1.2))
    top = float(s.snaps['redshift_max'].max())
    from scipy.optimize import brentq
    if ll.D(s, top) < reach:
        c.zmax = 'max'
        return
    c.zmax = c.z1 = float(brentq(lambda z: ll.D(s, z) - reach, 1e-9, top))
    c.zmin = 0
    case.note('%r, box %s, reaching %s' % (c, s.box, reach))
    case.refuses('too_large_accepted', '%r: a sphere with radius %s in a box of %s Mpc/h is not refused' % (c, reach, s.box),
                 ll.make_sphere, s, c, 'lc')
    case.nontrivial(repr(c), s.box)


SCENARIOS = [('crowded', crowded, 2, 10), ('sphere', sphere, 120, 1200), ('beyond', beyond, 16, 60), ('too_large', too_large, 24, 100)]
MINIMUM = {'light_cones': 180, 'objects': 20000, 'sphere': 20, 'hemisphere': 20, 'quarter': 20, 'eighth': 20, 'refusals_observed': 5}
