"""For demonstrations: a private copy of the package in /repo (the current
directory) in a scratch directory, with its data directory there too."""
import atexit
import contextlib
import io
import os
import shutil
import sys
import tempfile
import warnings

import numpy as np

here = os.path.dirname(os.path.abspath(__file__))
top = tempfile.mkdtemp(prefix='vdemo_')
atexit.register(shutil.rmtree, top, True)
site, root, home = (os.path.join(top, d) for d in ('site', 'data', 'home'))
for d in (site, root, home):
    os.mkdir(d)
shutil.copytree(os.path.join(os.getcwd(), 'simim'), os.path.join(site, 'simim'),
                ignore=shutil.ignore_patterns('__pycache__', 'rootpath.txt'))
os.environ.update(HOME=home, MPLBACKEND='Agg', MPLCONFIGDIR=home, XDG_CONFIG_HOME=home, XDG_CACHE_HOME=home)
sys.dont_write_bytecode = True
sys.path[:] = [site, here] + [p for p in sys.path if p not in ('', os.getcwd())]
os.chdir(top)
warnings.simplefilter('ignore')
with open(os.path.join(site, 'simim', 'resources', 'rootpath.txt'), 'w') as f:
    f.write(root)
for d in ('', '.paths', 'simulations', 'lightcones', 'galprops'):
    os.makedirs(os.path.join(root, 'simim_resources', d), exist_ok=True)
import simim
assert simim.__file__.startswith(site)
import simlib


class Case:
    def __init__(self, seed=0):
        self.rng = np.random.default_rng(seed)
        self.build = self
        self.dir, self.root = top, root

    @contextlib.contextmanager
    def quiet(self):
        with contextlib.redirect_stdout(io.StringIO()):
            yield


def make_sim(seed=0, **kw):
    return simlib.make_sim(Case(seed), **kw)


def expect(ok, what):
    if not ok:
        print('FAILS:', what)
        sys.exit(1)
    print('ok:', what)


def refuses(f, what):
    try:
        with Case().quiet():
            f()
    except Exception as e:
        print('ok: refused', what, '(%s)' % type(e).__name__)
        return
    expect(False, what + ' is refused')
