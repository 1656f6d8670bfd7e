"""Sanity of the sandbox: the interpreter and the libraries the checks need."""
import os
import sys
import numpy, scipy, astropy, h5py  # noqa: F401,E401
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
os.makedirs(os.path.join(here, 'replays'), exist_ok=True)
print('python', sys.version.split()[0], 'numpy', numpy.__version__, 'scipy', scipy.__version__,
      'astropy', astropy.__version__, 'h5py', h5py.__version__)
