"""Process environment for all checks: must be imported before numpy/pymcmcstat.

* /repo's working tree is imported directly (pure Python), byte code goes to a
  scratch folder, so no stale .pyc can hide an edit and /repo stays untouched.
* np.random is replaced by the controlled dispatcher of mc.rng before the code
  under test is imported.
"""
import importlib
import os
import sys
import tempfile
import atexit
import shutil
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[k] = '1'
os.environ['MPLBACKEND'] = 'Agg'
_owner = os.getpid()
SCRATCH = tempfile.mkdtemp(prefix='verif_')
os.environ['MPLCONFIGDIR'] = os.path.join(SCRATCH, 'mpl')
os.makedirs(os.environ['MPLCONFIGDIR'])

# dependencies first, with their own byte code; then only fresh byte code for the code under test
for _m in ('numpy', 'numpy.matlib', 'scipy', 'scipy.stats', 'scipy.interpolate', 'scipy.fftpack', 'h5py',
           'matplotlib.pyplot', 'pylab', 'mpl_toolkits.mplot3d', 'mpl_toolkits.mplot3d.art3d', 'deprecated',
           'mcmcplot', 'mcmcplot.mcmcplot', 'statsmodels', 'seaborn'):
    try:
        importlib.import_module(_m)
    except Exception:
        pass
sys.pycache_prefix = os.path.join(SCRATCH, 'pyc')


@atexit.register
def _cleanup():
    if os.getpid() == _owner:
        shutil.rmtree(SCRATCH, ignore_errors=True)


sys.path.insert(0, REPO)
warnings.simplefilter('ignore')

import numpy as np  # noqa: E402
from . import rng  # noqa: E402
rng.install()


def import_target():
    """Import the code under test; returns None, or the exception raised."""
    try:
        import pymcmcstat
        from pymcmcstat.MCMC import MCMC  # noqa
        assert os.path.realpath(pymcmcstat.__file__).startswith(os.path.realpath(REPO)), pymcmcstat.__file__
        return None
    except BaseException as ex:  # noqa
        return ex


def scratch_dir():
    return tempfile.mkdtemp(prefix='run_', dir=SCRATCH)
