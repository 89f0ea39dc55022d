"""Import the code under test from /repo's working tree, without reading or writing bytecode caches."""
import os
import sys
import tempfile
import atexit
import shutil

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
# A directory that never exists: no stale .pyc of an earlier version of the sources can be picked up.
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'verif-no-pycache-%d' % os.getpid())

_mpl = tempfile.mkdtemp(prefix='verif-mpl-')
_owner = os.getpid()
os.environ['MPLCONFIGDIR'] = _mpl
os.environ['MPLBACKEND'] = 'Agg'
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')


def _cleanup():
    if os.getpid() == _owner:
        shutil.rmtree(_mpl, ignore_errors=True)


atexit.register(_cleanup)
sys.path.insert(0, REPO)
import warnings
warnings.simplefilter('ignore')
import logging
logging.getLogger('matplotlib').setLevel(logging.ERROR)


def load():
    """Import foronoi and make sure that it is the one in REPO."""
    import foronoi
    where = os.path.realpath(foronoi.__file__)
    want = os.path.realpath(REPO) + os.sep
    if not where.startswith(want):
        raise RuntimeError('foronoi was imported from %s instead of %s' % (where, want))
    return foronoi
