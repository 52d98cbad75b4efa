# Import third-party packages with their normal byte-code caches, then point the cache elsewhere, so that the code
# under test is always compiled from its current source and never from a stale .pyc.
import os, sys, tempfile
import numpy, scipy.stats, scipy.interpolate, scipy.optimize, pandas, tqdm  # noqa: F401
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir(), "pyc-%d" % os.getpid())
