"""Bootstrap: makes the code under test importable from its current working tree, deterministically and
without leaving anything behind in it."""
import os
import sys
import tempfile

REPO = os.environ.get('MC_REPO', '/repo')


def reexec_if_needed():
    """Fix hash randomisation and thread counts; everything explored is then a function of the inputs alone."""
    vpy = "/opt/venv/bin/python"
    if os.path.exists(vpy) and sys.prefix != "/opt/venv":
        os.execv(vpy, [vpy, "-B"] + sys.argv)
    want = {'PYTHONHASHSEED': os.environ.get('MC_HASHSEED', '0'), 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
            'MKL_NUM_THREADS': '1', 'MPLBACKEND': 'Agg'}
    if any(os.environ.get(k) != v for k, v in want.items()):
        os.environ.update(want)
        os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)


def setup():
    sys.dont_write_bytecode = True
    os.environ.setdefault('MPLCONFIGDIR', os.path.join(tempfile.gettempdir(), 'mc-mpl-%d' % os.getuid()))
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import logging
    import warnings
    warnings.filterwarnings('ignore')
    logging.disable(logging.CRITICAL)
    devnull = open(os.devnull, 'w')
    old = sys.stdout
    sys.stdout = devnull
    try:
        import sampo.scheduler  # noqa: F401  (must be the first sampo import: the package has an import cycle)
        import sampo.base  # noqa: F401
    finally:
        sys.stdout = old
    import sampo
    assert os.path.realpath(list(sampo.__path__)[0]).startswith(os.path.realpath(REPO)), sampo.__path__
