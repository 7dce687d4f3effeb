"""Environment of the code under test: paths, scratch folders, guards."""
import contextlib
import os
import shutil
import sys
import tempfile
import warnings

from .core import REPO, Violation

PYTHON = '/opt/venv/bin/python'
EXTRA = ['/opt/veriftools/pyvenv/lib/python3.12/site-packages']

_real_rmtree = shutil.rmtree
_real_remove = os.remove
_real_unlink = os.unlink


def setup():
    """Prepare imports of the repository and of Hypothesis."""
    for name in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS',
                 'NUMEXPR_NUM_THREADS', 'MKL_NUM_THREADS',
                 'NUMEXPR_MAX_THREADS'):
        os.environ[name] = '1'
    os.environ['GDAL_NUM_THREADS'] = '1'
    sys.dont_write_bytecode = True
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    for p in EXTRA:
        if p not in sys.path:
            sys.path.append(p)
    warnings.simplefilter('ignore')
    os.environ['PYTHONWARNINGS'] = 'ignore'
    import logging
    logging.disable(logging.NOTSET)
    # arrays are formatted for each logged call, whether it is shown or not
    import numpy
    numpy.set_printoptions(threshold=8, edgeitems=1)


def scratch_base():
    return os.environ.get('VERIF_SCRATCH', tempfile.gettempdir())


def scratch_root():
    return tempfile.mkdtemp(prefix='wmverif-', dir=scratch_base())


def new_scratch(root):
    return tempfile.mkdtemp(prefix='case-', dir=root)


def remove_scratch(path, root):
    """Remove a scratch folder that this harness made, and nothing else."""
    path = os.path.realpath(path)
    if 'wmverif-' not in path:
        raise RuntimeError('not a scratch folder: %s' % path)
    _real_rmtree(path, ignore_errors=True)


class Guard(object):
    """
    While active, the code under test can only delete inside a folder: a
    deletion elsewhere is recorded and refused.
    """

    def __init__(self, inside):
        self.inside = os.path.realpath(inside) + os.sep
        self.escaped = []

    def _ok(self, path, follow):
        path = os.fspath(path)
        if follow:
            real = os.path.realpath(path)
        else:
            real = os.path.join(os.path.realpath(os.path.dirname(
                os.path.abspath(path))), os.path.basename(path))
        if (real + os.sep).startswith(self.inside):
            return True
        self.escaped.append(real)
        return False

    def __enter__(self):
        def rmtree(path, *args, **kwargs):
            if not self._ok(path, True):
                raise Violation('deletes %s, outside its output' % path)
            with _Real():
                return _real_rmtree(path, *args, **kwargs)

        def remove(path, *args, **kwargs):
            if kwargs.get('dir_fd') is None and not self._ok(path, False):
                raise Violation('deletes %s, outside its output' % path)
            return _real_remove(path, *args, **kwargs)

        self._now = (rmtree, remove)
        shutil.rmtree, os.remove, os.unlink = rmtree, remove, remove
        return self

    def __exit__(self, *exc):
        shutil.rmtree = _real_rmtree
        os.remove = _real_remove
        os.unlink = _real_unlink
        return False


class _Real(object):
    """The real deletions, for the inside of a removal already allowed."""

    def __enter__(self):
        self.was = (os.remove, os.unlink)
        os.remove, os.unlink = _real_remove, _real_unlink

    def __exit__(self, *exc):
        os.remove, os.unlink = self.was
        return False


def remember_git():
    """
    Ask git for the version of the code once, and not for every file that is
    written (for checks of many tiles).
    """
    import subprocess
    real = subprocess.check_output
    known = {}

    def check_output(*args, **kwargs):
        command = args[0] if args else kwargs.get('args')
        if not (isinstance(command, (list, tuple)) and
                command[:1] in (['git'], ('git',))):
            return real(*args, **kwargs)
        key = (tuple(command), str(kwargs.get('cwd')))
        if key not in known:
            known[key] = real(*args, **kwargs)
        return known[key]
    subprocess.check_output = check_output


@contextlib.contextmanager
def raced(folder):
    """Another process makes this folder just before this one does"""
    real = os.mkdir

    def mkdir(path, mode=0o777, **more):
        if os.path.realpath(path) == os.path.realpath(folder) and \
                not os.path.exists(folder):
            real(path)
        return real(path, mode, **more)

    os.mkdir = mkdir
    try:
        yield
    finally:
        os.mkdir = real
