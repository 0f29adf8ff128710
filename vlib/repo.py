"""Imports of the code under test, with a fake MPI, always from /repo's working tree."""
import importlib, os, sys
from . import fakempi

REPO = os.environ.get('REPO', '/repo')


def mod(name, mpi=True):
    if mpi and 'mpi4py' not in sys.modules:
        fakempi.install()
    m = importlib.import_module(name)
    f = os.path.abspath(m.__file__)
    assert f.startswith(os.path.abspath(REPO) + os.sep), f
    return m
