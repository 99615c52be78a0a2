"""Let the discrete-optimisation modules be imported where optional, absent packages are only needed by solvers that are not exercised.

Stand-ins (never called by a check) replace gurobi/docplex and the relocated OR-tools knapsack module; directories of data sets that were never
downloaded look empty while parsers are imported.  Nothing of /repo is replaced."""
import contextlib
import importlib.util
import io
import os
import sys
from unittest.mock import MagicMock

_done = False


def install():
    global _done
    if _done:
        return
    _done = True
    os.environ.setdefault('MPLBACKEND', 'agg')
    for n in ('gurobi', 'gurobipy', 'docplex', 'docplex.mp', 'docplex.mp.model', 'docplex.mp.dvar'):
        top = n.split('.')[0]
        try:
            missing = importlib.util.find_spec(top) is None
        except (ImportError, ValueError):
            missing = True
        if missing or top in sys.modules and isinstance(sys.modules[top], MagicMock):
            m = MagicMock(name=n)
            m.__spec__ = None
            m.__path__ = []
            sys.modules[n] = m
    try:
        import ortools.algorithms as oa
        if not hasattr(oa, 'pywrapknapsack_solver'):
            m = MagicMock(name='pywrapknapsack_solver')
            m.__spec__ = None
            sys.modules['ortools.algorithms.pywrapknapsack_solver'] = m
            oa.pywrapknapsack_solver = m
    except ImportError:
        pass


@contextlib.contextmanager
def empty_data_dirs():
    real = os.listdir

    def listdir(p='.'):
        try:
            return real(p)
        except FileNotFoundError:
            return []
    os.listdir = listdir
    try:
        yield
    finally:
        os.listdir = real


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield
