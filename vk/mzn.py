"""MiniZinc models of the library solved with the installed Gecode.

The Gecode library here is older than MiniZinc: `include "globals.mzn"` pulls in definitions it does not know.  The models are copied to a scratch
directory at run time (so they are always those of the working tree) with that include narrowed to the predicates in use."""
import atexit
import os
import shutil
import tempfile


def narrowed(src, includes, sub='minizinc', keep=('solvers', 'solver')):
    tmp = tempfile.mkdtemp(prefix='vkmzn')
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(tmp, ignore_errors=True))
    os.makedirs(os.path.join(tmp, sub))
    for k in keep:
        os.makedirs(os.path.join(tmp, k))
    for f in os.listdir(src):
        if f.endswith('.mzn'):
            text = open(os.path.join(src, f)).read().replace('include "globals.mzn";', includes)
            open(os.path.join(tmp, sub, f), 'w').write(text)
    return tmp
