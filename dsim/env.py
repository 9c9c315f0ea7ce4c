"""Bootstrap: puts the third-party stand-ins and the repository on the path and
installs the process-wide seams (clock, multiprocessing) before any repository
module is imported.  Everything happens at the stdlib / third-party boundary;
the repository itself is not modified."""
import logging
import os
import sys
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.path.abspath(os.environ.get('DSIM_REPO', '/repo'))
STUBS = os.path.join(HERE, 'stubs')

_done = False


def setup():
    global _done
    if _done:
        return
    _done = True
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    for p in (REPO, STUBS):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    import numpy as np
    if not hasattr(np, 'asscalar'):
        np.asscalar = lambda a: np.asarray(a).item()
    np.seterr(all='ignore')
    from dsim import clock, simproc
    clock.install()
    simproc.install()
    logging.disable(logging.CRITICAL)
