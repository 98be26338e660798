"""
The environment of the code under test: where it is imported from, and the
seams through which the explorer controls its nondeterminism (the numerical
optimizer, the global random number generator, and numpy's error state).
"""
import os
import sys
import warnings

from . import core

_done = False


class Optimizer(object):
    """Stands in for scipy.optimize.minimize.  `hook(real, fun, x0, **kw)`
    decides what the optimizer answers; None delegates to scipy."""
    hook = None
    real = None
    calls = 0


def _minimize(fun, x0, *args, **kw):
    Optimizer.calls += 1
    if Optimizer.hook is None:
        return Optimizer.real(fun, x0, *args, **kw)
    names = ('args', 'method', 'jac', 'hess', 'hessp', 'bounds',
             'constraints', 'tol', 'callback', 'options')
    for n, a in zip(names, args):
        kw[n] = a
    return Optimizer.hook(fun, x0, **kw)


def setup(root=None):
    """make `import kamrecsys` take the code at `root` (default: /repo)"""
    global _done
    if _done:
        return
    _done = True
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    root = root or core.REPO
    if root not in sys.path:
        sys.path.insert(0, root)
    import logging
    logging.disable(logging.CRITICAL)
    import numpy as np
    np.seterr(all='ignore')
    import scipy.optimize as so
    Optimizer.real = so.minimize
    so.minimize = _minimize
    import kamrecsys
    where = os.path.realpath(os.path.dirname(kamrecsys.__file__))
    if where != os.path.realpath(os.path.join(root, 'kamrecsys')):
        raise RuntimeError('imported from a wrong place: ' + where)


def closure(fun, x0, kw):
    """-> (f(x), g(x) or None) hiding the calling convention of minimize"""
    import numpy as np
    args = kw.get('args', ())
    if not isinstance(args, tuple):
        args = (args,)
    jac = kw.get('jac')
    if jac is True:
        return (lambda x: float(fun(np.array(x, dtype=float), *args)[0]),
                lambda x: np.array(fun(np.array(x, dtype=float), *args)[1]))
    g = None
    if callable(jac):
        def g(x):
            return np.array(jac(np.array(x, dtype=float), *args))
    return (lambda x: float(fun(np.array(x, dtype=float), *args))), g


def result(x, fun, status=0, message='ok', nit=3, nfev=5, njev=4, **kw):
    from scipy.optimize import OptimizeResult
    import numpy as np
    return OptimizeResult(
        x=np.array(x, dtype=float), fun=fun, status=status,
        success=status == 0, message=message, nit=nit, nfev=nfev, njev=njev,
        **kw)


class controlled(object):
    """context manager: with controlled(hook): model.fit(...)"""

    def __init__(self, hook):
        self.hook = hook

    def __enter__(self):
        self.prev = Optimizer.hook
        Optimizer.hook = self.hook
        self.before = Optimizer.calls
        return self

    @property
    def used(self):
        return Optimizer.calls - self.before

    def __exit__(self, *a):
        Optimizer.hook = self.prev
        return False
