"""
Environment stubs: the numerical back ends symfit hands its problems to.

Each back end is replaced by a dispatcher.  If the running harness has put a
handler into ``world.env`` the (normalised) call goes there - typically a
nondeterministic stub which records the arguments and returns an arbitrary
point; otherwise the real scipy function runs.  Installed before symfit is
imported, so ``from scipy.optimize import minimize`` and attribute access are
both covered.
"""
import functools
import inspect

import numpy as np
import scipy.integrate
import scipy.optimize

from symx import core

NAMES = [
    (scipy.optimize, 'minimize'), (scipy.optimize, 'differential_evolution'),
    (scipy.optimize, 'basinhopping'), (scipy.optimize, 'least_squares'),
    (scipy.integrate, 'solve_ivp'), (scipy.integrate, 'odeint'),
]
_DONE = False


class Call(dict):
    """A normalised call: every parameter of the back end by name."""
    __getattr__ = dict.__getitem__


def _nothing_to_fit(name, call):
    """
    With every parameter fixed scipy's own functions raise, whatever they are
    given, except for these two methods: what happens then is not symfit's.
    """
    if name not in ('minimize', 'differential_evolution', 'basinhopping', 'least_squares'):
        return False
    if name == 'differential_evolution':
        b = call.get('bounds')
        return b is not None and not hasattr(b, 'lb') and len(list(b)) == 0
    x0 = call.get('x0')
    if x0 is None or np.size(x0):
        return False
    return not (name == 'minimize' and str(call.get('method')).lower() in ('nelder-mead', 'cobyla'))


def _make(name, orig):
    sig = inspect.signature(orig)

    @functools.wraps(orig)
    def f(*args, **kw):
        W = core.CUR
        if W is not None and name in W.env:
            b = sig.bind(*args, **kw)
            b.apply_defaults()
            call = Call(b.arguments)
            call['explicit'] = set(sig.bind(*args, **kw).arguments)
            for p in sig.parameters.values():
                if p.kind is p.VAR_KEYWORD:
                    call['extra'] = dict(b.arguments.get(p.name) or {})
            call.setdefault('extra', {})
            if W.symbolic and _nothing_to_fit(name, call):
                raise core.PathAbort()
            return W.env[name](call)
        return orig(*args, **kw)
    return f


def install():
    global _DONE
    if _DONE:
        return
    _DONE = True
    for mod, name in NAMES:
        setattr(mod, name, _make(name, getattr(mod, name)))
