"""Shared stand-in for the ODE integrator: an arbitrary flow, with scipy's own demands on its input."""
import numpy as np


class Answer:
    pass


def flow(W, k, t, t0, y0, args):
    """Value at t of component k of the solution through (t0, y0)."""
    if t == t0:
        return y0[k]
    return W.F('phi%d' % k, (), [t, t0] + list(y0) + list(args))


def integrator(W, log=None, fails=()):
    """Handler for solve_ivp; fails: 'fwd' and/or 'bwd' integrations which end without success."""
    def solve(call):
        if log is not None:
            log.append(call)
        t0, t1 = call.t_span
        y0 = list(call.y0)
        args = list(call.args or ())
        fwd = bool(t1 > t0)
        te = list(call.t_eval)
        for i, t in enumerate(te):
            inside = (t >= t0) & (t <= t1) if fwd else (t <= t0) & (t >= t1)
            if not inside:
                raise ValueError('Values in `t_eval` are not within `t_span`.')
            if i and not ((t > te[i - 1]) if fwd else (t < te[i - 1])):
                raise ValueError('Values in `t_eval` are not properly sorted.')
        a = Answer()
        a.success = ('fwd' if fwd else 'bwd') not in fails
        a.status, a.message = (0, 'fine') if a.success else (-1, 'stub: cannot go on')
        a.t = call.t_eval
        a.y = np.empty((len(y0), len(te)), dtype=object)
        for k in range(len(y0)):
            for i, t in enumerate(te):
                a.y[k, i] = flow(W, k, t, t0, y0, args)
        if not W.symbolic:
            a.y = a.y.astype(float)
        return a
    return solve
