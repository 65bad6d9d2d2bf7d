"""Shared set-up of the objective harnesses (C05-C08): models with data bound to them."""
import copy

import numpy as np

from symfit import CallableModel, CallableNumericalModel, GradientModel, Model
from symx.jets import vars_
from harness.c01 import depends_on_data
from harness.lib import SHAPES, Shape, integers, penv_of, perms

CLASSES = {'Model': Model, 'GradientModel': GradientModel, 'CallableModel': CallableModel,
           'Numerical': CallableNumericalModel}

SHAPES = dict(SHAPES)
SHAPES.update({
    'two': Shape({'z': ('g', ['x', 'b', 'a']), 'y': ('f', ['a', 'x'])}, 'ab'),
    'constonly': Shape({'y': ('f', ['b', 'a'])}, 'ab'),
    'ragged': Shape({'z': ('g', ['x', 'b']), 'w': ('h', ['a', 't', 'b']), 'y': ('f', ['b', 'x', 'a'])}, 'ab'),
    'one': Shape({'y': ('f', ['a', 'x'])}, 'a'),
})
# the user's data may be laid out differently for independent variables
# that no component combines: {variable: shape}
LAYOUTS = {
    '1': (1,), '2': (2,), '3': (3,), '2d': (2, 2), '2x1': (2, 1), '1x2': (1, 2), '3d': (2, 1, 2),
    'x2t3': {'x': (2,), 't': (3,)}, 'x1t2': {'x': (1,), 't': (2,)}, 'x3t1': {'x': (3,), 't': (1,)},
    'x22t2': {'x': (2, 2), 't': (2,)},
}


def shape_of(sh, layout, comp, seen=None):
    """Shape of the data of a component."""
    lay = LAYOUTS[layout]
    if isinstance(lay, tuple):
        return lay
    for a in sh.comp[comp][1]:
        if a in sh.comp:
            s = shape_of(sh, layout, a)
            if s:
                return s
        elif a in lay:
            return lay[a]
    return lay['x']


class Problem:
    """A model, data for it, and the oracle's view of each data point."""

    def __init__(self, W, shape, cls='Model', order=None, layout='2', none=(), sigma=True, dep=True, nshort=None,
                 fixed=(), ints=False):
        self.W, self.sh = W, SHAPES[shape]
        sh = self.sh
        ps = perms(len(sh.comp))
        pkw = {p: dict(value=W.real('fix_' + p), fixed=True) for p in fixed}
        self.model, self.s = sh.model(W, CLASSES[cls], ps[W.choose('order', len(ps))] if order is None else ps[order], pkw)
        lay = LAYOUTS[layout]
        self.xshape = {x: (lay if isinstance(lay, tuple) else lay[x]) for x in sh.xnames}
        self.x = {x: (integers(s, k) if ints else W.reals(x, s)) for k, (x, s) in enumerate(self.xshape.items())}
        self.yshape = {c: shape_of(sh, layout, c) for c in sh.sinks}
        self.y, self.sig, self.data = {}, {}, {}
        m = self.model
        for x in sh.xnames:
            self.data[self.s[x]] = self.x[x]
        for c in (sh.sinks if dep else ()):
            if c in none:
                self.data[self.s[c]] = self.data[m.sigmas[self.s[c]]] = None
                continue
            self.y[c] = integers(self.yshape[c], 2 + len(self.y)) if ints else W.reals('d_' + c, self.yshape[c])
            self.sig[c] = 2 ** (abs(integers(self.yshape[c], 7)) // 3 % 3) if ints else W.reals('s_' + c, self.yshape[c], nonzero=True) if sigma else np.ones(self.yshape[c])
            self.data[self.s[c]] = self.y[c]
            self.data[m.sigmas[self.s[c]]] = self.sig[c]
        self.pe = penv_of(W, sh, 'p_')
        if ints == 'all':
            self.pe = {p: 3 * k + 2 for k, p in enumerate(sh.pnames)}
        self.fixed = list(fixed)
        for p in fixed:
            self.pe[p] = pkw[p]['value']
        self.style = W.choose('style', 2)
        self.array = None
        self.free = [p for p in sh.pnames if p not in fixed]

    def point(self, c, i):
        """Values of the independent variables at data point i of component c."""
        if not depends_on_data(self.sh, c):
            return {x: 0 for x in self.sh.xnames}
        return {x: (v[i] if v.shape == self.yshape[c] else 0) for x, v in self.x.items()}

    def jets(self, c, i):
        """The component's value at its data point i as a jet in all parameters."""
        js = vars_([self.pe[p] for p in self.sh.pnames])
        env = dict(zip(self.sh.pnames, js))
        env.update(self.point(c, i))
        need = self._closure(c)
        sub = Shape({k: self.sh.comp[k] for k in need}, self.sh.pnames)
        v = sub.values(env)[c]
        from symx.jets import Jet
        return v if isinstance(v, Jet) else Jet.const(v, len(js))

    def _closure(self, c):
        out = [c]
        for a in self.sh.comp[c][1]:
            if a in self.sh.comp:
                out += [k for k in self._closure(a) if k not in out]
        return out

    def sibling(self):
        """The same model with data of its own."""
        q, W = copy.copy(self), self.W
        q.array, q.style = None, 0
        q.x = {x: W.reals('other_' + x, v.shape) for x, v in self.x.items()}
        q.y = {c: W.reals('other_d_' + c, v.shape) for c, v in self.y.items()}
        q.sig = {c: W.reals('other_s_' + c, v.shape, nonzero=True) for c, v in self.sig.items()}
        q.data = {self.s[x]: v for x, v in q.x.items()}
        for c in q.y:
            q.data[self.s[c]], q.data[self.model.sigmas[self.s[c]]] = q.y[c], q.sig[c]
        return q

    def call(self, method, **kw):
        """Call with free parameters by position or by name; in an array which is used again; or the last ones by name."""
        if self.style == 3:
            return method([self.pe[p] for p in self.free[:1]], **{p: self.pe[p] for p in self.free[1:]}, **kw)
        if self.style == 2:
            if self.array is None:
                self.array = np.empty(len(self.free), dtype=object if self.W.symbolic else float)
            self.array[:] = [self.pe[p] for p in self.free]
            return method(self.array, **kw)
        if self.style:
            return method([self.pe[p] for p in self.free], **kw)
        return method(**{p: self.pe[p] for p in self.free}, **kw)
