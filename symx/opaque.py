"""
Opaque (arbitrary, smooth) functions usable inside sympy expressions.

``opaque('f', 2)`` is a sympy Function class of two arguments without any
definition: symfit differentiates it symbolically (``fdiff`` gives further
opaque functions standing for the partial derivatives, mixed partials being
symmetric), and lambdify evaluates it through ``_imp_``, which asks the current
world for the value of the application: an uninterpreted-function application in
the symbolic world, an interpolation table in a replay.
"""
import sys

import numpy as np
import sympy

from symx import core

_THIS = sys.modules[__name__]
_CACHE = {}


def _make_imp(name, midx, arity):
    def scalar(*args):
        return core.CUR.F(name, midx, args)
    uf = np.frompyfunc(scalar, arity, 1)

    def imp(*args):
        out = uf(*args)
        if core.CUR.symbolic:
            return out
        return np.asarray(out, dtype=float)[()]
    return imp


def opaque(name, arity, midx=()):
    midx = tuple(sorted(midx))
    key = (name, arity, midx)
    if key in _CACHE:
        return _CACHE[key]
    cname = '%s%d%s' % (name, arity, ('_d' + ''.join(map(str, midx))) if midx else '')

    def fdiff(self, argindex=1):
        return opaque(name, arity, midx + (argindex - 1,))(*self.args)
    imp = _make_imp(name, midx, arity)
    cls = type(sympy.Function)(cname, (sympy.Function,), {
        'nargs': arity, 'fdiff': fdiff, '_imp_': staticmethod(imp),
        '__module__': __name__, '__qualname__': cname, 'is_real': True,
    })
    setattr(_THIS, cname, cls)
    _CACHE[key] = cls
    return cls


def __getattr__(cname):
    # unpickling in a fresh process: rebuild classes by name (e.g. "f2_d01")
    import re
    m = re.fullmatch(r'([A-Za-z]+?)(\d)(?:_d(\d+))?', cname)
    if not m:
        raise AttributeError(cname)
    return opaque(m.group(1), int(m.group(2)), tuple(int(i) for i in m.group(3) or ''))
