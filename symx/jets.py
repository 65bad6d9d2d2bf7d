"""Second-order forward-mode differentiation, over Syms or floats (the oracle)."""
import numpy as np

from symx import core


class Jet:
    __slots__ = ('v', 'g', 'h')

    def __init__(self, v, g, h):
        self.v, self.g, self.h = v, g, h

    @classmethod
    def const(cls, v, n):
        return cls(v, [0] * n, [[0] * n for _ in range(n)])

    @classmethod
    def var(cls, v, i, n):
        j = cls.const(v, n)
        j.g[i] = 1
        return j

    def _c(self, o):
        return o if isinstance(o, Jet) else Jet.const(o, len(self.g))

    def __add__(self, o):
        o = self._c(o)
        n = range(len(self.g))
        return Jet(self.v + o.v, [self.g[i] + o.g[i] for i in n],
                   [[self.h[i][j] + o.h[i][j] for j in n] for i in n])
    __radd__ = __add__

    def __neg__(self):
        n = range(len(self.g))
        return Jet(-self.v, [-self.g[i] for i in n], [[-self.h[i][j] for j in n] for i in n])

    def __sub__(self, o):
        return self + (-self._c(o))

    def __rsub__(self, o):
        return self._c(o) - self

    def __mul__(self, o):
        o = self._c(o)
        n = range(len(self.g))
        return Jet(self.v * o.v, [self.g[i] * o.v + self.v * o.g[i] for i in n],
                   [[self.h[i][j] * o.v + self.g[i] * o.g[j] + self.g[j] * o.g[i] + self.v * o.h[i][j]
                     for j in n] for i in n])
    __rmul__ = __mul__

    def chain(self, v, d1, d2):
        """g(self) given g, g', g'' at self.v."""
        n = range(len(self.g))
        return Jet(v, [d1 * self.g[i] for i in n],
                   [[d1 * self.h[i][j] + d2 * self.g[i] * self.g[j] for j in n] for i in n])

    def recip(self):
        r = 1 / self.v
        return self.chain(r, -r * r, 2 * r * r * r)

    def __truediv__(self, o):
        if isinstance(o, Jet):
            return self * o.recip()
        return self * (1 / o if not isinstance(o, int) else core.to_fraction(1) / o if core.CUR.symbolic else 1 / o)

    def __rtruediv__(self, o):
        return self.recip() * o

    def __pow__(self, n):
        assert isinstance(n, int)
        if n == 0:
            return self._c(1)
        out = self
        for _ in range(abs(n) - 1):
            out = out * self
        return out if n > 0 else out.recip()

    def log(self):
        r = 1 / self.v
        return self.chain(LOG(self.v), r, -r * r)

    def exp(self):
        e = EXP(self.v)
        return self.chain(e, e, e)

    def sqrt(self):
        s = SQRT(self.v)
        r = 1 / s
        half = core.to_fraction(1) / 2 if core.CUR.symbolic else 0.5
        return self.chain(s, half * r, -half * half * r * r * r)


def LOG(v):
    return v.log() if isinstance(v, (core.Sym, Jet)) else core.math.log(v)


def EXP(v):
    return v.exp() if isinstance(v, (core.Sym, Jet)) else core.math.exp(v)


def SQRT(v):
    return v.sqrt() if isinstance(v, (core.Sym, Jet)) else core.math.sqrt(v)


def fn(name, arity):
    """The opaque function ``name`` as the oracle sees it (on jets or scalars)."""
    def call(*args):
        assert len(args) == arity
        W = core.CUR
        jets = [a for a in args if isinstance(a, Jet)]
        vals = [a.v if isinstance(a, Jet) else a for a in args]
        if not jets:
            return W.F(name, (), vals)
        n = len(jets[0].g)
        J = [a if isinstance(a, Jet) else Jet.const(a, n) for a in args]
        d1 = [W.F(name, (k,), vals) for k in range(arity)]
        out = Jet.const(W.F(name, (), vals), n)
        for k in range(arity):
            for i in range(n):
                out.g[i] = out.g[i] + d1[k] * J[k].g[i]
                for j in range(n):
                    out.h[i][j] = out.h[i][j] + d1[k] * J[k].h[i][j]
        for k in range(arity):
            for l in range(arity):
                if all(_zero(x) for x in J[k].g) or all(_zero(x) for x in J[l].g):
                    continue
                d2 = W.F(name, (k, l), vals)
                for i in range(n):
                    for j in range(n):
                        if _zero(J[k].g[i]) or _zero(J[l].g[j]):
                            continue
                        out.h[i][j] = out.h[i][j] + d2 * J[k].g[i] * J[l].g[j]
        return out
    return call


def _zero(x):
    return isinstance(x, (int, float)) and x == 0


def vars_(values):
    n = len(values)
    return [Jet.var(v, i, n) for i, v in enumerate(values)]
