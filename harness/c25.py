"""C25: the distributions are the textbook densities."""
import math

import numpy as np

from symfit import Model, Parameter, Variable
from symfit.distributions import BivariateGaussian, Exp, Gaussian
from symx.jets import EXP, SQRT

BOUNDS = ('all real arguments, all positive scales (of either sign for the width of a Gaussian) and correlations strictly between -1 and 1; called as expressions, within models '
          '(also with their parameters as expressions of others), arguments as symbols with and without declared sign, scalars and 2 points; the exponential function '
          'is any positive function with exp(a + b) = exp(a) exp(b) and exp(a) <= 1 exactly for a <= 0')
ASSUMPTIONS = ['constants such as sqrt(2 pi) are compared up to a relative 1e-9']
REL = 1e-9


def close(W, label, got, want):
    """want is positive."""
    W.true(label + ' (not above)', got - want <= REL * want, '%r instead of %r' % (got, want))
    W.true(label + ' (not below)', want - got <= REL * want, '%r instead of %r' % (got, want))


def expo(W, arg):
    e = EXP(arg)
    if W.symbolic:
        W.assume(e > 0)
    return e


def gauss(W, x, mu, sig):
    """Only the variance matters, not the sign of the width."""
    sig = sig if bool(sig > 0) else -sig
    return expo(W, -(x - mu) * (x - mu) / (2 * sig * sig)) / sig / math.sqrt(2 * math.pi)


def positive(W, name):
    v = W.real(name)
    W.assume(v > 0)
    return v


def width(W, name, s):
    """Any width, unless sympy was told otherwise."""
    v = W.real(name, nonzero=True)
    if s.is_positive:
        W.assume(v > 0)
    return v


def bivariate(W, x, y, mx, my, sx, sy, rho):
    u, v = (x - mx) / sx, (y - my) / sy
    q = 1 - rho * rho
    return expo(W, -(u * u - 2 * rho * u * v + v * v) / (2 * q)) / (sx * sy * SQRT(q) * 2 * math.pi)


def symbols(W, *names):
    """With or without their sign declared to sympy."""
    declared = W.choose('declared', 2)
    return [Parameter(n, positive=True) if declared and n[0] in 'sl' else (Parameter if n[0] != 'x' and n[0] != 'y' else Variable)(n) for n in names]


def gaussian(W):
    x, mu, s = symbols(W, 'x', 'mu', 's')
    g = Gaussian(x, mu, s)
    vx, vm, vs = W.real('v_x'), W.real('v_mu'), width(W, 'v_s', s)
    k = W.choose('how', 3)
    want = gauss(W, vx, vm, vs)
    if k == 0:
        close(W, 'called', g(x=vx, mu=vm, s=vs), want)
    elif k == 1:
        out = Model({Variable('z'): g})(x=np.array([vx, vm], dtype=object if W.symbolic else float), mu=vm, s=vs).z
        close(W, 'in a model', out[0], want)
        close(W, 'at the mean', out[1], 1 / (vs if bool(vs > 0) else -vs) / math.sqrt(2 * math.pi))
    else:
        # in whatever role the symbols are
        r = Gaussian(mu, x, s)
        close(W, 'exchanged', r(x=vx, mu=vm, s=vs), want)


def gaussian_expressions(W):
    """The mean and the width may depend on other things."""
    x, t, a, b, s = Variable('x'), Variable('t'), Parameter('a'), Parameter('b'), Parameter('s')
    vx, vt, va, vb, vs = W.real('v_x'), W.real('v_t'), W.real('v_a'), W.real('v_b'), width(W, 'v_s', s)
    g = Gaussian(x, a + b * t, 2 * s)
    close(W, 'mean and width', g(x=vx, t=vt, a=va, b=vb, s=vs), gauss(W, vx, va + vb * vt, 2 * vs))
    h = Gaussian(x - t, a, s)
    close(W, 'argument', h(x=vx, t=vt, a=va, s=vs), gauss(W, vx - vt, va, vs))
    two = b * Gaussian(x, a, s) + Gaussian(x, t, s)
    want1, want2 = gauss(W, vx, va, vs), gauss(W, vx, vt, vs)
    got = two(x=vx, t=vt, a=va, b=vb, s=vs)
    size = want1 * (vb if bool(vb > 0) else -vb) + want2
    W.true('sum (not above)', got - vb * want1 - want2 <= REL * size)
    W.true('sum (not below)', vb * want1 + want2 - got <= REL * size)


def gaussian_facts(W):
    """Positive, symmetric about its mean, which is the highest point."""
    x, mu, s = symbols(W, 'x', 'mu', 's')
    g = Gaussian(x, mu, s)
    vm, vs, d = W.real('v_mu'), width(W, 'v_s', s), W.real('d')
    arg = -d * d / (2 * vs * vs)
    e, one = EXP(arg), EXP(0 * arg)
    if W.symbolic:
        W.assume(e > 0)
        W.assume(e <= 1)
        W.assume(one == 1)
    lo, hi, top = g(vm - d, vm, vs), g(vm + d, vm, vs), g(vm, vm, vs)
    W.true('positive', lo > 0 if W.symbolic else lo >= 0)
    W.true('peak', lo <= top * (1 + REL))
    W.true('symmetric', lo - hi <= REL * hi if W.symbolic else abs(lo - hi) <= REL * hi)


def bivariate_gaussian(W, part):
    x, y, mx, my, sx, sy, rho = symbols(W, 'x', 'y', 'mx', 'my', 'sx', 'sy', 'rho')
    g = BivariateGaussian(x, y, mx, my, sx, sy, rho)
    v = {n: W.real('v_' + n) for n in ('x', 'y', 'mx', 'my', 'rho')}
    v.update({n: positive(W, 'v_' + n) for n in ('sx', 'sy')})
    W.assume(v['rho'] < 1)
    W.assume(v['rho'] > -1)
    if part == 'density':
        want = bivariate(W, *[v[n] for n in ('x', 'y', 'mx', 'my', 'sx', 'sy', 'rho')])
        how = W.choose('how', 2)
        got = g(**v) if how else Model({Variable('z'): g})(**v).z
        close(W, 'density', got, want)
    elif part == 'expressions':
        a, t = Parameter('a'), Variable('t')
        va, vt = W.real('v_a'), W.real('v_t')
        h = BivariateGaussian(x, t, a, mx, sx, sx, rho)
        close(W, 'other symbols', h(x=v['x'], t=vt, a=va, mx=v['mx'], sx=v['sx'], rho=v['rho']),
              bivariate(W, v['x'], vt, va, v['mx'], v['sx'], v['sx'], v['rho']))
    elif part == 'peak':
        top = g(**dict(v, x=v['mx'], y=v['my']))
        close(W, 'at the mean', top, 1 / (v['sx'] * v['sy'] * SQRT(1 - v['rho'] * v['rho']) * 2 * math.pi))
    elif part == 'swap':
        other = g(x=v['y'], y=v['x'], mx=v['my'], my=v['mx'], sx=v['sy'], sy=v['sx'], rho=v['rho'])
        bivariate(W, *[v[n] for n in ('x', 'y', 'mx', 'my', 'sx', 'sy', 'rho')])
        close(W, 'exchanged', g(**v), other)
    else:
        # no correlation: the product of two Gaussians
        k = W.choose('zero', 2)
        if k:
            g, v = g.subs(rho, 0), {n: x for n, x in v.items() if n != 'rho'}
        else:
            v = dict(v, rho=0)
        gx = gauss(W, v['x'], v['mx'], v['sx'])
        gy = gauss(W, v['y'], v['my'], v['sy'])
        if W.symbolic:
            u, w = (v['x'] - v['mx']) / v['sx'], (v['y'] - v['my']) / v['sy']
            W.assume(EXP(-(u * u + w * w) / 2) == EXP(-u * u / 2) * EXP(-w * w / 2))
        G = Gaussian(x, mx, sx), Gaussian(y, my, sy)
        close(W, 'product', g(**v), gx * gy)
        close(W, 'product of its own', g(**v), G[0](**v) * G[1](**v))


def exponential(W):
    x, l = symbols(W, 'x', 'l')
    vx, vl = W.real('v_x'), positive(W, 'v_l')
    e = Exp(x, l)
    want = vl * expo(W, -vl * vx)
    close(W, 'density', e(x=vx, l=vl), want)
    close(W, 'by position', e(vx, vl), want)
    out = Model({Variable('z'): e})(x=np.array([vx, vx * 0], dtype=object if W.symbolic else float), l=vl).z
    close(W, 'in a model', out[0], want)
    close(W, 'at zero', out[1], vl)
    a, t = Parameter('a'), Variable('t')
    vt, va = W.real('v_t'), positive(W, 'v_a')
    close(W, 'expressions', Exp(x - t, 3 * a)(x=vx, t=vt, a=va), 3 * va * expo(W, -3 * va * (vx - vt)))


def scenarios(tier):
    out = [('gaussian', gaussian, {}), ('gaussian of expressions', gaussian_expressions, {}), ('gaussian facts', gaussian_facts, {}),
           ('exponential', exponential, {})]
    for p in ('density', 'expressions', 'peak', 'swap', 'uncorrelated'):
        out.append(('bivariate/' + p, bivariate_gaussian, dict(part=p)))
    return out
