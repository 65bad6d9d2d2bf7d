"""C04: finite differences reproduce the gradient with sixth-order accuracy."""
import numpy as np

from symfit import D, Model, ODEModel, Parameter, Variable
from symfit import GradientModel
from harness.lib import perms

BOUNDS = ('polynomials up to degree 6 with symbolic coefficients in 1-3 parameters, 1-2 components, 1-2 data points, '
          'default and arbitrary nonzero step; parameters below and above the relative-step threshold, zero and negative; fixed parameters')
ASSUMPTIONS = ['for ODE models the solution is a polynomial of degree at most six in parameters and initial values']


def poly(W, deg, npar):
    """y = sum c_k * a^k (+ cross terms) with every coefficient an independent variable."""
    x = Variable('x')
    ps = [Parameter(n) for n in 'abc'[:npar]]
    cs = [Variable('c%d' % k) for k in range(deg + 1)]
    expr = sum(c * ps[k % npar if npar > 1 else 0] ** k for k, c in enumerate(cs))
    return x, ps, cs, expr


def degree(W, deg, step):
    a = Parameter('a')
    cs = [Variable('c%d' % k) for k in range(deg + 1)]
    y = Variable('y')
    model = Model({y: sum(c * a ** k for k, c in enumerate(cs))})
    vals = {c.name: W.real(c.name) for c in cs}
    pa = W.real('a')
    kw = {}
    if step == 'any':
        kw['dx'] = W.real('dx', nonzero=True)
    elif step is not None:
        kw['dx'] = step
    out = model.finite_difference(a=pa, **vals, **kw)
    want = sum(k * vals['c%d' % k] * pa ** (k - 1) for k in range(1, deg + 1))
    W.eq('derivative', out[0], [[want]])


def layout(W, cls=Model):
    """Order of components and parameters, vector data, components without data."""
    y, z, w, x = (Variable(n) for n in 'yzwx')
    k = (0, 5, 2)[W.choose('fixed', 3)]        # has no influence
    a, b, c = (Parameter(n, value=W.real('guess_' + n), fixed=bool(k >> i & 1)) for i, n in enumerate('abc'))
    order = perms(3)[W.choose('order', 6)]
    items = [(y, a * x + b * b * x + c), (z, 3 * c * a), (w, x * x * b)]
    model = cls(dict(items[i] for i in order))
    xs = W.reals('x', 2)
    pa, pb, pc = (W.real(n) for n in 'abc')
    h = W.real('dx', nonzero=True)
    if W.choose('style', 2):
        out = model.finite_difference(xs, pa, pb, pc, dx=h)
    else:
        out = model.finite_difference(c=pc, b=pb, a=pa, x=xs, dx=h)
    w2 = [[0, 0], [xs[0] ** 2, xs[1] ** 2], [0, 0]]
    y2 = [[xs[0], xs[1]], [2 * pb * xs[0], 2 * pb * xs[1]], [1, 1]]
    z2 = [[3 * pc], [0], [3 * pa]]
    for k, want in enumerate([w2, y2, z2]):     # components alphabetically
        W.eq('component %d' % k, out[k], want)


def interdependent(W):
    y, z, x = (Variable(n) for n in 'yzx')
    a, b = (Parameter(n) for n in 'ab')
    model = Model({z: y * y * b, y: a * x})
    xs = W.reals('x', 2)
    pa, pb = W.real('a'), W.real('b')
    out = model.finite_difference(x=xs, a=pa, b=pb, dx=W.real('dx', nonzero=True))
    W.eq('y', out[0], [[xs[0], xs[1]], [0, 0]])
    W.eq('z', out[1], [[2 * pa * v * v * pb for v in xs], [pa * pa * v * v for v in xs]])


def twod(W):
    y, x = (Variable(n) for n in 'yx')
    a, b = (Parameter(n) for n in 'ab')
    model = Model({y: a * x + b * a})
    xs = W.reals('x', (2, 2))
    pa, pb = W.real('a'), W.real('b')
    out = model.finite_difference(x=xs, a=pa, b=pb, dx=W.real('dx', nonzero=True))
    W.eq('y', out[0], [[[xs[i, j] + pb for j in range(2)] for i in range(2)], [[pa, pa], [pa, pa]]])


def ode(W, n):
    """eval_jacobian of an ODE model, its solution being an arbitrary cubic in the parameters."""
    y, z, t = (Variable(v) for v in 'yzt')
    k, a0 = Parameter('k'), Parameter('a0')
    c = [W.real('c%d' % i) for i in range(4)]

    class Ans:
        success, message = True, ''

    def solve(call):
        (kv,), (u0, v0) = call.args, call.y0
        res = np.empty((2, len(call.t_eval)), dtype=object)
        for i, tt in enumerate(call.t_eval):
            res[0, i] = u0 + c[0] * tt * kv + c[1] * kv ** 3 * tt
            res[1, i] = v0 + c[2] * u0 * kv * tt + c[3]
        ans = Ans()
        ans.y = res if W.symbolic else res.astype(float)
        return ans
    W.env['solve_ivp'] = solve
    model = ODEModel({D(z, t): k * y, D(y, t): -k * y}, initial={t: 0, y: a0, z: 2})
    ts = W.increasing('t', n)
    W.assume(ts[0] > 0)
    kv, av = W.real('k'), W.real('a0')
    out = model.finite_difference(t=ts, k=kv, a0=av, dx=W.real('dx', nonzero=True))
    wy = [[1 for _ in ts], [c[0] * tt + 3 * c[1] * kv ** 2 * tt for tt in ts]]
    wz = [[c[2] * kv * tt for tt in ts], [c[2] * av * tt for tt in ts]]
    W.eq('y', out[0], wy)
    W.eq('z', out[1], wz)


def ode_jac(W):
    """eval_jacobian of an ODE model: labelled, with the default step."""
    y, t = (Variable(v) for v in 'yt')
    k = Parameter('k')
    c = W.real('c')

    class Ans:
        success, message = True, ''

    def solve(call):
        (kv,), (u0,) = call.args, call.y0
        ans = Ans()
        ans.y = np.array([[u0 + c * tt * kv for tt in call.t_eval]], dtype=object if W.symbolic else float)
        return ans
    W.env['solve_ivp'] = solve
    model = ODEModel({D(y, t): -k * y}, initial={t: 0, y: 2})
    ts = W.increasing('t', 2)
    W.assume(ts[0] > 0)
    out = model.eval_jacobian(t=ts, k=W.real('k'))
    want = [[c * tt for tt in ts]]
    if not W.symbolic:
        W.tol = 1e-4        # cancellation with a step of 1e-8
    W.eq('jac', out[0], want)
    W.eq('jac y', out.y, want)


def scenarios(tier):
    deep = tier == 'thorough'
    out = [('degree%d/any step' % d, degree, dict(deg=d, step='any')) for d in (range(1, 7))]
    out += [('degree%d/step %s' % (d, s), degree, dict(deg=d, step=s)) for d in ((3, 6) if not deep else range(1, 7))
            for s in (0.25, 2)]
    out += [('layout', layout, {}), ('layout/GradientModel', layout, dict(cls=GradientModel)),
            ('interdependent', interdependent, {}), ('2d', twod, {}),
            ('ode1', ode, dict(n=1)), ('ode2', ode, dict(n=2)), ('ode_jac', ode_jac, {})]
    return out
