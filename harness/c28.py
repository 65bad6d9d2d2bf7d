"""C28: matrix expressions evaluate to what they denote."""
import itertools

import numpy as np
import sympy
from sympy import HadamardPower, HadamardProduct, Identity, Inverse, MatrixSymbol, Symbol, Transpose, ZeroMatrix

from symfit import CallableModel, CallableNumericalModel, Parameter, Variable
from symfit.core.objectives import LeastSquares, MinimizeModel
from symx.jets import SQRT

BOUNDS = ('expressions of 3 matrix symbols of size 2x2 (1x1 and, in the thorough tier, 3x3 too; sizes given as numbers or symbols), vectors of 2 and single numbers, '
          'sums, differences, matrix products, elementwise products (2-4 factors), elementwise and matrix powers up to 3 (exponents given as numbers or by name), transposes, '
          'inverses, multiples by parameters and functions of them, nested up to 3 deep (inverses: 2); models with up to 3 matrix components '
          'in 3 levels; arbitrary entries')
ASSUMPTIONS = ['matrices of which the inverse is taken are invertible']


# ---------------------------------------------------------------- expression trees
class Node:
    """sympy expression, and value for given entries by the book."""

    def __init__(self, expr, value, size):
        self.expr, self.value, self.size = expr, value, size


def leaf(name, n, m=None, N=None):
    rows, cols = n, n if m is None else m
    s = MatrixSymbol(name, N if N is not None and rows > 1 else rows, N if N is not None and cols > 1 else cols)
    return Node(s, lambda v: v[name], n)


def entries(f, *mats):
    r, c = len(mats[0]), len(mats[0][0])
    return [[f(*[m[i][j] for m in mats]) for j in range(c)] for i in range(r)]


def product(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def transposed(a):
    return [list(r) for r in zip(*a)]


def inverted(a):
    n = len(a)
    if n == 1:
        return [[1 / a[0][0]]]
    if n == 2:
        (p, q), (r, s) = a
        d = p * s - q * r
        return [[s / d, -q / d], [-r / d, p / d]]
    raise NotImplementedError


def add(a, b):
    return Node(a.expr + b.expr, lambda v: entries(lambda x, y: x + y, a.value(v), b.value(v)), a.size)


def sub(a, b):
    return Node(a.expr - b.expr, lambda v: entries(lambda x, y: x - y, a.value(v), b.value(v)), a.size)


def mul(a, b):
    return Node(a.expr * b.expr, lambda v: product(a.value(v), b.value(v)), a.size)


def had(*aa):
    def value(v):
        out = aa[0].value(v)
        for a in aa[1:]:
            out = entries(lambda x, y: x * y, out, a.value(v))
        return out
    return Node(HadamardProduct(*[a.expr for a in aa]), value, aa[0].size)


def hpow(a, k):
    def value(v):
        def one(x):
            out = x
            for _ in range(abs(k) - 1):
                out = out * x
            return out if k > 0 else 1 / out
        return entries(one, a.value(v))
    return Node(HadamardPower(a.expr, k), value, a.size)


def tr(a):
    return Node(Transpose(a.expr), lambda v: transposed(a.value(v)), a.size)


def inv(a):
    return Node(Inverse(a.expr), lambda v: inverted(a.value(v)), a.size)


def power(a, k):
    def value(v):
        out = m = a.value(v)
        for _ in range(k - 1):
            out = product(out, m)
        return out
    return Node(a.expr ** k, value, a.size)


def scale(s, f, a):
    return Node(s * a.expr, lambda v: entries(lambda x: f(v) * x, a.value(v)), a.size)


def neg(a):
    return Node(-a.expr, lambda v: entries(lambda x: -x, a.value(v)), a.size)


UNARY = {
    'T': tr, 'pow2': lambda a: power(a, 2), 'pow3': lambda a: power(a, 3), 'hpow2': lambda a: hpow(a, 2), 'hpow3': lambda a: hpow(a, 3),
    'neg': neg, 'times a': lambda a: scale(Parameter('a'), lambda v: v['a'], a),
    'over a squared': lambda a: scale(1 / Parameter('a') ** 2, lambda v: 1 / v['a'] / v['a'], a),
}
BINARY = {'add': add, 'sub': sub, 'mul': mul, 'had': had}


def leaves(W, n, symbolic_size):
    N = Symbol('N', integer=True) if symbolic_size else None
    nodes = {c: leaf(c, n, N=N) for c in 'ABC'}
    vals = {c: W.reals(c, (n, n)) for c in 'ABC'}
    vals['a'] = W.real('a', nonzero=True)
    return nodes, vals


def check(W, label, node, vals, how):
    """The expression evaluated on its own or as component of a model."""
    if isinstance(node.expr, ZeroMatrix):
        return  # sympy simplified all the data away: nothing to tell the size from
    want = node.value({k: (x.tolist() if isinstance(x, np.ndarray) else x) for k, x in vals.items()})
    free = {str(s) for s in node.expr.free_symbols}
    given = {k: x for k, x in vals.items() if k in free}
    if how:
        Y = MatrixSymbol('Y', *node.expr.shape)
        got = CallableModel({Y: node.expr})(**given).Y
    else:
        got = node.expr(**vals)
    W.eq(label, np.asarray(got, dtype=object), want)


def trees(W, outer, inner, n=2, symbolic_size=False, how=None):
    """Every expression with this outer operation and these below it."""
    nodes, vals = leaves(W, n, symbolic_size)
    A, B, C = (nodes[c] for c in 'ABC')
    how = W.choose('how', 2) if how is None else how

    def sub_nodes():
        if inner in UNARY:
            yield 'A', UNARY[inner](A)
        else:
            f = BINARY[inner]
            yield 'AB', f(A, B)
            yield 'BA', f(B, A)
    for tag, x in sub_nodes():
        if outer in UNARY:
            check(W, '%s(%s %s)' % (outer, inner, tag), UNARY[outer](x), vals, how)
        else:
            g = BINARY[outer]
            check(W, '%s(%s %s, C)' % (outer, inner, tag), g(x, C), vals, how)
            check(W, '%s(C, %s %s)' % (outer, inner, tag), g(C, x), vals, how)
            check(W, '%s(A, %s %s)' % (outer, inner, tag), g(A, x), vals, how)


def deeper(W, top, outer, n=2):
    """Three deep, with every operation at the bottom."""
    nodes, vals = leaves(W, n, True)
    A, B, C = (nodes[c] for c in 'ABC')
    names = list(BINARY) + ['T', 'hpow2', 'pow2', 'times a']
    inner = names[W.choose('inner', len(names))]
    x = UNARY[inner](A) if inner in UNARY else BINARY[inner](A, B)
    y = UNARY[outer](x) if outer in UNARY else BINARY[outer](x, C)
    z = UNARY[top](y) if top in UNARY else BINARY[top](B, y)
    check(W, '%s(%s(%s))' % (top, outer, inner), z, vals, 0)


def factors(W, n=2):
    """Products of any number of factors."""
    nodes, vals = leaves(W, n, bool(W.choose('symbolic size', 2)))
    A, B, C = (nodes[c] for c in 'ABC')
    how = W.choose('how', 2)
    for k, fs in enumerate([(A, B, C), (C, B, A), (A, B, A), (A, A, B), (A, B, C, B), (B, C, A, A)]):
        check(W, 'elementwise %d' % k, had(*fs), vals, how)
        m = fs[0]
        for f in fs[1:]:
            m = mul(m, f)
        check(W, 'matrix %d' % k, m, vals, how)
        s = fs[0]
        for f in fs[1:]:
            s = add(s, f)
        check(W, 'sum %d' % k, s, vals, how)
    check(W, 'mixed 1', mul(had(A, B, C), add(A, B)), vals, how)
    check(W, 'mixed 2', had(mul(A, B), add(B, C), sub(A, C)), vals, how)
    check(W, 'mixed 3', mul(mul(A, had(B, C)), tr(A)), vals, how)
    check(W, 'mixed 4', had(hpow(add(A, B), 2), tr(C), neg(A)), vals, how)


def inverses(W, n=2):
    """Inverses of and within everything."""
    nodes, vals = leaves(W, n, bool(W.choose('symbolic size', 2)))
    A, B, C = (nodes[c] for c in 'ABC')
    cases = [inv(A), inv(tr(A)), tr(inv(A)), inv(scale(Parameter('a'), lambda v: v['a'], A)), mul(inv(A), B), mul(B, inv(A)), mul(mul(B, inv(A)), C),
             inv(add(A, B)), add(inv(A), B), had(inv(A), B), neg(inv(A)), hpow(inv(A), 2), inv(had(A, B)), inv(hpow(A, 2)), inv(sub(A, neg(B))),
             mul(inv(add(A, scale(1 / Parameter('a') ** 2, lambda v: 1 / v['a'] / v['a'], B))), C)]
    node = cases[W.choose('case', len(cases))]
    # invertible: the determinant of whatever is inverted does not vanish
    val = {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in vals.items()}

    def det(m):
        return m[0][0] if n == 1 else m[0][0] * m[1][1] - m[0][1] * m[1][0]
    for sub_node in (A, add(A, B), had(A, B), hpow(A, 2), add(A, scale(1, lambda v: 1 / v['a'] / v['a'], B))):
        W.assume(det(sub_node.value(val)) != 0)
    check(W, 'inverse', node, vals, W.choose('how', 2))


def negative_power(W):
    """A negative matrix power is a power of the inverse."""
    nodes, vals = leaves(W, 2, bool(W.choose('symbolic size', 2)))
    A = nodes['A']
    v = vals['A'].tolist()
    W.assume(v[0][0] * v[1][1] - v[0][1] * v[1][0] != 0)
    k = 1 + W.choose('power', 2)
    m = inverted(v)
    W.eq('power', np.asarray((A.expr ** -k)(A=vals['A']), dtype=object), m if k == 1 else product(m, m))


def named_power(W, kind):
    """The exponent is a parameter or a variable."""
    size = bool(W.choose('symbolic size', 2))
    nodes, vals = leaves(W, 2, size)
    A, B, C = (nodes[c] for c in 'ABC')
    n = Parameter('n', value=2) if kind == 'parameter' else Variable('n') if kind == 'variable' else Parameter('n', value=2) + 1
    k = 1 + W.choose('power', 3)
    expr_k = k + 1 if kind == 'sum' else k
    how = W.choose('how', 2)
    cases = [A, add(A, B), mul(A, B), tr(A), had(A, B)]

    def mpow(a):
        return Node(a.expr ** n, power(a, expr_k).value, a.size)

    def epow(a):
        return Node(HadamardPower(a.expr, n), hpow(a, expr_k).value, a.size)
    which = W.choose('case', len(cases))
    a = cases[which]
    vals = dict(vals, n=k)
    check(W, 'matrix power %d' % which, mpow(a), vals, how)
    check(W, 'elementwise power %d' % which, epow(a), vals, how)
    check(W, 'product %d' % which, mul(mpow(a), C), vals, how)
    check(W, 'elementwise product %d' % which, had(epow(a), C), vals, how)
    check(W, 'sum %d' % which, sub(C, mpow(a)), vals, how)


def vectors(W, n=2, symbolic_size=True):
    """Column vectors, and the single numbers made from them."""
    N = Symbol('N', integer=True) if symbolic_size else n
    M, u, v = MatrixSymbol('M', N, N), MatrixSymbol('u', N, 1), MatrixSymbol('v', N, 1)
    a = Parameter('a')
    vm, vu, vv, va = W.reals('M', (n, n)), W.reals('u', (n, 1)), W.reals('v', (n, 1)), W.real('a', nonzero=True)
    f = W.opaque('f', 2)

    def dot(x, y):
        return sum(x[i, 0] * y[i, 0] for i in range(n))
    m = [[sum(vm[i, k] * vu[k, 0] for k in range(n))] for i in range(n)]
    vals = dict(M=vm, u=vu, v=vv, a=va)
    mu = np.array(m, dtype=object)
    I = Identity(N)
    cases = [
        ('product', M * u, m),
        ('transposed product', u.T * M.T, transposed(m)),
        ('inner', u.T * v, [[dot(vu, vv)]]),
        ('outer', u * v.T, [[vu[i, 0] * vv[j, 0] for j in range(n)] for i in range(n)]),
        ('form', v.T * M * u, [[dot(vv, mu)]]),
        ('squared number', (u.T * v) ** 2, [[dot(vu, vv) * dot(vu, vv)]]),
        ('number', a * u.T * u / 2, [[va * dot(vu, vu) / 2]]),
        ('sum', M * u - a * v, [[m[i][0] - va * vv[i, 0]] for i in range(n)]),
        ('elementwise', HadamardProduct(M * u, v), [[m[i][0] * vv[i, 0]] for i in range(n)]),
        ('elementwise form', HadamardProduct(u, v, M * u).T * v, [[sum(vu[i, 0] * vv[i, 0] * m[i][0] * vv[i, 0] for i in range(n))]]),
        ('inner of sums', (u + v).T * (u - v), [[sum((vu[i, 0] + vv[i, 0]) * (vu[i, 0] - vv[i, 0]) for i in range(n))]]),
        ('function', f(HadamardProduct(u, v), a), [[W.F('f', (), (vu[i, 0] * vv[i, 0], va))] for i in range(n)]),
        ('multiple by a function', f(a, a) * u, [[W.F('f', (), (va, va)) * vu[i, 0]] for i in range(n)]),
    ]
    if not symbolic_size:
        cases.append(('identity', (I + M) * u, [[m[i][0] + vu[i, 0]] for i in range(n)]))
    label, e, want = cases[W.choose('case', len(cases))]
    free = {str(s) for s in e.free_symbols}
    W.eq(label, np.asarray(e(**vals), dtype=object), want)
    shape = getattr(e, 'shape', (N, 1))
    Y = MatrixSymbol('Y', *shape)
    got = CallableModel({Y: e})(**{k: x for k, x in vals.items() if k in free}).Y
    W.eq(label + ' in a model', np.asarray(got, dtype=object), want)


def root(W):
    """The norm of a vector as square root of a 1x1 matrix."""
    n = 2
    N = Symbol('N', integer=True) if W.choose('symbolic size', 2) else n
    u, d = MatrixSymbol('u', N, 1), MatrixSymbol('d', 1, 1)
    vu = W.reals('u', (n, 1))
    s = vu[0, 0] * vu[0, 0] + vu[1, 0] * vu[1, 0]
    W.assume(s > 0)
    got = CallableModel({d: sympy.sqrt(u.T * u)})(u=vu).d
    W.eq('norm', np.asarray(got, dtype=object), [[SQRT(s)]])
    got = sympy.sqrt(u.T * u)(u=vu)
    W.eq('norm called', np.asarray(got, dtype=object), [[SQRT(s)]])


def tikhonov(W, numerical=False):
    """A model of matrix components in three levels, and an objective made from it."""
    n = 2
    N = Symbol('N', integer=True)
    M, Wm, I = MatrixSymbol('M', N, N), MatrixSymbol('W', N, N), MatrixSymbol('I', N, N)
    y, c, d = MatrixSymbol('y', N, 1), MatrixSymbol('c', N, 1), MatrixSymbol('d', 1, 1)
    a = Parameter('a')
    vm, vi, vy = W.reals('M', (n, n)), W.reals('I', (n, n)), W.reals('y', (n, 1))
    va = W.real('a', nonzero=True)
    K = [[vi[i, j] + vm[i, j] / va / va for j in range(n)] for i in range(n)]
    W.assume(K[0][0] * K[1][1] - K[0][1] * K[1][0] != 0)
    comp = {Wm: Inverse(I + M / a ** 2), c: -Wm * y, d: c.T * c}
    order = list(itertools.permutations(comp))[W.choose('order', 6)]
    if numerical:
        m = CallableNumericalModel({k: (comp[k] if k is not c else NegProduct()) for k in order}, connectivity_mapping={c: {Wm, y}})
    else:
        m = CallableModel({k: comp[k] for k in order})
    W.is_('independent', sorted(v.name for v in m.independent_vars), ['I', 'M', 'y'])
    W.is_('parameters', [p.name for p in m.params], ['a'])
    w = inverted(K)
    wc = [[-sum(w[i][k] * vy[k, 0] for k in range(n))] for i in range(n)]
    wd = [[sum(x[0] * x[0] for x in wc)]]
    out = m(M=vm, I=vi, y=vy, a=va)
    W.eq('W', np.asarray(out.W, dtype=object), w)
    W.eq('c', np.asarray(out.c, dtype=object), wc)
    W.eq('d', np.asarray(out.d, dtype=object), wd)
    obj = MinimizeModel(m, {M: vm, I: vi, y: vy})
    W.eq('objective', np.ravel(obj(a=va)), wd[0])
    W.eq('objective by position', np.ravel(obj([va])), wd[0])


class NegProduct:
    def __call__(self, W, y):
        return -W.dot(y)


def fitted(W):
    """A scalar matrix expression fitted to data."""
    n = 2
    N = Symbol('N', integer=True)
    M, u = MatrixSymbol('M', N, N), MatrixSymbol('u', N, 1)
    a, b = Parameter('a'), Parameter('b')
    d = MatrixSymbol('d', 1, 1)
    vm, vu, va, vb = W.reals('M', (n, n)), W.reals('u', (n, 1)), W.real('a'), W.real('b')
    vd, vs = W.real('d'), W.real('s', nonzero=True)
    m = CallableModel({d: a * u.T * M * u + b * u.T * u})
    D = lambda v: np.array([[v]], dtype=object if W.symbolic else float)
    S = m.sigmas[d]
    obj = LeastSquares(m, {M: vm, u: vu, d: D(vd), S: D(vs)})
    form = sum(vu[i, 0] * vm[i, j] * vu[j, 0] for i in range(n) for j in range(n))
    val = va * form + vb * sum(vu[i, 0] * vu[i, 0] for i in range(n))
    r = (val - vd) / vs
    W.eq('least squares', obj(a=va, b=vb), r * r / 2, shape=False)
    W.eq('least squares by position', obj([va, vb]), r * r / 2, shape=False)


def vector_fit(W):
    """A vector of matrix expressions fitted to a vector of data."""
    n = 2
    N = Symbol('N', integer=True)
    M, u, z = MatrixSymbol('M', N, N), MatrixSymbol('u', N, 1), MatrixSymbol('z', N, 1)
    a = Parameter('a')
    vm, vu, va = W.reals('M', (n, n)), W.reals('u', (n, 1)), W.real('a')
    vz, vs = W.reals('z', (n, 1)), W.reals('s', (n, 1), nonzero=True)
    m = CallableModel({z: a * HadamardProduct(M * u, u)})
    obj = LeastSquares(m, {M: vm, u: vu, z: vz, m.sigmas[z]: vs})
    want = 0
    for i in range(n):
        r = (va * (vm[i, 0] * vu[0, 0] + vm[i, 1] * vu[1, 0]) * vu[i, 0] - vz[i, 0]) / vs[i, 0]
        want = want + r * r / 2
    W.eq('least squares', obj(a=va), want, shape=False)


def scenarios(tier):
    out = []
    deep = tier == 'thorough'
    ops = list(UNARY) + list(BINARY)
    for o in ops:
        for i in ops:
            if o.startswith('pow') and i.startswith('pow') and not deep:
                continue
            out.append(('%s of %s' % (o, i), trees, dict(outer=o, inner=i, symbolic_size=True, how=None if deep else len(out) % 2)))
            if deep:
                out.append(('%s of %s/sizes' % (o, i), trees, dict(outer=o, inner=i, symbolic_size=False)))
                if 'pow3' not in (o, i):
                    out.append(('%s of %s/3x3' % (o, i), trees, dict(outer=o, inner=i, n=3, symbolic_size=True, how=0)))
            elif i in BINARY and o in BINARY:
                out.append(('%s of %s/1x1' % (o, i), trees, dict(outer=o, inner=i, n=1)))
    for t in ops if deep else list(BINARY) + ['T', 'hpow2', 'neg']:
        for o in list(BINARY) + ['T', 'hpow2', 'neg', 'pow2']:
            if t in ('pow2', 'pow3') and o == 'pow2':
                continue
            out.append(('three deep/%s/%s' % (t, o), deeper, dict(top=t, outer=o)))
    out += [('named power/' + k, named_power, dict(kind=k)) for k in ('parameter', 'variable', 'sum')]
    out += [('factors', factors, {}), ('inverses', inverses, {}), ('inverses/1x1', inverses, dict(n=1)), ('negative power', negative_power, {}),
            ('vectors', vectors, {}), ('vectors/sizes', vectors, dict(symbolic_size=False)), ('vectors/3', vectors, dict(n=3)),
            ('root', root, {}), ('tikhonov', tikhonov, {}), ('tikhonov/numerical', tikhonov, dict(numerical=True)),
            ('fitted', fitted, {}), ('vector fit', vector_fit, {})]
    return out
