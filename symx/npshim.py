"""
numpy functions which have no object-dtype loop get one for symbolic reals.

Every shim dispatches: arguments without symbols (and everything outside a
symbolic run) go to numpy's own function unchanged.  The symbolic versions are
numpy's documented definition over the reals.  Array creation inside a symbolic
run yields object arrays, so symbols can be stored into them.
"""
import functools

import numpy as np
import z3

from symx import core
from symx.core import Sym, SymBool

_REAL_DTYPES = (None, float, np.float64, 'float', 'f8', 'd', np.float32, np.double, 'float64')
_INSTALLED = False


def active():
    return core.CUR is not None and core.CUR.symbolic


def has_sym(x, depth=0):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return False
        return any(isinstance(i, (Sym, SymBool)) or (isinstance(i, np.ndarray) and has_sym(i, depth + 1))
                   for i in x.flat)
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(has_sym(i, depth + 1) for i in x)
    return False


def _is_real_dtype(dt):
    if dt is None:
        return True
    try:
        return np.dtype(dt).kind == 'f'
    except TypeError:
        return False


def _wrap_creation(mod, name, dtype_pos):
    orig = getattr(mod, name)

    @functools.wraps(orig)
    def f(*args, **kw):
        if active():
            if len(args) > dtype_pos:
                if _is_real_dtype(args[dtype_pos]):
                    args = args[:dtype_pos] + (object,) + args[dtype_pos + 1:]
            elif _is_real_dtype(kw.get('dtype')):
                kw['dtype'] = object
        return orig(*args, **kw)
    f.__wrapped_np__ = orig
    setattr(mod, name, f)


def _wrap_like(mod, name):
    orig = getattr(mod, name)

    @functools.wraps(orig)
    def f(a, dtype=None, *args, **kw):
        if active() and dtype is None and (has_sym(a) or np.asarray(a).dtype.kind == 'f'):
            dtype = object
        elif active() and dtype is not None and _is_real_dtype(dtype):
            dtype = object
        return orig(a, dtype, *args, **kw)
    f.__wrapped_np__ = orig
    setattr(mod, name, f)


def _wrap_convert(mod, name):
    orig = getattr(mod, name)

    @functools.wraps(orig)
    def f(a, dtype=None, *args, **kw):
        if active() and dtype is not None and _is_real_dtype(dtype) and has_sym(a):
            dtype = object
        if dtype is None:
            return orig(a, *args, **kw)
        return orig(a, dtype, *args, **kw)
    f.__wrapped_np__ = orig
    setattr(mod, name, f)


def _wrap_full_like(mod):
    orig = mod.full_like

    @functools.wraps(orig)
    def f(a, fill_value, dtype=None, *args, **kw):
        if active() and (has_sym(a) or has_sym(fill_value)):
            if (_is_real_dtype(dtype) if dtype is not None else has_sym(a) or np.asarray(a).dtype.kind == 'f'):
                dtype = object
        return orig(a, fill_value, dtype, *args, **kw)
    f.__wrapped_np__ = orig
    mod.full_like = f


def _wrap_fromiter(mod):
    orig = mod.fromiter

    @functools.wraps(orig)
    def f(iterable, dtype, *args, **kw):
        if active():
            iterable = list(iterable)
            if has_sym(iterable) and _is_real_dtype(dtype):
                out = np.empty(len(iterable), dtype=object)
                out[:] = iterable
                return out
        return orig(iterable, dtype, *args, **kw)
    f.__wrapped_np__ = orig
    mod.fromiter = f


def _dispatch(mod, name, symbolic, nargs=None):
    orig = getattr(mod, name)

    @functools.wraps(orig)
    def f(*args, **kw):
        if active() and any(has_sym(a) or (mod is np.linalg and getattr(a, 'dtype', None) == object)
                            for a in (args if nargs is None else args[:nargs])):
            return symbolic(*args, **kw)
        return orig(*args, **kw)
    f.__wrapped_np__ = orig
    setattr(mod, name, f)


def _nextafter(x, y):
    """The next number after x in the direction of y: some number between them, closer to x than 1e-12."""
    cur = core.CUR
    known = cur.__dict__.setdefault('_nextafter', {})
    a, b = core.canon(core.lift(x)), core.canon(core.lift(y))
    key = a.get_id(), b.get_id()
    if key not in known:
        r, tiny = cur.fresh('next'), core.rv(core.Fraction(1, 10 ** 12))
        cur.assume_z(z3.If(a < b, z3.And(a < r, r <= b, r - a <= tiny), z3.If(a > b, z3.And(b <= r, r < a, a - r <= tiny), r == a)))
        known[key] = (a, b), r       # the terms are kept alive: their ids stay theirs
    return Sym(known[key][1])


def _map2(fn):
    def g(x, y, *a, **k):
        if np.ndim(x) == 0 and np.ndim(y) == 0:
            return fn(x[()] if isinstance(x, np.ndarray) else x, y[()] if isinstance(y, np.ndarray) else y)
        x, y = np.broadcast_arrays(np.asarray(x, dtype=object), np.asarray(y, dtype=object))
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            out[i] = fn(x[i], y[i])
        return out
    return g


def _map1(fn, out_dtype=object):
    def g(x, *a, **k):
        arr = np.asarray(x)
        out = np.frompyfunc(fn, 1, 1)(arr)
        return out.astype(out_dtype) if isinstance(out, np.ndarray) else out
    return g


def det(M):
    n = len(M)
    if n == 0:
        return 1
    if n == 1:
        return M[0][0]
    tot = 0
    for j in range(n):
        minor = [[M[i][k] for k in range(n) if k != j] for i in range(1, n)]
        term = M[0][j] * det(minor)
        tot = tot + term if j % 2 == 0 else tot - term
    return tot


def exact_inverse(H):
    """Adjugate / determinant; None when (symbolically) singular."""
    n = len(H)
    d = det(H)
    if d == 0:          # forks
        return None
    r = 1 / d
    return [[(det([[H[a][b] for b in range(n) if b != i] for a in range(n) if a != j]) * r)
             * (1 if (i + j) % 2 == 0 else -1) for j in range(n)] for i in range(n)]


def _sym_inv(a, *args, **kw):
    a = np.asarray(a)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    inv = exact_inverse(a.tolist())
    if inv is None:
        raise np.linalg.LinAlgError('Singular matrix')
    out = np.empty(a.shape, dtype=object)
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            out[i, j] = inv[i][j]
    return out


def _sym_matrix_power(a, n):
    a = np.asarray(a, dtype=object)
    out = np.array([[1 if i == j else 0 for j in range(len(a))] for i in range(len(a))], dtype=object)
    base = a if n >= 0 else _sym_inv(a)
    for k in range(abs(int(n))):
        out = base if k == 0 else np.dot(out, base)
    return out


def _sym_solve(a, b, *args, **kw):
    return np.dot(_sym_inv(a), np.asarray(b))


def _sym_det(a, *args, **kw):
    return det(np.asarray(a).tolist())


def _abs(v):
    return abs(v)


def _isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def one(x, y):
        return bool(abs(x - y) <= atol + rtol * abs(y))
    return np.frompyfunc(one, 2, 1)(a, b)


def _allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = _isclose(a, b, rtol, atol)
    return bool(np.all(r))


def _var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    if kw or out is not None:
        raise core.Unsupported('variance with these options')
    a = np.asarray(a)
    n = a.size if axis is None else np.prod([a.shape[k] for k in np.atleast_1d(axis)])
    d = a - np.mean(a, axis=axis, keepdims=True)
    return np.sum(d * d, axis=axis, keepdims=keepdims) / int(n - ddof)


def _percentile(a, q, *args, **kw):
    if args or kw:
        raise core.Unsupported('percentile with options')
    vals = list(np.asarray(a).reshape(-1))
    # insertion sort by forking comparisons
    srt = []
    for v in vals:
        k = 0
        while k < len(srt) and srt[k] < v:
            k += 1
        srt.insert(k, v)
    n = len(srt)

    def one(p):
        pos = core.to_fraction(p) / 100 * (n - 1)
        lo = int(pos // 1)
        fr = pos - lo
        return srt[lo] if fr == 0 else srt[lo] + (srt[lo + 1] - srt[lo]) * fr
    if np.isscalar(q):
        return one(q)
    return np.array([one(p) for p in q], dtype=object)


def install():
    global _INSTALLED
    if _INSTALLED:
        return
    _INSTALLED = True
    for name, pos in (('zeros', 1), ('ones', 1), ('empty', 1), ('full', 2)):
        _wrap_creation(np, name, pos)
    for name in ('zeros_like', 'ones_like', 'empty_like'):
        _wrap_like(np, name)
    for name in ('array', 'asarray', 'asanyarray', 'asfarray', 'ascontiguousarray', 'asfortranarray', 'require'):
        _wrap_convert(np, name)
    _wrap_creation(np, 'identity', 1)
    _wrap_creation(np, 'eye', 3)
    _wrap_full_like(np)
    _wrap_fromiter(np)
    _dispatch(np.linalg, 'inv', _sym_inv)
    _dispatch(np.linalg, 'pinv', _sym_inv)
    _dispatch(np.linalg, 'matrix_power', _sym_matrix_power, 1)
    _dispatch(np.linalg, 'solve', _sym_solve)
    _dispatch(np.linalg, 'det', _sym_det)
    _dispatch(np, 'isnan', _map1(lambda v: False, bool))
    _dispatch(np, 'isinf', _map1(lambda v: False, bool))
    _dispatch(np, 'isfinite', _map1(lambda v: True, bool))
    _dispatch(np, 'nan_to_num', lambda x, *a, **k: x)
    _dispatch(np, 'nextafter', _map2(_nextafter))
    _dispatch(np, 'isclose', _isclose)
    _dispatch(np, 'allclose', _allclose)
    _dispatch(np, 'percentile', _percentile, 1)
    _dispatch(np, 'nanpercentile', _percentile, 1)
    _dispatch(np, 'quantile', lambda a, q, *r, **k: _percentile(a, np.asarray(q) * 100 if np.ndim(q) else q * 100, *r, **k), 1)
    _dispatch(np, 'nanquantile', lambda a, q, *r, **k: _percentile(a, np.asarray(q) * 100 if np.ndim(q) else q * 100, *r, **k), 1)
    _dispatch(np, 'median', lambda a, *r, **k: _percentile(a, 50, *r, **k), 1)
    _dispatch(np, 'hypot', lambda x, y: np.sqrt(np.asarray(x) * x + np.asarray(y) * y))
    _dispatch(np, 'vdot', lambda x, y: np.dot(np.ravel(x), np.ravel(y)))
    _dispatch(np, 'var', _var, 1)
    _dispatch(np, 'std', lambda *a, **k: np.sqrt(_var(*a, **k)), 1)
    _dispatch(np, 'sign', _map1(lambda v: 1 if v > 0 else (-1 if v < 0 else 0)))
    try:
        import scipy.linalg
        _dispatch(scipy.linalg, 'inv', _sym_inv)
        _dispatch(scipy.linalg, 'pinv', _sym_inv)
        _dispatch(scipy.linalg, 'solve', _sym_solve)
    except ImportError:
        pass


def _norm(x, ord=None, axis=None, keepdims=False):
    x = np.asarray(x)
    if ord not in (None, 2, 'fro') or (ord == 2 and x.ndim != 1 and not isinstance(axis, int)):
        raise core.Unsupported('norm of order %r' % (ord,))
    return np.sqrt(np.sum(np.asarray(x) ** 2, axis=axis, keepdims=keepdims))


def _linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if retstep or axis != 0:
        raise core.Unsupported('linspace with these options')
    start, stop = np.asarray(start), np.asarray(stop)
    div = max(num - 1 if endpoint else num, 1)
    return np.array([start + (stop - start) * i / div for i in range(num)], dtype=object)


def _sum(orig):
    def g(a, *args, where=None, **kw):
        if _is_real_dtype(kw.get('dtype')):
            kw.pop('dtype', None)
        if where is None:
            return orig(a, *args, **kw)
        return orig(np.where(where, a, 0), *args, **kw)
    return g


def _mean(orig):
    def g(a, *args, **kw):
        if _is_real_dtype(kw.get('dtype')):
            kw.pop('dtype', None)
        return orig(a, *args, **kw)
    return g


def _lstsq(a, b, rcond=None):
    x = np.dot(_sym_inv(a), b)
    return x, np.array([]), len(np.asarray(a)), None


def _chol(a):
    a = np.asarray(a)
    n = len(a)
    out = np.zeros((n, n), dtype=object)
    for i in range(n):
        for j in range(i + 1):
            rest = a[i, j] - sum((out[i, k] * out[j, k] for k in range(j)), 0)
            if i == j:
                if rest <= 0:
                    raise np.linalg.LinAlgError('Matrix is not positive definite')
                out[i, i] = np.sqrt(core.Sym(core.lift(rest)))
            else:
                out[i, j] = rest / out[j, j]
    return out


def install_extra():
    import math
    _dispatch(np.linalg, 'norm', _norm)
    _dispatch(np.linalg, 'cholesky', _chol, 1)
    _dispatch(np, 'linspace', _linspace, 2)
    _dispatch(np, 'sum', _sum(np.sum.__wrapped_np__ if hasattr(np.sum, '__wrapped_np__') else np.sum), 1)
    _dispatch(np, 'mean', _mean(np.mean), 1)
    _dispatch(np.linalg, 'lstsq', _lstsq, 1)
    _dispatch(np, 'float_power', lambda x, y, *a, **k: np.power(np.asarray(x), y))
    _dispatch(np, 'copysign', lambda x, y, *a, **k: np.where(np.asarray(y) < 0, -np.abs(x), np.abs(x)))
    _dispatch(np, 'signbit', lambda x, *a, **k: np.asarray(x) < 0)
    _dispatch(np, 'heaviside', lambda x, h, *a, **k: np.where(np.asarray(x) < 0, 0, np.where(np.asarray(x) > 0, 1, h)))
    _dispatch(np, 'logaddexp', lambda x, y, *a, **k: np.log(np.exp(x) + np.exp(y)))
    for name, sub in (('isnan', lambda x: False), ('isinf', lambda x: False), ('isfinite', lambda x: True),
                      ('pow', lambda x, y: x ** y), ('fsum', lambda x: sum(x)),
                      ('hypot', lambda *x: np.sqrt(sum(v * v for v in x))), ('fabs', lambda x: abs(x)),
                      ('isclose', lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol)))):
        _dispatch(math, name, sub)
    for name in ('sqrt', 'log', 'exp', 'sin', 'cos', 'tan', 'tanh', 'log1p', 'log2', 'log10', 'expm1'):
        orig = getattr(math, name)

        def f(x, *args, _orig=orig, _name=name):
            if isinstance(x, Sym) and active():
                return getattr(x, _name)()
            return _orig(x, *args)
        setattr(math, name, f)
