"""
Loads symfit from /repo's source with a few names made aware of symbolic reals,
because Python does not let an object answer for them: ``float`` (conversion
and isinstance), np.float64 and the like, the ``astype`` method of arrays and
text formatted with ``%``. Outside a symbolic run all do what they always do.
"""
import ast
import builtins
import importlib.machinery
import re
import sys

import numpy as np

from symx.core import Sym
from symx.npshim import active, has_sym, _is_real_dtype


class _Float(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or (isinstance(x, Sym) and active())

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __eq__(cls, other):
        return other is cls or other is builtins.float

    def __hash__(cls):
        return hash(builtins.float)

    def __call__(cls, *args):
        if active() and len(args) == 1:
            x = args[0]
            if isinstance(x, Sym):
                return x
            if isinstance(x, np.ndarray) and x.size == 1 and has_sym(x):
                return x.reshape(-1)[0]
        return builtins.float(*args)

    def __getattr__(cls, name):
        return getattr(builtins.float, name)


class Float(metaclass=_Float):
    dtype = np.dtype(builtins.float)

    def __reduce__(self):
        raise TypeError('not instantiable')


Float.__name__ = Float.__qualname__ = 'float'


def astype(x, *args, **kw):
    dt = kw.get('dtype', args[0] if args else None)
    if isinstance(x, Sym) and _is_real_dtype(dt):
        return x
    if active() and isinstance(x, np.ndarray) and has_sym(x) and _is_real_dtype(dt):
        return x.copy() if kw.get('copy', True) else x
    return x.astype(*args, **kw)


def scalar(orig, *args, **kw):
    """np.float64(x) and the like."""
    if active() and len(args) == 1 and not kw and _is_real_dtype(orig):
        if isinstance(args[0], Sym):
            return args[0]
        if isinstance(args[0], np.ndarray) and has_sym(args[0]):
            return args[0] if args[0].ndim else args[0][()]
    return orig(*args, **kw)


_SPEC = re.compile(r'%(\((?P<key>[^)]*)\))?[-#0 +]*[0-9.]*[a-zA-Z%]')


def percent(a, b):
    """Text formatted with %, with symbolic reals among the values."""
    values = list(b.values()) if isinstance(b, dict) else list(b) if isinstance(b, tuple) else [b]
    if not (isinstance(a, str) and active() and any(isinstance(v, Sym) for v in values)):
        return a % b
    todo = iter(values)

    def one(m):
        if m.group(0).endswith('%'):
            return '%'
        v = b[m.group('key')] if m.group('key') else next(todo)
        return format(v, '') if isinstance(v, Sym) else m.group(0) % ({m.group('key'): v} if m.group('key') else (v,))
    return _SPEC.sub(one, a)


class _Rewrite(ast.NodeTransformer):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name('__symx_percent__', ast.Load()), [node.left, node.right], []), node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr == 'astype':
            new = ast.Call(ast.Name('__symx_astype__', ast.Load()), [node.func.value] + node.args, node.keywords)
            return ast.copy_location(new, node)
        if isinstance(node.func, ast.Attribute) and node.func.attr in ('float64', 'double', 'longdouble', 'float32', 'float_'):
            return ast.copy_location(ast.Call(ast.Name('__symx_scalar__', ast.Load()), [node.func] + node.args, node.keywords), node)
        return node


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.fix_missing_locations(_Rewrite().visit(ast.parse(data, path)))
        return compile(tree, path, 'exec', dont_inherit=True, optimize=_optimize)

    def exec_module(self, module):
        module.__dict__['float'] = Float
        module.__dict__['__symx_astype__'] = astype
        module.__dict__['__symx_scalar__'] = scalar
        module.__dict__['__symx_percent__'] = percent
        super().exec_module(module)


class Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != 'symfit' and not name.startswith('symfit.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = Loader(name, spec.origin)
        return spec


def install():
    if Finder not in sys.meta_path:
        sys.meta_path.insert(0, Finder)
