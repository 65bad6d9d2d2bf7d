"""
Process set-up shared by every check and replay: makes z3 importable next to
the repository's own interpreter and dependencies, installs the environment
stubs (scipy back ends) and the numpy object-dtype shims, and only then imports
symfit from /repo's working tree.
"""
import os
import sys
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def _load_z3():
    try:
        import z3
        return z3
    except ImportError:
        pass
    cand = os.environ.get('SYMX_Z3', '/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    # Appended (never prepended), so numpy/scipy/sympy stay those of /repo's venv.
    sys.path.append(cand)
    try:
        import z3
    finally:
        sys.path.remove(cand)
    return z3


os.environ.setdefault('MPLBACKEND', 'Agg')
warnings.filterwarnings('ignore')
z3 = _load_z3()
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
if VERIF not in sys.path:
    sys.path.insert(1, VERIF)


def load_symfit():
    """Install shims and stubs, then import symfit from /repo."""
    from symx import npshim, rewrite, stubs
    npshim.install()
    npshim.install_extra()
    stubs.install()
    rewrite.install()
    import symfit
    assert os.path.realpath(symfit.__file__).startswith(os.path.realpath(REPO) + os.sep), symfit.__file__
    return symfit
