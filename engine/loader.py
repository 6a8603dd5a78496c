"""Load the real dcf sources with the numeric builtins made symbolic.

The source files under $DCF_REPO (default /repo) are compiled unchanged (but
for `%`, which goes through symmod because text is formatted in C); only the
names `float`, `int`, `round`, `isinstance`-relevant classes, `pow` and the
module `math` seen by them are replaced.  scipy is hidden (ImportError), which
selects the package's own fallbacks; only `scipy.integrate.quad` exists, as a
name that acts the same unless a harness sets a stand-in for it.
"""
import ast
import builtins
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import math
import os
import sys
import types

from . import sym as S
from .sym import SymReal, SymBool, Unsupported

REPO = os.environ.get('DCF_REPO', '/repo')
SITE = '/opt/venv/lib/python3.12/site-packages'

bfloat, bint, bround = builtins.float, builtins.int, builtins.round
bpow, bimport, bbool = builtins.pow, builtins.__import__, builtins.bool


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bfloat, SymReal))

    def __subclasscheck__(cls, c):
        return issubclass(c, (bfloat, SymReal))

    def __call__(cls, x=0.0):
        if isinstance(x, SymReal):
            return x
        if isinstance(x, SymBool):
            return 1.0 if x else 0.0
        if not isinstance(x, (bfloat, bint, str, bytes)):
            f = getattr(type(x), '__float__', None)
            if f is not None:
                r = f(x)
                if isinstance(r, SymReal):
                    return r
        return bfloat(x)

    def __eq__(cls, o):
        return o is cls or o is bfloat

    def __hash__(cls):
        return hash(bfloat)


class symfloat(metaclass=_FloatMeta):
    fromhex = bfloat.fromhex
    is_integer = staticmethod(lambda x: x.is_integer())


symfloat.__name__ = 'float'
symfloat.__qualname__ = 'float'


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, bint)

    def __subclasscheck__(cls, c):
        return issubclass(c, bint)

    def __call__(cls, x=0, *a):
        if isinstance(x, (SymReal, SymBool)):
            return x.__int__()
        return bint(x, *a)

    def __eq__(cls, o):
        return o is cls or o is bint

    def __hash__(cls):
        return hash(bint)


class symint(metaclass=_IntMeta):
    pass


symint.__name__ = 'int'
symint.__qualname__ = 'int'


def _anysym(*a):
    return any(isinstance(x, (SymReal, SymBool)) for x in a)


def sympow(a, b, mod=None):
    if mod is None and _anysym(a, b):
        return S.power(SymReal(S.lift(a)), SymReal(S.lift(b)))
    return bpow(a, b, mod) if mod is not None else bpow(a, b)


def symround(x, n=None):
    if isinstance(x, SymReal):
        return S.sym_round(x, n)
    return bround(x, n) if n is not None else bround(x)


def _seqsym(xs):
    xs = list(xs)
    return xs, any(isinstance(x, SymReal) for x in xs)


def _lift1(name, f):
    def g(x, *a):
        if _anysym(x, *a):
            return f(x, *a)
        return getattr(math, name)(x, *a)
    g.__name__ = name
    return g


def _fsum(xs):
    xs, s = _seqsym(xs)
    return sum(xs, S.mk(0)) if s else math.fsum(xs)


def _prod(xs, *, start=1):
    for x in xs:
        start = start * x
    return start


def _isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    if not _anysym(a, b):
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    if a == b:
        return True
    d = abs(a - b)
    return d <= max(rel_tol * max(abs(a), abs(b)), abs_tol)


def _sumprod(a, b):
    return sum(x * y for x, y in zip(a, b, strict=True))


class ShimMath(types.ModuleType):
    def __getattr__(self, name):
        f = getattr(math, name)
        if not callable(f):
            return f

        def g(*a, **k):
            if _anysym(*a):
                raise Unsupported('math.' + name)
            return f(*a, **k)
        g.__name__ = name
        return g


shim_math = ShimMath('math')
for _n, _f in {
    'exp': S.sym_exp,
    'log': S.sym_log,
    'sqrt': S.sym_sqrt,
    'pow': S.math_pow,
    'fabs': lambda x: abs(x),
    'floor': lambda x: S.sym_floor(x).__int__(),
    'ceil': lambda x: -(S.sym_floor(-x).__int__()),
    'trunc': S.sym_trunc,
    'log1p': lambda x: S.sym_log(1 + x),
    'expm1': lambda x: S.sym_exp(x) - 1,
    'exp2': lambda x: S.power(S.mk(2), x),
    'log2': lambda x: S.sym_log(x) / S.sym_log(2),
    'log10': lambda x: S.sym_log(x) / S.sym_log(10),
    'isnan': lambda x: False,
    'isinf': lambda x: False,
    'isfinite': lambda x: True,
    'copysign': lambda a, b: abs(a) if b >= 0 else -abs(a),
    'hypot': lambda *a: S.sym_sqrt(sum(x * x for x in a)),
    'erf': lambda x: 2 * S.sym_phi(x * S.sym_sqrt(S.mk(2))) - 1,
    'erfc': lambda x: 2 * S.sym_phi(-x * S.sym_sqrt(S.mk(2))),
    'fmod': lambda a, b: a - b * S.sym_trunc(a / b),
}.items():
    setattr(shim_math, _n, _lift1(_n, _f))
shim_math.fsum = _fsum
shim_math.prod = _prod
shim_math.isclose = _isclose
shim_math.sumprod = _sumprod
for _n in ('pi', 'e', 'inf', 'nan', 'tau'):
    setattr(shim_math, _n, getattr(math, _n))

HIDDEN = ('scipy', 'numpy')
QUAD = None         # stand-in for scipy.integrate.quad set by a harness


def _quad(*a, **k):
    if QUAD is None:
        raise ImportError('hidden by the symbolic executor: scipy')
    return QUAD(*a, **k)


_integrate = types.ModuleType('scipy.integrate')
_integrate.quad = _quad
_scipy = types.ModuleType('scipy')
_scipy.integrate = _integrate


def symimport(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if name == 'math':
            return shim_math
        if name == 'scipy.integrate':
            return _integrate if fromlist else _scipy
        if name == 'scipy' and fromlist and set(fromlist) <= {'integrate'}:
            return _scipy
        if name.split('.')[0] in HIDDEN:
            raise ImportError('hidden by the symbolic executor: ' + name)
    return bimport(name, globals, locals, fromlist, level)


BUILTINS = dict(vars(builtins))
BUILTINS.update({'float': symfloat, 'int': symint, 'round': symround,
                 'pow': sympow, '__import__': symimport})


class TextOf(str):
    """text formatted from symbolic values: comparing it is not decidable"""

    def __eq__(self, o):
        S.CTX.tainted = True
        S.CTX.notes.append('text of a symbolic value compared')
        return str.__eq__(self, o)

    def __ne__(self, o):
        return not self == o

    __hash__ = str.__hash__


def symmod(a, b):
    """a % b, where a may be a format string and b symbolic"""
    if isinstance(a, str):
        bs = b if isinstance(b, tuple) else (b,)
        if any(isinstance(x, SymReal) and x.r.const() is None for x in bs):
            return TextOf(a % tuple(0.0 if isinstance(x, SymReal) and
                                    x.r.const() is None else x for x in bs))
    return a % b


class _Percent(ast.NodeTransformer):
    """string formatting happens inside the interpreter: route % here"""

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(
                ast.Name('__symmod__', ast.Load()),
                [node.left, node.right], []), node)
        return node


BUILTINS['__symmod__'] = symmod


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, 'rb') as f:
            tree = ast.parse(f.read(), path)
        tree = ast.fix_missing_locations(_Percent().visit(tree))
        return compile(tree, path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        module.__dict__['__builtins__'] = BUILTINS
        exec(self.get_code(module.__name__), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != 'dcf' and not name.startswith('dcf.'):
            return None
        rel = os.path.join(REPO, *name.split('.'))
        init = os.path.join(rel, '__init__.py')
        if os.path.exists(init):
            return importlib.util.spec_from_file_location(
                name, init, loader=Loader(name, init),
                submodule_search_locations=[rel])
        if os.path.exists(rel + '.py'):
            return importlib.util.spec_from_file_location(
                name, rel + '.py', loader=Loader(name, rel + '.py'))
        return None


EXECUTED = set()
RECORD = [True]


def _monitor():
    mon = getattr(sys, 'monitoring', None)
    if mon is None:
        return
    root = os.path.join(REPO, 'dcf') + os.sep
    try:
        mon.use_tool_id(3, 'dcfsym')
    except ValueError:
        return

    def start(code, off):
        if not RECORD[0]:
            return None
        if code.co_filename.startswith(root):
            EXECUTED.add((code.co_filename[len(root):], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)


_dcf = None


def load():
    """the symbolically loaded dcf package"""
    global _dcf
    if _dcf is None:
        for k in [k for k in sys.modules if k == 'dcf' or
                  k.startswith('dcf.')]:
            del sys.modules[k]
        if SITE not in sys.path:
            sys.path.append(SITE)
        sys.meta_path.insert(0, Finder())
        _monitor()
        _dcf = importlib.import_module('dcf')
        _stub_phi()
    return _dcf


PHI_STUBBED = []
PHI_STUB = True


def _stub_phi():
    """replace the normal distribution functions by their contract wherever
    the package refers to them (see C23 for the functions themselves)"""
    try:
        mod = importlib.import_module('dcf.models.distibutions')
        pairs = ((mod.normal_cdf, S.sym_phi), (mod.normal_pdf, S.sym_pdf))
    except (ImportError, AttributeError):
        return
    for orig, stub in pairs:
        def f(x, _o=orig, _s=stub):
            return _s(x) if PHI_STUB and isinstance(x, SymReal) else _o(x)
        for name, m in list(sys.modules.items()):
            if name.startswith('dcf') and m is not None and m is not mod:
                for k, v in list(vars(m).items()):
                    if v is orig:
                        setattr(m, k, f)
                        PHI_STUBBED.append(name + '.' + k)
