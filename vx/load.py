"""Load the code under test (``precise.*``, ``research.*``) for symbolic execution.

The current source files of /repo are parsed and rewritten on every run:
  * float literals become exact rational constants,
  * ``/`` becomes an exact division helper (so 1/3 is the rational 1/3),
  * ``numpy`` and ``math`` are replaced by the stand-ins of vx.npx,
  * builtins that would force a concrete number (float, int, round, min, max, abs, sum, isinstance)
    are replaced by symbolic-aware versions.
Nothing else of the program text changes.
"""
from __future__ import annotations

import ast
import builtins
import importlib.abc
import importlib.machinery
import numbers
import os
import sys
import types
from fractions import Fraction

import numpy as np

from vx import core, npx
from vx.core import EngineError, Sym, SymBool, cval

REPO = os.environ.get("VX_REPO", "/repo")
ENCODED: dict = {}          # module -> {"functions": set}
PREFIXES = ("precise", "research")


# ------------------------------------------------------------------ builtins
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, Sym))

    def __subclasscheck__(cls, c):
        return issubclass(c, (float, Sym))

    def __call__(cls, x=0.0):
        if isinstance(x, str):
            return npx.E(float(x)) if x.strip().lower() not in ("nan", "inf", "-inf", "infinity") \
                else float(x)
        if isinstance(x, np.ndarray):
            if x.size != 1:
                raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
            x = npx.raw(x).ravel()[0]
        if isinstance(x, (list, tuple, dict)) or x is None:
            raise TypeError("float() argument must be a string or a real number")
        return npx.E(core.lift(x) if isinstance(x, SymBool) else x)

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)


class Float(metaclass=_FloatMeta):
    _vx_kind = "f"
    dtype = np.dtype(float)
    fromhex = float.fromhex


class _IntMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, int):
            return True
        return isinstance(x, Sym) and x.op == "var" and x.args[1]

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __call__(cls, x=0, *a):
        if isinstance(x, Sym):
            return core.to_int(core.lift(core.trunc(x)))
        if isinstance(x, SymBool):
            return core.lift(x)
        if isinstance(x, np.ndarray) and x.size == 1:
            return cls(npx.raw(x).ravel()[0])
        return int(x, *a)

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)


class Int(metaclass=_IntMeta):
    _vx_kind = "i"


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bool, SymBool))

    def __subclasscheck__(cls, c):
        return issubclass(c, bool)

    def __call__(cls, x=False):
        if isinstance(x, SymBool):
            return bool(x)
        return bool(x)

    def __eq__(cls, o):
        return o is bool or o is cls

    def __hash__(cls):
        return hash(bool)


class Bool(metaclass=_BoolMeta):
    _vx_kind = "b"


def vx_isinstance(x, cls):
    if isinstance(cls, tuple):
        return any(vx_isinstance(x, c) for c in cls)
    if isinstance(x, Sym):
        if cls in (numbers.Number, numbers.Real, numbers.Complex):
            return True
        if cls in (np.floating, np.number, np.inexact, np.generic, np.float64):
            return False
    return isinstance(x, cls)


def _prep(args):
    return list(args[0]) if len(args) == 1 else list(args)


def _symbolic(v):
    return isinstance(v, (Sym, SymBool)) or (isinstance(v, np.ndarray) and v.shape == () and
                                             isinstance(v, npx.SA))


def vx_max(*args, key=None, default=npx):
    items = _prep(args)
    if key is not None or not any(_symbolic(v) for v in items):
        kw = {} if key is None else {"key": key}
        if default is not npx:
            kw["default"] = default
        return max(items, **kw)
    acc = items[0]
    for v in items[1:]:
        acc = _py_extreme(acc, v, True)
    return acc


def _py_extreme(a, b, mx):
    """Python's max/min for two numbers (NaN-faithful: keeps the first unless strictly beaten)."""
    a, b = npx.E(a), npx.E(b)
    if type(a) is float or type(b) is float:
        if mx:
            return b if (b > a) else a
        return b if (b < a) else a
    return core.to_int(core.smax(a, b)) if mx else core.to_int(core.smin(a, b))


def vx_min(*args, key=None, default=npx):
    items = _prep(args)
    if key is not None or not any(_symbolic(v) for v in items):
        kw = {} if key is None else {"key": key}
        if default is not npx:
            kw["default"] = default
        return min(items, **kw)
    acc = items[0]
    for v in items[1:]:
        acc = _py_extreme(acc, v, False)
    return acc


def vx_sum(it, start=0):
    for v in it:
        start = start + v
    return start


def vx_round(x, nd=None):
    if isinstance(x, Sym):
        return x.__round__(nd)
    return round(x, nd) if nd is not None else round(x)


def vx_range(*a):
    return range(*[v.__index__() if isinstance(v, Sym) else v for v in a])


def vx_div(a, b):
    if isinstance(a, (Sym, np.ndarray)) or isinstance(b, (Sym, np.ndarray)):
        if isinstance(a, np.ndarray) and not isinstance(a, npx.SA) or \
                isinstance(b, np.ndarray) and not isinstance(b, npx.SA):
            return npx.do_ufunc(np.true_divide, "__call__", a, b)
        if isinstance(b, Sym) and cval(b) == 0 and not isinstance(a, np.ndarray):
            raise ZeroDivisionError("float division by zero")
        return a / b
    if isinstance(a, (int, float, Fraction, np.number)) and isinstance(b, (int, float, Fraction, np.number)):
        if b == 0:
            return a / b
        return npx.e_div(a, b)
    return a / b


_PROXY = {id(Float): float, id(Int): int, id(Bool): bool}


def vx_type(*a):
    if len(a) == 1:
        if isinstance(a[0], Sym):
            return Float
        return type(a[0])
    return type(*a)


def vx_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        root = name.split(".")[0]
        if root == "numpy":
            if fromlist and name == "numpy.linalg":
                return npx.linalg_module
            if fromlist and name not in ("numpy",):
                return builtins.__import__(name, globals, locals, fromlist, level)
            return npx.module
        if name == "math":
            return npx.math_module
        if root == "pandas":
            return FAKE_PANDAS
        if root in ("statistics", "random", "scipy", "sklearn", "skaters"):
            if root == "statistics":
                return npx.statistics_module
            if root == "random":
                raise EngineError(f"module {root} is outside the model")
    return builtins.__import__(name, globals, locals, fromlist, level)


class FakeFrame:
    """Only what to_frame needs: values, index, columns."""

    def __init__(self, data=None, index=None, columns=None, **k):
        self.values = npx.mk(data)
        self.index = list(index) if index is not None else None
        self.columns = list(columns) if columns is not None else None

    def to_numpy(self):
        return self.values


FAKE_PANDAS = types.ModuleType("pandas")
FAKE_PANDAS.DataFrame = FakeFrame


def make_builtins():
    d = dict(vars(builtins))
    d.update(float=Float, int=Int, bool=Bool, isinstance=vx_isinstance, max=vx_max, min=vx_min,
             sum=vx_sum, round=vx_round, range=vx_range, __import__=vx_import,
             print=lambda *a, **k: None, __vx_div__=vx_div, __vx_const__=core.const)
    return d


BUILTINS = make_builtins()


# ------------------------------------------------------------------ AST
class Rewrite(ast.NodeTransformer):
    def visit_Constant(self, n):
        if type(n.value) is float:
            if n.value != n.value or n.value in (float("inf"), float("-inf")):
                return n
            return ast.copy_location(ast.Call(
                func=ast.Name("__vx_const__", ast.Load()),
                args=[ast.Constant(n.value)], keywords=[]), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(func=ast.Name("__vx_div__", ast.Load()),
                                              args=[n.left, n.right], keywords=[]), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_arguments(self, n):
        n.defaults = [self.visit(d) for d in n.defaults]
        n.kw_defaults = [self.visit(d) if d is not None else None for d in n.kw_defaults]
        return n

    def visit_FunctionDef(self, n):
        n.args = self.visit_arguments(n.args)
        n.body = [self.visit(b) for b in n.body]
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        return n

    def visit_MatchValue(self, n):
        return n


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        fns = sorted({n.name for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)})
        ENCODED[module.__name__] = fns
        tree = ast.fix_missing_locations(Rewrite().visit(tree))
        code = compile(tree, self.path, "exec")
        module.__dict__["__builtins__"] = BUILTINS
        module.__dict__["__file__"] = self.path
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        parts = name.split(".")
        if parts[0] not in PREFIXES:
            return None
        base = os.path.join(REPO, *parts)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            spec = importlib.machinery.ModuleSpec(name, Loader(p), origin=p, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        if os.path.exists(base + ".py"):
            return importlib.machinery.ModuleSpec(name, Loader(base + ".py"), origin=base + ".py")
        return None


_installed = False


def install():
    global _installed
    if not _installed:
        sys.meta_path.insert(0, Finder())
        _installed = True


_touched: set = set()


def trace_functions():
    """Record which functions of the code under test were executed symbolically."""
    root = os.path.join(REPO, "")

    def prof(frame, event, arg):
        if event == "call":
            co = frame.f_code
            if co.co_filename.startswith(root):
                _touched.add((co.co_filename[len(root):], co.co_qualname))
    sys.setprofile(prof)


def touched():
    return sorted(f"{a}:{b}" for a, b in _touched)


def source_ints(lo=9, hi=600, sub="precise"):
    """Integer literals of the current source (harvested each run to pick adversarial sizes)."""
    out = set()
    for dp, _dn, fn in os.walk(os.path.join(REPO, sub)):
        for f in fn:
            if not f.endswith(".py") or f == "_recommender_model.py":
                continue
            try:
                tree = ast.parse(open(os.path.join(dp, f), encoding="utf-8").read())
            except SyntaxError:
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and type(n.value) is int and lo <= n.value <= hi:
                    out.add(n.value)
                if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Pow, ast.LShift, ast.Mult)) and \
                        isinstance(n.left, ast.Constant) and isinstance(n.right, ast.Constant):
                    try:
                        v = {ast.Pow: lambda a, b: a ** b, ast.LShift: lambda a, b: a << b,
                             ast.Mult: lambda a, b: a * b}[type(n.op)](n.left.value, n.right.value)
                        if isinstance(v, int) and lo <= v <= hi:
                            out.add(v)
                    except Exception:
                        pass
    return sorted(out)
