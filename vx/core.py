"""Symbolic values, path exploration.

A ``Sym`` is a hash-consed node of an expression DAG over mathematical reals; a ``SymBool`` is a
hash-consed condition.  The code under test is *executed* on them (numpy object arrays hold Syms),
and ``SymBool.__bool__`` forks the execution: the explorer re-runs the program once per feasible
combination of branch decisions.
"""
from __future__ import annotations

import math
from fractions import Fraction

import numpy as np


class EngineError(Exception):
    """The engine cannot represent what the program did (inconclusive, never a verdict)."""


class PathLimit(BaseException):
    """A declared exploration bound was hit; the path is abandoned and counted."""


class Abandon(BaseException):
    """This path is infeasible (an assumption is false on it)."""


_NODES: dict = {}
_LIST: list = []


def reset_nodes():
    _NODES.clear()
    _LIST.clear()


def _key(a):
    t = type(a)
    if t is Sym or t is SymBool:
        return ("#", a.id)
    if t is tuple:
        return tuple(_key(x) for x in a)
    return (t.__name__, a)


def _mk(cls, op, args):
    k = (op, tuple([("#", a.id) if (type(a) is Sym or type(a) is SymBool) else _key(a)
                    for a in args]))
    n = _NODES.get(k)
    if n is None:
        n = object.__new__(cls)
        n.op, n.args, n.id = op, args, len(_LIST)
        _NODES[k] = n
        _LIST.append(n)
    return n


def frac(x) -> Fraction:
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, (float, np.floating)):
        f = float(x)
        return Fraction(repr(f))
    raise EngineError(f"not a number: {type(x)}")


def const(x) -> "Sym":
    return _mk(Sym, "const", (frac(x),))


def var(name: str, integer: bool = False) -> "Sym":
    return _mk(Sym, "var", (name, bool(integer)))


def is_num(x):
    return isinstance(x, (int, float, Fraction, np.integer, np.floating, np.bool_)) \
        and not isinstance(x, Sym)


def nonfinite(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


def lift(x):
    """number | Sym -> Sym (raises EngineError otherwise)."""
    if type(x) is Sym:
        return x
    if type(x) is SymBool:
        return ite(x, ONE, ZERO)
    if isinstance(x, np.ndarray) and x.shape == ():
        return lift(x[()])
    return const(x)


def cval(x):
    """Fraction if ``x`` is a constant, else None."""
    return x.args[0] if x.op == "const" else None


class Sym:
    __slots__ = ("op", "args", "id")

    # ---- arithmetic
    def __add__(self, o):
        if isinstance(o, np.ndarray) and o.shape != ():
            return NotImplemented
        if nonfinite(o):
            return float(o)
        if not _ok(o):
            return NotImplemented
        return add(self, lift(o))

    __radd__ = __add__

    def __neg__(self):
        return mul(MONE, self)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, np.ndarray) and o.shape != ():
            return NotImplemented
        if nonfinite(o):
            return -float(o)
        if not _ok(o):
            return NotImplemented
        return add(self, mul(MONE, lift(o)))

    def __rsub__(self, o):
        if isinstance(o, np.ndarray) and o.shape != ():
            return NotImplemented
        if nonfinite(o):
            return float(o)
        if not _ok(o):
            return NotImplemented
        return add(lift(o), mul(MONE, self))

    def __mul__(self, o):
        if isinstance(o, np.ndarray) and o.shape != ():
            return NotImplemented
        if nonfinite(o):
            return _mul_nonfinite(self, float(o))
        if not _ok(o):
            return NotImplemented
        return mul(self, lift(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, np.ndarray) and o.shape != ():
            return NotImplemented
        if nonfinite(o):
            return float("nan") if math.isnan(o) else ZERO
        if not _ok(o):
            return NotImplemented
        return div(self, lift(o))

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray) and o.shape != ():
            return NotImplemented
        if nonfinite(o):
            return _mul_nonfinite(self, float(o))
        if not _ok(o):
            return NotImplemented
        return div(lift(o), self)

    def __floordiv__(self, o):
        if isinstance(o, np.ndarray) and o.shape != ():
            return NotImplemented
        return unary("floor", div(self, lift(o)))

    def __rfloordiv__(self, o):
        return unary("floor", div(lift(o), self))

    def __mod__(self, o):
        if isinstance(o, np.ndarray) and o.shape != ():
            return NotImplemented
        o = lift(o)
        return self - unary("floor", div(self, o)) * o

    def __rmod__(self, o):
        return lift(o) % self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if isinstance(o, np.ndarray) and o.shape != ():
            return NotImplemented
        return power(self, o)

    def __rpow__(self, o):
        return power(lift(o), self)

    def __abs__(self):
        return unary("abs", self)

    # numpy's object-dtype ufuncs call these
    def sqrt(self):
        return sqrt(self)

    def log(self):
        return log(self)

    def exp(self):
        return unary("exp", self)

    def conjugate(self):
        return self

    def square(self):
        return mul(self, self)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO

    def item(self):
        return self

    def copy(self):
        return self

    def tolist(self):
        return self

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    def astype(self, *_a, **_k):
        from vx import npx
        return npx.cast_scalar(self, _a[0] if _a else float)

    def is_integer(self):
        return eq(self, unary("floor", self))

    def __float__(self):
        c = cval(self)
        if c is None:
            raise EngineError("concretisation: float() of a symbolic value outside the shim")
        return float(c)

    def __int__(self):
        c = cval(self)
        if c is None:
            raise EngineError("concretisation: int() of a symbolic value")
        return int(c)

    def __index__(self):
        c = cval(self)
        if c is None or c.denominator != 1:
            raise EngineError("concretisation: symbolic value used as an index / length")
        return int(c)

    def __round__(self, nd=None):
        c = cval(self)
        if c is not None:
            r = round(c, nd) if nd is not None else round(c)
            return const(r) if nd is not None else int(r)
        return _mk(Sym, "round", (self, int(nd or 0)))

    def __floor__(self):
        return to_int(unary("floor", self))

    def __ceil__(self):
        return to_int(unary("ceil", self))

    def __trunc__(self):
        return trunc(self)

    # ---- comparisons
    def __lt__(self, o):
        return _cmp("lt", self, o)

    def __le__(self, o):
        return _cmp("le", self, o)

    def __gt__(self, o):
        return _cmp("gt", self, o)

    def __ge__(self, o):
        return _cmp("ge", self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, list, tuple, dict)):
            return False
        return _cmp("eq", self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else bnot(r)

    def __hash__(self):
        return hash(("Sym", self.id))

    def __bool__(self):
        return bool(bnot(eq(self, ZERO)))

    def __repr__(self):
        c = cval(self)
        if c is not None:
            return repr(float(c)) if c.denominator != 1 or True else str(c)
        return f"<{show(self, 3)}>"

    def __reduce__(self):
        return (_by_id, (self.id,))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __format__(self, spec):
        return repr(self)


def _by_id(i):
    return _LIST[i]


def _ok(o):
    return type(o) is Sym or type(o) is SymBool or is_num(o) or \
        (isinstance(o, np.ndarray) and o.shape == ())


class SymBool:
    __slots__ = ("op", "args", "id")

    def __bool__(self):
        if self.op == "true":
            return True
        if self.op == "false":
            return False
        ctx = Ctx.current
        if ctx is None:
            raise EngineError("symbolic condition outside exploration")
        return ctx.decide(self)

    def __and__(self, o):
        if isinstance(o, np.ndarray) and o.shape != ():
            return NotImplemented
        return band(self, blift(o))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray) and o.shape != ():
            return NotImplemented
        return bor(self, blift(o))

    __ror__ = __or__

    def __xor__(self, o):
        o = blift(o)
        return bor(band(self, bnot(o)), band(bnot(self), o))

    def __invert__(self):
        return bnot(self)

    def logical_not(self):
        return bnot(self)

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, SymBool)):
            o = blift(o)
            return bor(band(self, o), band(bnot(self), bnot(o)))
        return NotImplemented

    def __hash__(self):
        return hash(("SymBool", self.id))

    def __repr__(self):
        return f"<{show(self, 3)}>"

    def __add__(self, o):
        return lift(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return lift(self) - o

    def __rsub__(self, o):
        return lift(o) - lift(self)

    def __mul__(self, o):
        if isinstance(o, np.ndarray) and o.shape != ():
            return NotImplemented
        return lift(self) * o

    __rmul__ = __mul__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (_by_id, (self.id,))

    def item(self):
        return self

    @property
    def shape(self):
        return ()

    def all(self):
        return self

    def any(self):
        return self


ZERO = ONE = MONE = TRUE = FALSE = None


def _boot():
    global ZERO, ONE, MONE, TRUE, FALSE
    ZERO, ONE, MONE = const(0), const(1), const(-1)
    TRUE, FALSE = _mk(SymBool, "true", ()), _mk(SymBool, "false", ())


def blift(o):
    if type(o) is SymBool:
        return o
    if isinstance(o, np.ndarray) and o.shape == ():
        return blift(o[()])
    if isinstance(o, Sym):
        return bnot(eq(o, ZERO))
    return TRUE if o else FALSE


def add(a, b):
    ca, cb = cval(a), cval(b)
    if ca is not None:
        if cb is not None:
            return const(ca + cb)
        if ca == 0:
            return b
    elif cb == 0 and cb is not None:
        return a
    if a.op == "mul" and a.args[0] is MONE and a.args[1] is b:
        return ZERO
    if b.op == "mul" and b.args[0] is MONE and b.args[1] is a:
        return ZERO
    if a.id > b.id:
        a, b = b, a
    return _mk(Sym, "add", (a, b))


def mul(a, b):
    ca, cb = cval(a), cval(b)
    if cb is not None and ca is None:
        a, b, ca, cb = b, a, cb, ca
    if ca is not None:
        if cb is not None:
            return const(ca * cb)
        if ca == 0:
            return ZERO
        if ca == 1:
            return b
        if ca == -1 and b.op == "mul" and b.args[0] is MONE:
            return b.args[1]
        return _mk(Sym, "mul", (a, b))
    if a.id > b.id:
        a, b = b, a
    return _mk(Sym, "mul", (a, b))


def div(a, b):
    cb = cval(b)
    if cb is not None:
        if cb == 0:
            ctx = Ctx.current
            ca = cval(a)
            if ca == 0:
                return float("nan")
            if ca is not None:
                return math.copysign(float("inf"), ca)
            if ctx is not None and ctx.partial == "fork":
                if bool(eq(a, ZERO)):
                    return float("nan")
                return float("inf") if bool(lt(ZERO, a)) else float("-inf")
            return float("nan")
        ca = cval(a)
        if ca is not None:
            return const(ca / cb)
        if cb == 1:
            return a
        return mul(const(1 / cb), a)
    ctx = Ctx.current
    if ctx is not None:
        if ctx.partial == "fork":
            if bool(eq(b, ZERO)):
                ctx.nonfinite_seen += 1
                if bool(eq(a, ZERO)):
                    return float("nan")
                return float("inf") if bool(lt(ZERO, a)) else float("-inf")
        else:
            ctx.guard(bnot(eq(b, ZERO)))
    if a is ZERO:
        return ZERO
    if a is b:
        return ONE
    return _mk(Sym, "div", (a, b))


def _mul_nonfinite(s, f):
    if math.isnan(f):
        return f
    c = cval(s)
    if c is not None:
        return f * float(c)
    if bool(eq(s, ZERO)):
        return float("nan")
    return f if bool(lt(ZERO, s)) else -f


def sqrt(a):
    c = cval(a)
    if c is not None:
        if c < 0:
            return float("nan")
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return const(Fraction(n, d))
        return _mk(Sym, "sqrt", (a,))
    ctx = Ctx.current
    if ctx is not None:
        if ctx.partial == "fork":
            if bool(lt(a, ZERO)):
                ctx.nonfinite_seen += 1
                return float("nan")
        else:
            ctx.guard(le(ZERO, a))
    return _mk(Sym, "sqrt", (a,))


def log(a):
    c = cval(a)
    if c is not None:
        if c == 1:
            return ZERO
        if c == 0:
            return float("-inf")
        if c < 0:
            return float("nan")
        return _mk(Sym, "log", (a,))
    ctx = Ctx.current
    if ctx is not None:
        if ctx.partial == "fork":
            if bool(le(a, ZERO)):
                ctx.nonfinite_seen += 1
                return float("-inf") if bool(eq(a, ZERO)) else float("nan")
        else:
            ctx.guard(lt(ZERO, a))
    if a.op == "div" and a.args[0] is ONE:
        return mul(MONE, log(a.args[1]))
    return _mk(Sym, "log", (a,))


def lower_bound(t, depth=4):
    """A constant no larger than t, from the declared bounds of the variables (None: not known)."""
    ctx = Ctx.current
    if ctx is None or not (ctx.eig_closed or ctx.eig_known):
        return None
    if t.op == "const":
        return t.args[0]
    if t.op == "var":
        return ctx.varlo.get(t.args[0])
    if t.op in ("sqrt", "abs"):
        return Fraction(0)
    if depth == 0:
        return None
    if t.op in ("add", "mul", "max"):
        a, b = lower_bound(t.args[0], depth - 1), lower_bound(t.args[1], depth - 1)
        if t.op == "max":
            return max((v for v in (a, b) if v is not None), default=None)
        if t.op == "mul" and t.args[0] is t.args[1] and a is None:
            return Fraction(0)
        if a is None or b is None:
            return None
        if t.op == "add":
            return a + b
        if a >= 0 and b >= 0:
            return a * b
    return None


def unary(op, a):
    c = cval(a)
    if c is not None:
        if op == "abs":
            return const(abs(c))
        if op == "floor":
            return const(math.floor(c))
        if op == "ceil":
            return const(math.ceil(c))
        if op == "exp" and c == 0:
            return ONE
    if op == "abs" and a.op in ("abs", "sqrt"):
        return a
    if op == "abs":
        l = lower_bound(a)
        if l is not None and l >= 0:
            return a
    if op in ("floor", "ceil") and is_int_node(a):
        return a
    return _mk(Sym, op, (a,))


def is_int_node(a):
    if a.op == "const":
        return a.args[0].denominator == 1
    if a.op == "var":
        return a.args[1]
    if a.op in ("floor", "ceil"):
        return True
    if a.op in ("add", "mul", "max", "min"):
        return all(is_int_node(x) for x in a.args)
    if a.op == "abs":
        return is_int_node(a.args[0])
    if a.op == "ite":
        return is_int_node(a.args[1]) and is_int_node(a.args[2])
    return False


def to_int(a):
    c = cval(a)
    if c is not None and c.denominator == 1:
        return int(c)
    return a


def trunc(a):
    c = cval(a)
    if c is not None:
        return math.trunc(c)
    if is_int_node(a):
        return a
    return unary("floor", a) if bool(le(ZERO, a)) else unary("ceil", a)


def power(a, e):
    if type(e) is Sym:
        ce = cval(e)
    elif is_num(e) and not nonfinite(e):
        ce = frac(e)
    else:
        raise EngineError("unsupported exponent")
    if ce is not None:
        if ce == 0:
            return ONE
        if ce == Fraction(1, 2):
            return sqrt(a)
        if ce.denominator == 1:
            k = int(ce)
            if abs(k) > 64:
                raise EngineError("large exponent")
            out = a
            for _ in range(abs(k) - 1):
                out = mul(out, a)
            return out if k > 0 else div(ONE, out)
        if ce.denominator in (2, 4, 8):
            r = sqrt(a)
            return r if type(r) is float else power(r, ce * 2)
        e = const(ce)
    if a is ONE:
        return ONE
    ctx = Ctx.current
    if ctx is not None and cval(a) is None:
        if ctx.partial == "fork":
            if bool(lt(a, ZERO)):
                return float("nan")
        else:
            ctx.guard(le(ZERO, a))
    return _mk(Sym, "pow", (a, e))


def smax(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return a
    ctx = Ctx.current
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return a if ca >= cb else b
    if ctx is not None and ctx.fork_minmax:
        return a if bool(le(b, a)) else b
    if ca is None and cb is not None:
        a, b, ca, cb = b, a, cb, ca
    if ca is not None:
        l = lower_bound(b)
        if l is not None and l >= ca:
            return b
    if b.op == "max":
        x, y = b.args
        if a is x or a is y:
            return b
        if ca is not None:
            for u, v in ((x, y), (y, x)):
                cu = cval(u)
                if cu is not None:
                    return smax(a if ca >= cu else u, v)
    return _mk(Sym, "max", (a, b) if a.id < b.id else (b, a))


def smin(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return a
    ctx = Ctx.current
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return a if ca <= cb else b
    if ctx is not None and ctx.fork_minmax:
        return a if bool(le(a, b)) else b
    if ca is None and cb is not None:
        a, b, ca, cb = b, a, cb, ca
    if b.op == "min":
        x, y = b.args
        if a is x or a is y:
            return b
        if ca is not None:
            for u, v in ((x, y), (y, x)):
                cu = cval(u)
                if cu is not None:
                    return smin(a if ca <= cu else u, v)
    return _mk(Sym, "min", (a, b) if a.id < b.id else (b, a))


def ite(c, a, b):
    c = blift(c)
    if c.op == "true":
        return a
    if c.op == "false":
        return b
    if a is b:
        return a
    if nonfinite(a) or nonfinite(b):
        return a if bool(c) else b
    if isinstance(a, SymBool) or isinstance(b, SymBool) or isinstance(a, bool):
        a, b = blift(a), blift(b)
        return bor(band(c, a), band(bnot(c), b))
    a, b = lift(a), lift(b)
    if a is b:
        return a
    return _mk(Sym, "ite", (c, a, b))


def _cmp(op, a, o):
    if isinstance(o, np.ndarray) and o.shape != ():
        return NotImplemented
    if nonfinite(o):
        f = float(o)
        if math.isnan(f):
            return False
        return {"lt": f > 0, "le": f > 0, "gt": f < 0, "ge": f < 0, "eq": False}[op]
    if not _ok(o):
        return NotImplemented
    b = lift(o)
    if op == "lt":
        r = lt(a, b)
    elif op == "gt":
        r = lt(b, a)
    elif op == "le":
        r = le(a, b)
    elif op == "ge":
        r = le(b, a)
    else:
        r = eq(a, b)
    if r.op == "true":
        return True
    if r.op == "false":
        return False
    return r


def lt(a, b):
    if a is b:
        return FALSE
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return TRUE if ca < cb else FALSE
    if a is ZERO and b.op == "sqrt":
        return lt(ZERO, b.args[0])
    if b is ZERO and b.op in ("sqrt", "abs") or (b is ZERO and a.op in ("sqrt", "abs")):
        return FALSE
    return _mk(SymBool, "lt", (a, b))


def le(a, b):
    if a is b:
        return TRUE
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return TRUE if ca <= cb else FALSE
    return bnot(lt(b, a))


def eq(a, b):
    if a is b:
        return TRUE
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return TRUE if ca == cb else FALSE
    if ca == 0 and b.op == "sqrt":
        return eq(ZERO, b.args[0])
    if cb == 0 and a.op == "sqrt":
        return eq(ZERO, a.args[0])
    if a.id > b.id:
        a, b = b, a
    return _mk(SymBool, "eq", (a, b))


def bnot(c):
    c = blift(c)
    if c.op == "true":
        return FALSE
    if c.op == "false":
        return TRUE
    if c.op == "not":
        return c.args[0]
    return _mk(SymBool, "not", (c,))


def band(a, b):
    a, b = blift(a), blift(b)
    if a.op == "false" or b.op == "false":
        return FALSE
    if a.op == "true":
        return b
    if b.op == "true" or a is b:
        return a
    return _mk(SymBool, "and", (a, b))


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def pred(name, args, meta=()):
    return _mk(SymBool, "pred", (name, tuple(args), tuple(meta)))


def la(name, mats, idx, meta=()):
    """Opaque linear-algebra output: ``mats`` is a tuple of (shape, entries) operands."""
    return _mk(Sym, "la", (name, mats, tuple(idx), tuple(meta)))


def show(n, depth=4):
    if not isinstance(n, (Sym, SymBool)):
        return str(n)
    if n.op == "const":
        c = n.args[0]
        return str(c) if c.denominator < 10 ** 6 else f"{float(c):.6g}"
    if n.op == "var":
        return n.args[0]
    if depth == 0:
        return "..."
    if n.op in ("la", "pred"):
        return f"{n.args[0]}[{n.id}]"
    sym = {"add": " + ", "mul": "*", "div": "/", "lt": " < ", "eq": " == ", "and": " & "}
    if n.op in sym:
        return "(" + sym[n.op].join(show(a, depth - 1) for a in n.args) + ")"
    return n.op + "(" + ", ".join(show(a, depth - 1) for a in n.args) + ")"


_boot()


# ------------------------------------------------------------------------------ exploration
ABNORMAL = {"singular": True, "posdef": False}


def _canon_key(c):
    from vx import poly
    try:
        return poly.bkey(c)
    except (poly.TooBig, EngineError, ZeroDivisionError):
        return None


class Ctx:
    """One symbolic execution: path condition, decisions, guards."""

    current: "Ctx | None" = None

    def __init__(self, *, feas=None, partial="assume", fork_minmax=False, max_decisions=400,
                 la_mode="uf", la_exact_n=3, prefer=None, abnormal=1, canon=False, eig_closed=False):
        self.eig_closed = eig_closed        # closed form for 2 x 2 spectra
        self.canon = canon                  # recognise conditions equal up to normal form
        self.abnormal = abnormal            # how many opaque LAPACK failures one path may contain
        self.feas = feas                    # callable(ctx, SymBool) -> bool|None, or None
        self.la_mode = la_mode              # 'uf': opaque linalg, 'exact': cofactors / eigen contract
        self.la_exact_n = la_exact_n
        self.prefer = prefer                # callable(SymBool) -> bool: which branch to try first
        self.partial = partial              # 'assume' | 'fork' on x/0, sqrt(<0), log(<=0)
        self.fork_minmax = fork_minmax
        self.max_decisions = max_decisions
        self.prefix: list = []
        self.reset()

    def reset(self):
        self.path: list = []                # SymBools that hold on this path (in order)
        self.known: dict = {}               # node id -> bool
        self.known_b: dict = {}             # canonical key -> bool
        self.decisions: list = []           # (bool taken, both_feasible)
        self.guards: list = []              # definedness assumptions
        self.assumes: list = []
        self.contracts: list = []
        self.eig_memo: dict = {}
        self.varlo: dict = {}               # variable name -> lower bound (used when bounds are followed)
        self.eig_known: list = []           # orthogonal matrices the harness built its inputs from
        self.abnormal_left = self.abnormal
        self.bounded: set = set()
        self.nonfinite_seen = 0
        self.counters: dict = {}
        self.fresh_n: dict = {}

    # -- recording
    def _learn(self, c, val):
        if c.op == "not":
            return self._learn(c.args[0], not val)
        self.known[c.id] = val
        if self.canon:
            k = _canon_key(c)
            if k is not None:
                self.known_b[k] = val
        if c.op == "and" and val:
            for a in c.args:
                self._learn(a, True)
        self.path.append(c if val else bnot(c))

    def lookup(self, c):
        if c.op == "true":
            return True
        if c.op == "false":
            return False
        if c.op == "not":
            r = self.lookup(c.args[0])
            return None if r is None else not r
        k = self.known.get(c.id)
        if k is not None:
            return k
        if c.op == "and":
            rs = [self.lookup(a) for a in c.args]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
        if self.canon:
            k = _canon_key(c)
            if k is not None:
                if k == ("true",):
                    return True
                if k == ("false",):
                    return False
                r = self.known_b.get(k)
                if r is not None:
                    return r
                if k[0] == "lt":
                    r = self.known_b.get(("lt", tuple((m, -v) for m, v in k[1])))
                    if r is True:
                        return False
        return None

    def guard(self, c):
        r = self.lookup(c)
        if r is True:
            return
        if r is False:
            raise Abandon()
        self.guards.append(c)
        self._learn(c, True)

    def assume(self, c):
        c = blift(c)
        r = self.lookup(c)
        if r is True:
            return
        if r is False:
            raise Abandon()
        self.assumes.append(c)
        self._learn(c, True)

    def contract(self, c):
        """A fact about an opaque operation's result (part of the trusted model)."""
        c = blift(c)
        if c.op == "true":
            return
        self.contracts.append(c)

    def fresh(self, name, integer=False):
        k = self.fresh_n.get(name, 0)
        self.fresh_n[name] = k + 1
        return var(f"{name}!{k}", integer)

    # -- branching
    def decide(self, c):
        r = self.lookup(c)
        if r is not None:
            return r
        i = len(self.decisions)
        if i < len(self.prefix):
            val, both = self.prefix[i]
            self.decisions.append((val, both))
            self._learn(c, val)
            if c.op == "pred" and c.args[0] in ABNORMAL and val == ABNORMAL[c.args[0]]:
                self.abnormal_left -= 1
            return val
        if c.op == "pred" and c.args[0] in ABNORMAL:
            ab = ABNORMAL[c.args[0]]
            if self.abnormal_left <= 0:
                self.bounded.add(c.args[0])
                self.decisions.append((not ab, False))
                self._learn(c, not ab)
                return not ab
            # explore the normal branch first, the abnormal one as a sibling
            self.decisions.append((not ab, True))
            self._learn(c, not ab)
            return not ab
        if i >= self.max_decisions:
            raise PathLimit(f"more than {self.max_decisions} decisions")
        both = True
        val = bool(self.prefer(c)) if self.prefer is not None else False
        if self.feas is not None:
            t = self.feas(self, c)
            f = self.feas(self, bnot(c))
            if t is False and f is False:
                raise Abandon()
            if t is False:
                val, both = False, False
            elif f is False:
                val, both = True, False
        self.decisions.append((val, both))
        self._learn(c, val)
        return val


def explore(ctx: Ctx, fn, max_paths=4000):
    """Yield (outcome, value) per path; outcome in 'ok' | 'limit'.  ``fn`` returns any value."""
    stack = [[]]
    n = 0
    while stack:
        # early decisions are flipped first, later in the search late ones too, so that a limit on paths leaves neither out
        prefix = stack.pop(0 if n % 2 and n > max_paths // 2 else -1)
        n += 1
        if n > max_paths:
            yield "limit", f"more than {max_paths} paths"
            return
        ctx.prefix = prefix
        ctx.reset()
        Ctx.current = ctx
        try:
            val = fn()
            res = ("ok", val)
        except Abandon:
            res = ("infeasible", None)
        except PathLimit as e:
            res = ("limit", str(e))
        finally:
            Ctx.current = None
        # schedule siblings of the decisions newly made in this run
        for i in range(len(ctx.decisions) - 1, len(prefix) - 1, -1):
            val, both = ctx.decisions[i]
            if both:
                stack.append(ctx.decisions[:i] + [(not val, True)])
        yield res
