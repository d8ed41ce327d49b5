"""Canonical normal form: Laurent polynomials with rational coefficients over atoms.

``nf(node)`` maps a term to a Poly.  Atoms are variables and opaque applications (sqrt, max, ite,
linear algebra outputs, ...) whose arguments are themselves canonicalised, so two terms with equal
normal forms are equal for every value of the variables at which both are defined.  Composite
denominators become atoms with negative exponents; ``equal`` clears them.
"""
from __future__ import annotations

import itertools
from fractions import Fraction

from vx.core import EngineError, Sym, SymBool

MAXTERMS = 6000


class TooBig(EngineError):
    pass


class Atom:
    __slots__ = ("key", "id", "kind", "payload")

    def __repr__(self):
        return f"A{self.id}:{self.kind}"


_ATOMS: dict = {}
_ALIST: list = []
_NF: dict = {}
_BK: dict = {}
_big: set = set()
_PAIRS: dict = {}       # (sqrt atom, sqrt atom) -> their product, where that is known exactly


def reset():
    _ATOMS.clear(), _ALIST.clear(), _NF.clear(), _BK.clear(), _big.clear(), _PAIRS.clear()


def atom(kind, key, payload=None):
    k = (kind, key)
    a = _ATOMS.get(k)
    if a is None:
        a = Atom()
        a.key, a.id, a.kind, a.payload = k, len(_ALIST), kind, payload
        _ATOMS[k] = a
        _ALIST.append(a)
    return a


# Poly: dict {mono: Fraction}; mono: tuple of (atom_id, exp) sorted by atom_id
P0: dict = {}


def p_const(c):
    return {(): Fraction(c)} if c else {}


def p_atom(a, e=1):
    return {((a.id, e),): Fraction(1)}


def p_add(a, b, s=1):
    if len(a) < len(b) and s == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    if len(r) > MAXTERMS:
        raise TooBig()
    return r


def _mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            del d[a]
    return tuple(sorted(d.items()))


def _needs_reduce(m):
    for a, e in m:
        at = _ALIST[a]
        if at.kind == "sqrt" and e not in (0, 1):
            return True
        if at.kind == "den" and e > 0:
            return True
    return bool(_PAIRS) and _pair(m) is not None


def _pair(m):
    d = dict(m)
    for (a, b), p in _PAIRS.items():
        if d.get(a, 0) > 0 and d.get(b, 0) > 0:
            return a, b, p
    return None


def product_of_roots(x, y, z):
    """Register that the product of the square roots x and y is z (all terms, z >= 0)."""
    px, py, pz = nf(x), nf(y), nf(z)
    if len(px) == 1 and len(py) == 1:
        (m, c), (n, d) = *px.items(), *py.items()
        if len(m) == 1 and len(n) == 1 and m[0][1] == n[0][1] == 1 and m != n and \
                _ALIST[m[0][0]].kind == _ALIST[n[0][0]].kind == "sqrt":
            _PAIRS[tuple(sorted((m[0][0], n[0][0])))] = {k: v / (c * d) for k, v in pz.items()}


def _reduce(m, c):
    """Rewrite sqrt^2 -> argument and positive powers of denominators -> their polynomial."""
    out = {(): c}
    rest = []
    pr = _pair(m) if _PAIRS else None
    if pr is not None:
        d = dict(m)
        for a in pr[:2]:
            d[a] -= 1
        k = tuple(sorted((a, e) for a, e in d.items() if e))
        return p_mul(pr[2], _reduce(k, c) if _needs_reduce(k) else {k: Fraction(c)})
    for a, e in m:
        at = _ALIST[a]
        if at.kind == "sqrt" and e not in (0, 1):
            q, r = divmod(e, 2)
            if r:
                rest.append((a, 1))
            out = p_mul(out, p_pow(at.payload, q))
        elif at.kind == "den" and e > 0:
            out = p_mul(out, p_pow(at.payload, e))
        else:
            rest.append((a, e))
    if rest:
        out = p_mul(out, {tuple(rest): Fraction(1)})
    return out


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(a) * len(b) > 60 * MAXTERMS:
        raise TooBig()
    r: dict = {}
    special = []
    for m, c in a.items():
        for n, d in b.items():
            k = _mmul(m, n)
            if k and _needs_reduce(k):
                special.append((k, c * d))
                continue
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    for k, c in special:
        r = p_add(r, _reduce(k, c))
    if len(r) > MAXTERMS:
        raise TooBig()
    return r


def p_pow(p, e):
    if e == 0:
        return p_const(1)
    if e < 0:
        return p_pow(p_inv(p), -e)
    r = p
    for _ in range(e - 1):
        r = p_mul(r, p)
    return r


def key(p):
    return tuple(sorted(p.items()))


def p_inv(p):
    """1/p."""
    if not p:
        raise ZeroDivisionError
    if len(p) == 1:
        (m, c), = p.items()
        inv = {tuple((a, -e) for a, e in m): 1 / c}
        mm = next(iter(inv))
        if _needs_reduce(mm):
            return _reduce(mm, 1 / c)
        return inv
    # pull out the common monomial and the leading coefficient, then an opaque denominator atom
    common: dict | None = None
    for m in p:
        d = dict(m)
        if common is None:
            common = d
        else:
            for a in list(common):
                common[a] = min(common[a], d.get(a, 0)) if common[a] > 0 or d.get(a, 0) < 0 else \
                    min(common[a], d.get(a, 0))
                if common[a] == 0:
                    del common[a]
            for a, e in d.items():
                if e < 0 and a not in common:
                    common[a] = e
    # entries with negative exponents only in some monomials were handled above (min with 0)
    com = tuple(sorted((a, e) for a, e in common.items() if e))
    inv_com = tuple((a, -e) for a, e in com)
    q: dict = {}
    for m, c in p.items():
        q[_mmul(m, inv_com)] = c
    if any(_needs_reduce(m) for m in q):
        q2: dict = {}
        for m, c in q.items():
            q2 = p_add(q2, _reduce(m, c) if _needs_reduce(m) else {m: c})
        q = q2
    if not q:
        raise ZeroDivisionError
    lead = min(q)
    lc = q[lead]
    q = {m: c / lc for m, c in q.items()}
    if len(q) == 1:
        r = p_inv(q)
    else:
        r = p_atom(atom("den", key(q), q), -1)
    r = {m: c / lc for m, c in r.items()}
    return p_mul(r, {inv_com: Fraction(1)})


def nf(n) -> dict:
    """Normal form (iterative to survive deep terms)."""
    if n.id in _NF:
        return _NF[n.id]
    if n.id in _big:
        raise TooBig()
    stack = [n]
    try:
        while stack:
            t = stack[-1]
            if t.id in _NF:
                stack.pop()
                continue
            if t.id in _big:
                raise TooBig()
            pend = [c for c in _children(t) if c.id not in _NF]
            if pend:
                stack.extend(pend)
                continue
            _NF[t.id] = _nf1(t)
            stack.pop()
    except TooBig:
        for t in stack:
            _big.add(t.id)
        raise
    return _NF[n.id]


def _children(t):
    if t.op in ("add", "mul", "div", "sqrt", "abs", "floor", "ceil", "exp", "log", "max", "min"):
        return t.args
    if t.op in ("pow", "round"):
        return [a for a in t.args if isinstance(a, Sym)]
    if t.op == "uf":
        return [a for a in t.args[1:] if isinstance(a, Sym)]
    if t.op == "ite":
        return t.args[1:]
    if t.op == "la":
        return [e for m in t.args[1] for e in m[1]]
    return ()


def _nf1(t):
    op = t.op
    if op == "const":
        return p_const(t.args[0])
    if op == "var":
        return p_atom(atom("var", t.args, t))
    if op == "add":
        return p_add(_NF[t.args[0].id], _NF[t.args[1].id])
    if op == "mul":
        return p_mul(_NF[t.args[0].id], _NF[t.args[1].id])
    if op == "div":
        b = _NF[t.args[1].id]
        if not b:
            return p_atom(atom("div0", t.id, t))
        return p_mul(_NF[t.args[0].id], p_inv(b))
    if op == "sqrt":
        return p_sqrt(_NF[t.args[0].id])
    if op == "abs":
        p = _NF[t.args[0].id]
        k = key(p)
        if not k:
            return {}
        if k[0][1] < 0:
            k = key({m: -c for m, c in p.items()})
        if all(not m for m, _ in k):
            return p_const(abs(k[0][1]))
        return p_atom(atom("abs", k, t))
    if op in ("max", "min"):
        a, b = _NF[t.args[0].id], _NF[t.args[1].id]
        ks = sorted([key(a), key(b)])
        if ks[0] == ks[1]:
            return a
        if all(len(k) == 0 or (len(k) == 1 and not k[0][0]) for k in ks):
            va, vb = a.get((), Fraction(0)), b.get((), Fraction(0))
            return p_const(max(va, vb) if op == "max" else min(va, vb))
        return p_atom(atom(op, tuple(ks), t))
    if op == "ite":
        a, b = _NF[t.args[1].id], _NF[t.args[2].id]
        if a == b:
            return a
        return p_atom(atom("ite", (bkey(t.args[0]), key(a), key(b)), t))
    if op == "log":
        p = _NF[t.args[0].id]
        if p and any(e < 0 for m in p for _, e in m):      # log(1/q) = -log(q)
            q = p_inv(p)
            if all(e > 0 for m in q for _, e in m):
                return {m: -c for m, c in p_atom(atom("log", key(q), q)).items()}
        return p_atom(atom("log", key(p), p))
    if op in ("floor", "ceil", "exp"):
        return p_atom(atom(op, key(_NF[t.args[0].id]), t))
    if op == "round":
        return p_atom(atom(op, (key(_NF[t.args[0].id]), t.args[1]), t))
    if op == "pow":
        return p_atom(atom(op, tuple(key(_NF[a.id]) for a in t.args), t))
    if op == "uf":
        return p_atom(atom("uf", (t.args[0],) + tuple(key(_NF[a.id]) for a in t.args[1:]), t))
    if op == "la":
        return p_atom(atom("la", (t.args[0], lakey(t), t.args[2], t.args[3]), t))
    raise EngineError(f"normal form of {op}")


def p_sqrt(p):
    k = key(p)
    if len(p) == 1:
        (m, c), = p.items()
        # sqrt(c * prod a^(2e)) with every atom known non-negative (sqrt / abs atoms)
        import math
        n_, d_ = math.isqrt(c.numerator) if c > 0 else -1, math.isqrt(c.denominator)
        if c > 0 and n_ * n_ == c.numerator and d_ * d_ == c.denominator:
            if not m:
                return p_const(Fraction(n_, d_))
            if all(e % 2 == 0 and _ALIST[a].kind in ("sqrt", "abs") for a, e in m):
                r = {tuple((a, e // 2) for a, e in m): Fraction(n_, d_)}
                mm = next(iter(r))
                return _reduce(mm, Fraction(n_, d_)) if _needs_reduce(mm) else r
    # scale so that the leading coefficient is a square-free positive normal form when possible
    if p:
        lead = min(p)
        c = abs(p[lead])
        import math
        n_, d_ = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if c != 1 and n_ * n_ == c.numerator and d_ * d_ == c.denominator:
            q = {m: v / c for m, v in p.items()}
            return p_mul(p_const(Fraction(n_, d_)), p_atom(atom("sqrt", key(q), q)))
    if not p:
        return {}
    return p_atom(atom("sqrt", k, p))


def mkey(mats):
    return tuple((m[0], tuple(key(nf(e)) for e in m[1])) for m in mats)


def lakey(t):
    """Key of the operands; the spectrum of a matrix (n <= 4) does not depend on the order of its coordinates."""
    k = mkey(t.args[1])
    if t.args[0] != "eigval" or len(k) != 1 or len(k[0][1]) not in (4, 9, 16):
        return k
    n = {4: 2, 9: 3, 16: 4}[len(k[0][1])]
    e = k[0][1]
    return ((k[0][0], min(tuple(e[i * n + j] for i in q for j in q) for q in itertools.permutations(range(n)))),)


def bkey(c):
    k = _BK.get(c.id)
    if k is not None:
        return k
    if c.op in ("true", "false"):
        k = (c.op,)
    elif c.op == "not":
        k = ("not", bkey(c.args[0]))
    elif c.op == "and":
        k = ("and",) + tuple(sorted([bkey(c.args[0]), bkey(c.args[1])]))
    elif c.op in ("lt", "eq"):
        d = p_add(nf(c.args[0]), nf(c.args[1]), -1)
        if not d:
            k = ("false",) if c.op == "lt" else ("true",)
        else:
            lead = min(d)
            lc = abs(d[lead]) if c.op == "lt" else d[lead]
            k = (c.op, key({m: v / lc for m, v in d.items()}))
    elif c.op == "pred":
        k = ("pred", c.args[0], mkey(c.args[1]), c.args[2])
    elif c.op == "bvar":
        k = ("bvar", c.args)
    else:
        raise EngineError(f"condition key of {c.op}")
    _BK[c.id] = k
    return k


def clear(p, limit=8):
    """Multiply out every denominator (atoms with negative exponents).  p == 0 iff result == 0."""
    for _ in range(limit):
        dens: dict = {}
        for m in p:
            for a, e in m:
                if e < 0:
                    dens[a] = max(dens.get(a, 0), -e)
        if not dens:
            return p
        if len(p) > 1500:
            raise TooBig()
        mult = tuple(sorted(dens.items()))
        q: dict = {}
        for m, c in p.items():
            k = _mmul(m, mult)
            if _needs_reduce(k):
                q = p_add(q, _reduce(k, c))
            else:
                q = p_add(q, {k: c})
        p = q
        if not p:
            return p
    return p


def is_zero(p):
    if not p:
        return True
    try:
        return not clear(p)
    except TooBig:
        return False


def same(a, b) -> bool:
    """Equal by normal form (False = not decided here)."""
    if a is b:
        return True
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        try:
            return bkey(a) == bkey(b)
        except (TooBig, ZeroDivisionError):
            return False
    try:
        return is_zero(p_add(nf(a), nf(b), -1))
    except (TooBig, ZeroDivisionError):
        return False
