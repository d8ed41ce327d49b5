"""Positivity certificates: p >= 0 for every value of the variables within their bounds.

Every bounded variable is substituted by a rational parametrisation of its interval over t >= 0
(lo <= x <= hi: x = (lo + hi t)/(1 + t);  x >= lo: x = lo + t), the result is multiplied by the positive
(1 + t)^degree, and the certificate is that every coefficient of the expanded polynomial is non-negative while
every variable of unknown sign has an even exponent.  Exact rational arithmetic; failing to find a certificate
decides nothing.
"""
from __future__ import annotations

from fractions import Fraction
from math import comb

from vx import core, poly

LIMIT = 4000


def bounds(facts):
    """Single-variable bounds among the facts: name -> (lo, hi)."""
    out = {}
    for c in facts:
        neg = c.op == "not"
        d = c.args[0] if neg else c
        if d.op != "lt":
            continue
        a, b = d.args
        if a.op == "var" and b.op == "const":
            n, k, up = a.args[0], b.args[0], not neg          # a < k   |  not(a<k): a >= k
        elif b.op == "var" and a.op == "const":
            n, k, up = b.args[0], a.args[0], neg              # k < b   |  not(k<b): b <= k
        else:
            continue
        lo, hi = out.get(n, (None, None))
        if up:
            hi = k if hi is None else min(hi, k)
        else:
            lo = k if lo is None else max(lo, k)
        out[n] = (lo, hi)
    return out


def _sign(a, bd, depth):
    """Is atom a known to be >= 0?"""
    at = poly._ALIST[a]
    if at.kind in ("sqrt", "abs", "exp"):
        return True
    if at.kind == "var":
        lo = bd.get(at.payload.args[0], (None, None))[0]
        return lo is not None and lo >= 0
    if at.kind == "den":
        return depth > 0 and nonneg(at.payload, bd, depth - 1)
    if at.kind in ("max", "min") and depth > 0:
        f = any if at.kind == "max" else all
        try:
            return f(nonneg(poly.nf(x), bd, depth - 1) for x in at.payload.args)
        except poly.TooBig:
            return False
    return False


def nonneg(p, bd, depth=3):
    try:
        return _nonneg(p, bd, depth)
    except poly.TooBig:
        return False


def _nonneg(p, bd, depth):
    if not p:
        return True
    signs = {}

    def simple(q):
        for m, c in q.items():
            if c < 0:
                return False
            for a, e in m:
                if e % 2:
                    if a not in signs:
                        signs[a] = _sign(a, bd, depth)
                    if not signs[a]:
                        return False
        return True

    if simple(p):
        return True
    # clear denominators: even powers freely, odd powers only when the denominator is known >= 0
    for _ in range(4):
        dens = {}
        for m in p:
            for a, e in m:
                if e < 0:
                    dens[a] = max(dens.get(a, 0), -e)
        if not dens:
            break
        mult = []
        for a, e in sorted(dens.items()):
            if e % 2:
                if a not in signs:
                    signs[a] = _sign(a, bd, depth)
                if not signs[a]:
                    e += 1
            mult.append((a, e))
        mult = tuple(mult)
        q = {}
        for m, c in p.items():
            k = poly._mmul(m, mult)
            q = poly.p_add(q, poly._reduce(k, c) if poly._needs_reduce(k) else {k: c})
        p = q
        if simple(p):
            return True
    # parametrise the bounded variables
    for a in sorted({a for m in p for a, _ in m}):
        at = poly._ALIST[a]
        if at.kind != "var":
            continue
        lo, hi = bd.get(at.payload.args[0], (None, None))
        if lo is None and hi is None:
            continue
        if (lo == 0 and hi is None) or any(e < 0 for m in p for b, e in m if b == a):
            continue
        deg = max((e for m in p for b, e in m if b == a), default=0)
        t = poly.atom("var", ("t%" + str(a),), None).id
        signs[t] = True
        q = {}
        for m, c in p.items():
            e = dict(m).get(a, 0)
            rest = tuple((b, k) for b, k in m if b != a)
            for k, v in _param(lo, hi, e, deg).items():
                mm = poly._mmul(rest, ((t, k),) if k else ())
                w = q.get(mm, 0) + c * v
                if w:
                    q[mm] = w
                else:
                    q.pop(mm, None)
            if len(q) > LIMIT:
                return False
        p = q
    return simple(p) or _squares(p, signs, bd, depth)


def _squares(p, signs, bd, depth):
    """p = sum over groups of (product of non-negative atoms) * (sum of squares), by an exact LDL^T of a Gram
    matrix over the halves of the even monomials."""
    if len(p) > 400:
        return False
    groups = {}
    for m, c in p.items():
        pos, rest = [], []
        for a, e in m:
            if a not in signs:
                signs[a] = _sign(a, bd, depth)
            if signs[a]:
                pos.append((a, e))
            else:
                rest.append((a, e))
        groups.setdefault(tuple(pos), {})[tuple(rest)] = c
    return all(_gram(g) for g in groups.values())


def _gram(g):
    half = [tuple((a, e // 2) for a, e in m) for m in g if all(e % 2 == 0 for _, e in m)]
    if len(half) > 24:
        return False
    pairs = {}
    for i in range(len(half)):
        for j in range(i + 1, len(half)):
            pairs.setdefault(poly._mmul(half[i], half[j]), []).append((i, j))
    n = len(half)
    G = [[Fraction(0)] * n for _ in range(n)]
    for i, h in enumerate(half):
        G[i][i] = g[tuple((a, 2 * e) for a, e in h)]
        if G[i][i] < 0:
            return False
    for m, c in g.items():
        if all(e % 2 == 0 for _, e in m):
            continue
        ij = pairs.get(m)
        if not ij:
            return False
        for i, j in ij:
            G[i][j] += c / (2 * len(ij))
            G[j][i] = G[i][j]
    for k in range(n):                          # exact LDL^T: every pivot >= 0, zero pivots have zero columns
        if G[k][k] < 0:
            return False
        if G[k][k] == 0:
            if any(G[i][k] for i in range(k + 1, n)):
                return False
            continue
        for i in range(k + 1, n):
            f = G[i][k] / G[k][k]
            if f:
                for j in range(k + 1, n):
                    G[i][j] -= f * G[k][j]
    return True


def _param(lo, hi, e, deg):
    """Coefficients (in t) of x^e * (1+t)^(deg) under the parametrisation (no factor when one-sided)."""
    if lo is not None and hi is not None:
        r = {0: Fraction(1)}
        for _ in range(e):
            r = _mulp(r, {0: Fraction(lo), 1: Fraction(hi)})
        for _ in range(deg - e):
            r = _mulp(r, {0: Fraction(1), 1: Fraction(1)})
        return r
    b, s = (lo, 1) if lo is not None else (hi, -1)
    return {k: Fraction(comb(e, k)) * Fraction(b) ** (e - k) * s ** k for k in range(e + 1)
            if b or k == e}


def _mulp(a, b):
    r = {}
    for i, x in a.items():
        for j, y in b.items():
            if x * y:
                r[i + j] = r.get(i + j, 0) + x * y
    return r


def certify(claim, bd):
    """Is the claim (a <= b, a < b is not attempted) certified non-negative within the bounds?"""
    if claim.op == "not" and claim.args[0].op == "lt":
        b, a = claim.args[0].args               # not (b < a)
        try:
            return nonneg(poly.p_add(poly.nf(b), poly.nf(a), -1), bd)
        except (poly.TooBig, ZeroDivisionError):
            return False
    return False
