"""Discharge obligations: normal form first, then SMT (z3, with cvc5 as a second opinion)."""
from __future__ import annotations

import math
import random
import time
from fractions import Fraction

import numpy as np
import z3

from vx import core, poly, positive
from vx.core import EngineError, Sym, SymBool

STATS = {"queries": 0, "solver_s": 0.0, "unsat": 0, "sat": 0, "unknown": 0,
         "identical": 0, "normal_form": 0, "by_solver": 0, "max_query_s": 0.0}


def _key(f, t):
    """Canonical key of an opaque application; its identity when the operands are too large to normalise."""
    try:
        return f()
    except (poly.TooBig, ZeroDivisionError):
        return ("node", t.id)


class Enc:
    """One z3 encoding: terms -> z3, with side conditions for division, sqrt, floor, ..."""

    def __init__(self):
        self.z = {}
        self.side = []
        self.vars = {}
        self.ops = {}
        self.uf = {}
        self.k = 0

    def fresh(self, name, sort=None):
        self.k += 1
        return z3.Const(f"{name}?{self.k}", z3.RealSort() if sort is None else sort)

    def run(self, n):
        st = [n]
        while st:
            t = st[-1]
            if t.id in self.z:
                st.pop()
                continue
            ch = [c for c in self.children(t) if c.id not in self.z]
            if ch:
                st.extend(ch)
                continue
            self.z[t.id] = self.one(t)
            st.pop()
        return self.z[n.id]

    @staticmethod
    def children(t):
        if t.op in ("const", "var", "true", "false", "la", "pred", "bvar"):
            return ()
        return [a for a in t.args if isinstance(a, (Sym, SymBool))]

    def one(self, t):
        op = t.op
        a = [self.z[c.id] for c in self.children(t)]
        if op == "const":
            f = t.args[0]
            return z3.RealVal(f"{f.numerator}/{f.denominator}")
        if op == "var":
            nm, integer = t.args
            if integer:
                v = z3.Int(nm)
                self.vars[nm] = v
                return z3.ToReal(v)
            v = z3.Real(nm)
            self.vars[nm] = v
            if nm == "pi":
                self.side.append(z3.And(v > z3.RealVal("3.14159265358"), v < z3.RealVal("3.14159265359")))
            return v
        if op == "add":
            return a[0] + a[1]
        if op == "mul":
            return a[0] * a[1]
        if op == "div":
            q = self.fresh("q")
            self.side.append(q * a[1] == a[0])
            self.side.append(a[1] != 0)
            return q
        if op == "sqrt":
            r = self.fresh("r")
            self.side += [r >= 0, r * r == a[0], a[0] >= 0]
            return r
        if op == "abs":
            return z3.If(a[0] >= 0, a[0], -a[0])
        if op == "max":
            return z3.If(a[0] >= a[1], a[0], a[1])
        if op == "min":
            return z3.If(a[0] <= a[1], a[0], a[1])
        if op == "ite":
            return z3.If(a[0], a[1], a[2])
        if op == "floor":
            k = self.fresh("k", z3.IntSort())
            self.side += [z3.ToReal(k) <= a[0], a[0] < z3.ToReal(k) + 1]
            return z3.ToReal(k)
        if op == "ceil":
            k = self.fresh("k", z3.IntSort())
            self.side += [z3.ToReal(k) >= a[0], a[0] > z3.ToReal(k) - 1]
            return z3.ToReal(k)
        if op in ("lt", "eq"):
            return a[0] < a[1] if op == "lt" else a[0] == a[1]
        if op == "not":
            return z3.Not(a[0])
        if op == "and":
            return z3.And(a[0], a[1])
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "bvar":
            return z3.Bool(str(t.args))
        if op == "pred":
            k = _key(lambda: ("pred", poly.bkey(t)), t)
            if k not in self.ops:
                self.ops[k] = self.fresh("p_" + t.args[0], z3.BoolSort())
            return self.ops[k]
        # opaque numeric applications: one constant per canonical application, plus axioms
        if op == "la":
            k = _key(lambda: ("la", t.args[0], poly.lakey(t), t.args[2], t.args[3]), t)
            if k not in self.ops:
                self.ops[k] = self.fresh("la_" + t.args[0])
                self.la_axiom(t, self.ops[k])
            return self.ops[k]
        if op in ("exp", "log", "pow", "uf", "round"):
            nm = op if op not in ("uf", "round") else f"{op}_{t.args[0] if op == 'uf' else t.args[1]}"
            if nm not in self.uf:
                self.uf[nm] = z3.Function(nm, *([z3.RealSort()] * (len(a) + 1)))
            r = self.uf[nm](*a)
            if op == "round":
                u = z3.Q(1, 2 * 10 ** max(0, t.args[1]))
                self.side += [r - a[0] <= u, a[0] - r <= u]
            if op == "exp":
                self.side += [r > 0, r >= 1 + a[0]]
            if op == "log":
                self.side += [z3.Implies(a[0] > 0, r <= a[0] - 1), z3.Implies(a[0] == 1, r == 0),
                              z3.Implies(z3.And(a[0] > 0, a[0] < 1), r < 0),
                              z3.Implies(a[0] > 1, r > 0)]
            if op == "pow":
                self.side += [z3.Implies(a[0] > 0, r > 0), z3.Implies(z3.And(a[1] == 0, a[0] > 0), r == 1),
                              z3.Implies(z3.And(a[1] == 1, a[0] >= 0), r == a[0]),
                              z3.Implies(a[0] == 1, r == 1),
                              z3.Implies(z3.And(a[0] == 0, a[1] > 0), r == 0)]
            return r
        raise EngineError(f"lowering of {op}")

    def la_axiom(self, t, z):
        if t.args[0] in ("eigval",):
            pass


def _solve(asserts, timeout_ms, want_model, enc, tactic=None, seed=0):
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set("timeout", int(timeout_ms))
    for a in asserts:
        s.add(a)
    t = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    dt = time.time() - t
    STATS["queries"] += 1
    STATS["solver_s"] += dt
    STATS["max_query_s"] = max(STATS["max_query_s"], dt)
    STATS[str(r)] += 1
    if r == z3.sat and want_model:
        m = s.model()
        return "sat", {n: val(m.eval(v, model_completion=True)) for n, v in enc.vars.items()}
    return str(r), None


def val(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


def _cvc5(asserts, timeout_ms):
    """Second solver on the same SMT-LIB text; only 'unsat' is used."""
    try:
        import cvc5
        s = z3.Solver()
        for a in asserts:
            s.add(a)
        txt = s.to_smt2()
        tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
        slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
        slv.setOption("tlimit-per", str(int(timeout_ms)))
        slv.setOption("nl-cov", "true")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + txt, "q")
        sm = p.getSymbolManager()
        t = time.time()
        res = "unknown"
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out = c.invoke(slv, sm)
            o = str(out).strip()
            if "error" in o:
                return "unknown"
            if o in ("sat", "unsat", "unknown"):
                res = o
        STATS["queries"] += 1
        STATS["solver_s"] += time.time() - t
        STATS[res] += 1
        return res
    except Exception:
        return "unknown"


def check(conds, timeout_ms=10000, model=True, portfolio=True):
    """Satisfiability of a list of SymBools. -> ('sat', model) | ('unsat', None) | ('unknown', None)."""
    enc = Enc()
    zs = []
    for c in conds:
        if c.op == "false":
            return "unsat", None
        if c.op == "true":
            continue
        zs.append(enc.run(c))
    asserts = zs + enc.side
    r, m = _solve(asserts, timeout_ms if not portfolio else max(1000, timeout_ms // 3), model, enc)
    if r != "unknown" or not portfolio:
        return r, m
    if not enc.uf:
        r, m = _solve(asserts, max(1000, timeout_ms // 3), model, enc, "qfnra-nlsat")
        if r != "unknown":
            return r, m
    r2 = _cvc5(asserts, max(1000, timeout_ms // 3))
    if r2 == "unsat":
        return "unsat", None
    return "unknown", None


def relevant(conds, seeds):
    """Cone of influence: conditions (transitively) sharing a variable with the seeds."""
    need = set()
    for s in seeds:
        need |= varset(s)
    pool = [(c, varset(c)) for c in conds]
    out, changed = [], True
    left = pool
    while changed:
        changed = False
        rest = []
        for c, v in left:
            if not v or v & need:
                out.append(c)
                if not v <= need:
                    need |= v
                    changed = True
            else:
                rest.append((c, v))
        left = rest
    return out


_VS: dict = {}


def varset(n):
    if n.id in _VS:
        return _VS[n.id]
    st = [n]
    while st:
        t = st[-1]
        if t.id in _VS:
            st.pop()
            continue
        if t.op in ("la", "pred"):
            ch = [e for m in t.args[1] for e in m[1]]
        else:
            ch = [a for a in t.args if isinstance(a, (Sym, SymBool))]
        pend = [c for c in ch if c.id not in _VS]
        if pend:
            st.extend(pend)
            continue
        if t.op == "var":
            _VS[t.id] = frozenset([t.args[0]])
        elif t.op == "bvar":
            _VS[t.id] = frozenset([str(t.args)])
        else:
            s = set()
            for c in ch:
                s |= _VS[c.id]
            _VS[t.id] = frozenset(s)
        st.pop()
    return _VS[n.id]


def subst(n, env, memo):
    """Substitute constants for variables (env: name -> Fraction); rebuilds with folding."""
    if n.id in memo:
        return memo[n.id]
    st = [n]
    while st:
        t = st[-1]
        if t.id in memo:
            st.pop()
            continue
        if t.op in ("la", "pred"):
            ch = [e for m in t.args[1] for e in m[1]]
        else:
            ch = [a for a in t.args if isinstance(a, (Sym, SymBool))]
        pend = [c for c in ch if c.id not in memo]
        if pend:
            st.extend(pend)
            continue
        memo[t.id] = _rebuild(t, env, memo)
        st.pop()
    return memo[n.id]


class Undefined(Exception):
    pass


def _rebuild(t, env, memo):
    op = t.op
    g = lambda a: memo[a.id] if isinstance(a, (Sym, SymBool)) else a
    if op in ("const", "true", "false", "bvar"):
        return t
    if op == "var":
        v = env.get(t.args[0])
        return core.const(v) if v is not None else t
    a = [g(x) for x in t.args]
    if op == "add":
        return core.add(*a)
    if op == "mul":
        return core.mul(*a)
    if op == "div":
        if core.cval(a[1]) == 0:
            raise Undefined()
        return core.div(*a)
    if op == "sqrt":
        r = core.sqrt(a[0])
    elif op == "log":
        r = core.log(a[0])
    elif op in ("abs", "exp", "floor", "ceil"):
        r = core.unary(op, a[0])
    elif op == "max":
        r = core.smax(*a)
    elif op == "min":
        r = core.smin(*a)
    elif op == "pow":
        r = core.power(*a)
    elif op == "ite":
        r = core.ite(*a)
    elif op == "lt":
        r = core.lt(*a)
    elif op == "eq":
        r = core.eq(*a)
    elif op == "not":
        r = core.bnot(a[0])
    elif op == "and":
        r = core.band(*a)
    elif op == "round":
        r = a[0].__round__(a[1])
    elif op in ("uf",):
        r = core._mk(Sym, "uf", tuple(a))
    elif op in ("la", "pred"):
        mats = tuple((m[0], tuple(memo[e.id] for e in m[1])) for m in t.args[1])
        if op == "la":
            r = core.la(t.args[0], mats, t.args[2], t.args[3])
        else:
            r = core.pred(t.args[0], mats, t.args[2])
    else:
        raise EngineError(op)
    if not isinstance(r, (Sym, SymBool)):
        if isinstance(r, bool):
            return core.TRUE if r else core.FALSE
        if isinstance(r, int):
            return core.const(r)
        raise Undefined()
    return r


# ------------------------------------------------------------------ numeric evaluation
class NumEval:
    """Evaluate terms in floating point under an assignment (validation of the encoding)."""

    def __init__(self, env, fresh_def=None):
        self.env = env
        self.m = {}
        self.la = {}
        self.fresh_def = fresh_def or {}

    def __call__(self, n):
        if isinstance(n, (float, int)):
            return float(n)
        st = [n]
        while st:
            t = st[-1]
            if t.id in self.m:
                st.pop()
                continue
            if t.op in ("la", "pred"):
                ch = [e for m in t.args[1] for e in m[1]]
            elif t.op == "var" and t.args[0] in self.fresh_def:
                ch = list(self.fresh_def[t.args[0]][1].ravel())
            else:
                ch = [a for a in t.args if isinstance(a, (Sym, SymBool))]
            pend = [c for c in ch if c.id not in self.m]
            if pend:
                st.extend(pend)
                continue
            with np.errstate(all="ignore"):
                self.m[t.id] = self.one(t)
            st.pop()
        return self.m[n.id]

    def mat(self, m):
        shp, ent = m
        return np.array([self.m[e.id] for e in ent], dtype=float).reshape(shp)

    def one(self, t):
        op = t.op
        a = [self.m[c.id] if isinstance(c, (Sym, SymBool)) else c for c in t.args] \
            if op not in ("la", "pred") else None
        if op == "const":
            return float(t.args[0])
        if op == "var":
            if t.args[0] == "pi":
                return math.pi
            if t.args[0] in self.fresh_def:
                kind, A, ix = self.fresh_def[t.args[0]]
                M = np.array([self.m[e.id] for e in A.ravel()], dtype=float).reshape(A.shape)
                key = ("eigh", M.tobytes())
                if key not in self.la:
                    self.la[key] = np.linalg.eigh(M)
                w, V = self.la[key]
                if M.shape[0] == 2 and np.linalg.det(V) < 0:
                    V = V * np.array([1.0, -1.0])
                return float(w[ix]) if kind == "w" else float(V[ix])
            return float(self.env[t.args[0]])
        if op == "add":
            return a[0] + a[1]
        if op == "mul":
            return a[0] * a[1]
        if op == "div":
            return float(np.float64(a[0]) / np.float64(a[1]))
        if op == "sqrt":
            return float(np.sqrt(np.float64(a[0])))
        if op == "log":
            return float(np.log(np.float64(a[0])))
        if op == "exp":
            return float(np.exp(a[0]))
        if op == "abs":
            return abs(a[0])
        if op == "floor":
            return float(math.floor(a[0]))
        if op == "ceil":
            return float(math.ceil(a[0]))
        if op == "round":
            return round(a[0], a[1])
        if op == "max":
            return max(a)
        if op == "min":
            return min(a)
        if op == "pow":
            return float(np.float64(a[0]) ** np.float64(a[1]))
        if op == "ite":
            return a[1] if a[0] else a[2]
        if op == "lt":
            return a[0] < a[1]
        if op == "eq":
            return abs(a[0] - a[1]) <= 1e-9 * max(1.0, abs(a[0]), abs(a[1]))
        if op == "not":
            return not a[0]
        if op == "and":
            return bool(a[0] and a[1])
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "uf":
            nm = a[0]
            if nm == "asfloat32":
                return float(np.float32(a[1]))
            if nm == "asfloat16":
                return float(np.float16(a[1]))
            return float(getattr(np, nm)(a[1]))
        if op == "pred":
            M = self.mat(t.args[1][0])
            if t.args[0] == "singular":
                try:
                    np.linalg.inv(M)
                    return False
                except np.linalg.LinAlgError:
                    return True
            if t.args[0] == "posdef":
                try:
                    np.linalg.cholesky(M)
                    return True
                except np.linalg.LinAlgError:
                    return False
        if op == "la":
            nm, ix = t.args[0], t.args[2]
            M = self.mat(t.args[1][0])
            key = (nm, M.tobytes(), M.shape)
            if key not in self.la:
                f = {"inv": np.linalg.inv, "pinv": np.linalg.pinv,
                     "det": np.linalg.det, "chol": np.linalg.cholesky,
                     "eigval": lambda m: np.linalg.eigh(m)[0], "eigvec": lambda m: np.linalg.eigh(m)[1],
                     "logabsdet": lambda m: np.linalg.slogdet(m)[1],
                     "slogdet_sign": lambda m: np.linalg.slogdet(m)[0],
                     "eigvals_g": np.linalg.eigvals, "cond": np.linalg.cond}[nm]
                self.la[key] = np.asarray(f(M))
            return float(np.real(self.la[key][ix]))
        raise EngineError(f"evaluation of {op}")


# ------------------------------------------------------------------ proving
def prove(path, contracts, claims, timeout_ms=10000, search=True, seed=1, inputs=None):
    """Decide ``path and contracts => every claim``.

    claims: list of (label, SymBool).  Returns list of dicts
    {label, status: identical|normal_form|proved|violated|undecided, model}.
    """
    out = [None] * len(claims)
    todo = []
    path = [c for c in path if c.op != "true"]
    known = {c.id for c in path}
    pk = None
    bd = positive.bounds(path)
    for i, (label, c) in enumerate(claims):
        if c.op == "true":
            STATS["identical"] += 1
            out[i] = {"label": label, "status": "identical"}
            continue
        if c.id in known:
            STATS["identical"] += 1
            out[i] = {"label": label, "status": "identical"}
            continue
        if c.op == "eq" and poly.same(c.args[0], c.args[1]):
            STATS["normal_form"] += 1
            out[i] = {"label": label, "status": "normal_form"}
            continue
        try:
            if c.op not in ("false",):
                if pk is None:
                    pk = set()
                    for q in path:
                        try:
                            pk.add(poly.bkey(q))
                        except Exception:
                            pass
                k = poly.bkey(c)
                if k == ("true",) or k == ("not", ("false",)) or k in pk or positive.certify(c, bd):
                    STATS["normal_form"] += 1
                    out[i] = {"label": label, "status": "normal_form"}
                    continue
        except (poly.TooBig, EngineError, ZeroDivisionError):
            pass
        todo.append(i)
    if not todo:
        return out
    facts = list(path) + list(contracts)

    def query(idx, tmo, portfolio=True):
        neg = core.FALSE
        for i in idx:
            neg = core.bor(neg, core.bnot(claims[i][1]))
        neg = simplify_claim(neg)
        rel = relevant(facts, [neg])
        used[0] = {c.id for c in rel}
        if neg.op == "true" and not rel:
            return "sat", {}
        return check([neg] + rel, tmo, True, portfolio)

    used = [set()]
    comp_memo: dict = {}

    def rest_feasible(tmo):
        """Is the part of the path condition outside the cone satisfiable?  -> (sat|unsat|unknown, model)"""
        rest = [c for c in facts if c.id not in used[0]]
        model, verdict = {}, "sat"
        while rest:
            seed_c = rest[0]
            comp = relevant(rest, [seed_c]) if varset(seed_c) else [seed_c]
            ids = {c.id for c in comp} | {seed_c.id}
            comp = [c for c in rest if c.id in ids]
            rest = [c for c in rest if c.id not in ids]
            k = frozenset(ids)
            if k not in comp_memo:
                r, m = check(comp, tmo, True, True)
                if r == "unknown":
                    m = concretised(comp, core.FALSE, seed, inputs, whole=True)
                    r = "sat" if m is not None else "unknown"
                comp_memo[k] = (r, m)
            r, m = comp_memo[k]
            if r == "unsat":
                return "unsat", None
            if r == "unknown":
                verdict = "unknown"
            model.update(m or {})
        return verdict, model

    # all together first
    if len(todo) > 1:
        r, m = query(todo, timeout_ms)
        if r == "unsat":
            for i in todo:
                STATS["by_solver"] += 1
                out[i] = {"label": claims[i][0], "status": "proved"}
            return out
    t_end = time.time() + 4 * timeout_ms / 1000.0
    for i in todo:
        tmo = timeout_ms if time.time() < t_end else max(500, timeout_ms // 10)
        r, m = query([i], tmo)
        if r == "unsat":
            STATS["by_solver"] += 1
            out[i] = {"label": claims[i][0], "status": "proved"}
        elif r == "sat":
            fr, fm = rest_feasible(tmo)
            if fr == "unsat":
                STATS["by_solver"] += 1
                out[i] = {"label": claims[i][0], "status": "proved"}
                continue
            m = {**(fm or {}), **(m or {})}
            out[i] = {"label": claims[i][0], "status": "violated", "model": m,
                      "feasible": fr == "sat"}
            out[i]["models"] = [m] + [{**(fm or {}), **g} for g in
                                      margin_models(facts, claims[i][1], timeout_ms)]
        else:
            m = concretised(facts, claims[i][1], seed, inputs) if search else None
            if m is not None:
                out[i] = {"label": claims[i][0], "status": "violated", "model": m, "models": [m]}
            else:
                out[i] = {"label": claims[i][0], "status": "undecided"}
    return out


def simplify_claim(neg):
    """Replace an equality by its cleared polynomial when that is small."""
    def one(c):
        if c.op == "eq":
            try:
                p = poly.clear(poly.p_add(poly.nf(c.args[0]), poly.nf(c.args[1]), -1))
                if len(p) <= 400 and not any(poly._ALIST[a].kind == "den" for m in p for a, _ in m):
                    return core.eq(to_sym(p), core.ZERO)
            except (poly.TooBig, ZeroDivisionError, EngineError, KeyError):
                return c
        if c.op == "not":
            return core.bnot(one(c.args[0]))
        if c.op == "and":
            return core.band(one(c.args[0]), one(c.args[1]))
        return c
    return one(neg)


def to_sym(p):
    tot = core.ZERO
    for m, c in sorted(p.items()):
        t = core.const(c)
        for a, e in m:
            at = poly._ALIST[a]
            if at.kind == "sqrt":
                s = core._mk(Sym, "sqrt", (to_sym(at.payload),))
            elif at.kind == "log" and isinstance(at.payload, dict):
                s = core._mk(Sym, "log", (to_sym(at.payload),))
            elif at.kind == "den" or at.payload is None:
                raise KeyError(a)
            else:
                s = at.payload
            if e < 0:
                raise KeyError(a)
            for _ in range(e):
                t = core.mul(t, s)
        tot = core.add(tot, t)
    return tot


def margin_models(facts, claim, timeout_ms):
    """Counterexamples with a visible gap (so that floating point replay can see them)."""
    out = []
    if claim.op == "eq":
        a, b = claim.args
        d = core.add(a, core.mul(core.MONE, b))
        gaps = [core.lt(core.const(Fraction(1, 100)), core.unary("abs", d))]
        gaps.append(core.lt(core.const(1), core.unary("abs", d)))
    elif claim.op == "not" and claim.args[0].op == "lt":
        b, a = claim.args[0].args      # claim: not (b < a)   i.e. a <= b ; violated when a > b
        d = core.add(a, core.mul(core.MONE, b))
        gaps = [core.lt(core.const(Fraction(1, 100)), d), core.lt(core.const(1), d)]
    elif claim.op == "lt":
        a, b = claim.args
        d = core.add(a, core.mul(core.MONE, b))
        gaps = [core.lt(core.const(Fraction(1, 100)), d)]
    else:
        return out
    for g in gaps:
        vs = sorted(varset(g))
        box = []
        for v in vs:
            if "!" in v or v == "pi":
                continue
            s = core.var(v) if ("var", ()) else None
            s = _find_var(v)
            if s is not None:
                box += [core.lt(s, core.const(1000)), core.lt(core.const(-1000), s)]
        for extra in (box, []):
            r, m = check([g] + relevant(facts, [g]) + extra, max(1000, timeout_ms // 4), True, False)
            if r == "sat":
                out.append(m)
                break
    return out


def _find_var(name):
    for integer in (False, True):
        n = core._NODES.get(("var", (("str", name), ("bool", integer))))
        if n is not None:
            return n
    return None


def concretised(facts, claim, seed, inputs=None, tries=10, whole=False):
    """Search for a counterexample with most variables pinned to random rationals."""
    rng = random.Random(seed)
    neg0 = core.bnot(claim)
    vs = set(varset(neg0))
    if whole:
        def relevant(fs, _):
            return fs
    else:
        relevant = globals()["relevant"]
    for f in relevant(facts, [neg0]):
        vs |= varset(f)
    vs = sorted(v for v in vs if "!" not in v and v != "pi" and "?" not in v)
    for t in range(tries):
        free = set(rng.sample(vs, min(len(vs), [1, 2, 1, 3, 0][t % 5])))
        env = {}
        for v in vs:
            if v in free:
                continue
            s = _find_var(v)
            if s is not None and s.args[1]:
                env[v] = Fraction(rng.randint(1, 12))
            else:
                env[v] = Fraction(rng.randint(-40, 40), rng.choice([4, 8, 10])) if t % 2 else \
                    Fraction(rng.randint(1, 40), rng.choice([8, 10, 40]))
        memo: dict = {}
        try:
            fs = [subst(c, env, memo) for c in [neg0] + relevant(facts, [neg0])]
        except (Undefined, EngineError, RecursionError):
            continue
        if any(f.op == "false" for f in fs):
            continue
        r, m = check(fs, 2000, True, False)
        if r == "sat":
            m = dict(m or {})
            m.update(env)
            return m
    return None
