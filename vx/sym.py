"""The symbolic world: runs a harness on symbolic inputs and discharges its obligations."""
from __future__ import annotations

import copy
import importlib
import pickle
import time
from fractions import Fraction

import numpy as np

from vx import api, core, load, lower, npx, poly
from vx.core import Ctx, EngineError, Sym, SymBool, cval

load.install()


class SymWorld:
    symbolic = True

    def __init__(self, seed=1):
        self.np = npx.module
        self.seed = seed
        self.begin()

    def begin(self):
        self.obl = []            # (label, SymBool)
        self.inputs = {}         # name -> meta
        self.records = []        # (label, list of terms)
        self.notes = []

    # ---- modules
    @property
    def precise(self):
        return importlib.import_module("precise")

    def mod(self, name):
        return importlib.import_module(name)

    # ---- inputs
    def var(self, name, lo=None, hi=None, integer=False, strict=False):
        assert name not in self.inputs, name
        self.inputs[name] = {"lo": None if lo is None else float(lo),
                             "hi": None if hi is None else float(hi), "int": integer,
                             "strict": strict}
        v = core.var(name, integer)
        ctx = Ctx.current
        if lo is not None and cval_(lo) is not None:
            ctx.varlo[name] = cval_(lo)
        if lo is not None:
            ctx.assume(core.lt(core.const(lo), v) if strict else core.le(core.const(lo), v))
        if hi is not None:
            ctx.assume(core.lt(v, core.const(hi)) if strict else core.le(v, core.const(hi)))
        return v

    def arr(self, name, *shape, lo=None, hi=None, strict=False):
        o = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            o[ix] = self.var(name + "_" + "_".join(map(str, ix)), lo, hi, strict=strict)
        return o.view(npx.SA)

    def symm(self, name, n):
        o = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(i, n):
                o[i, j] = o[j, i] = self.var(f"{name}_{i}_{j}")
        return o.view(npx.SA)

    def spectral(self, name, n, lo=None, strict=False):
        """(eigenvalues, A): an arbitrary symmetric matrix V diag V^T, V the product of plane rotations.  Its spectrum is
        then known to the linear algebra model."""
        ev = [self.var(f"{name}_ev0", lo=lo, strict=strict)]
        for i in range(1, n):
            ev.append(ev[-1] + self.var(f"{name}_gap{i}", lo=0))
        V = self.rotation(name, n)
        A = [[npx._tidy(sum((V[i][k] * ev[k] * V[j][k] for k in range(n)), core.ZERO)) for j in range(n)] for i in range(n)]
        return ev, npx.mk(A, float)

    def rotation(self, name, n):
        V = [[core.ONE if i == j else core.ZERO for j in range(n)] for i in range(n)]
        for p in range(n):
            for q in range(p + 1, n):
                c = self.var(f"{name}_c{p}{q}", lo=-1, hi=1)
                s = core.sqrt(core.ONE - c * c)
                for i in range(n):
                    V[i][p], V[i][q] = npx._tidy(V[i][p] * c + V[i][q] * s), npx._tidy(V[i][q] * c - V[i][p] * s)
        Ctx.current.eig_known.append(V)
        return V

    def num(self, x):
        return npx.E(x) if not isinstance(x, (int, bool)) else x

    def real(self, x):
        """A number literal used as a float by the harness."""
        return core.const(x)

    def array(self, x):
        return npx.mk(x, float, copy=True)

    def frac(self, a, b):
        return core.const(Fraction(a, b))

    def assume(self, c):
        if isinstance(c, (bool, np.bool_)):
            if not c:
                raise core.Abandon()
            return
        Ctx.current.assume(c)

    # ---- obligations
    def check(self, label, c):
        if isinstance(c, (bool, np.bool_)):
            c = core.TRUE if c else core.FALSE
        elif isinstance(c, Sym):
            c = core.bnot(core.eq(c, core.ZERO))
        elif not isinstance(c, SymBool):
            c = core.TRUE if c else core.FALSE
        self.obl.append((label, c))

    def eq(self, label, a, b, tol=None, atol=None):
        self._eq(label, a, b)

    def _eq(self, label, a, b):
        if isinstance(a, dict) or isinstance(b, dict):
            if not (isinstance(a, dict) and isinstance(b, dict)) or list(a) != list(b):
                self.obl.append((label + ":keys", core.FALSE))
                return
            for k in a:
                self._eq(f"{label}.{k}", a[k], b[k])
            return
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or \
                (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))):
            if isinstance(a, (list, tuple)) and any(isinstance(v, (dict, str, list, tuple, type(None), np.ndarray))
                                                    for v in list(a) + list(b)):
                if len(a) != len(b):
                    self.obl.append((label + ":len", core.FALSE))
                    return
                for i, (x, y) in enumerate(zip(a, b)):
                    self._eq(f"{label}[{i}]", x, y)
                return
            A, B = npx.raw(a), npx.raw(b)
            if A.shape != B.shape:
                self.obl.append((f"{label}:shape{A.shape}!={B.shape}", core.FALSE))
                return
            for ix in np.ndindex(A.shape):
                self._eq(label + "".join(f"[{i}]" for i in ix), A[ix], B[ix])
            if A.dtype == object:
                self.records.append((label, list(A.ravel())))
            return
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            self.obl.append((label, core.TRUE if (a is b or a == b) else core.FALSE))
            return
        if isinstance(a, (SymBool, bool, np.bool_)) or isinstance(b, (SymBool, bool, np.bool_)):
            x, y = core.blift(a), core.blift(b)
            self.check(label, core.bor(core.band(x, y), core.band(core.bnot(x), core.bnot(y)))
                       if x is not y else True)
            return
        try:
            x, y = npx.E(a), npx.E(b)
        except TypeError:
            self.obl.append((label, core.TRUE if a == b else core.FALSE))
            return
        if type(x) is float or type(y) is float:
            ok = type(x) is float and type(y) is float and (x == y or (x != x and y != y))
            self.obl.append((label, core.TRUE if ok else core.FALSE))
            return
        self.obl.append((label, core.eq(x, y)))

    def le(self, label, a, b, tol=None):
        self._cmp(label, a, b, lambda x, y: x <= y)

    def lt(self, label, a, b, tol=None):
        self._cmp(label, a, b, lambda x, y: x < y)

    def _cmp(self, label, a, b, f):
        A, B = np.broadcast_arrays(npx.raw(a), npx.raw(b))
        for ix in np.ndindex(A.shape):
            self.check(label + "".join(f"[{i}]" for i in ix), f(npx.E(A[ix]), npx.E(B[ix])))

    def finite(self, label, a):
        A = npx.raw(npx.mk(a))
        for ix in np.ndindex(A.shape):
            self.obl.append((f"{label} finite{list(ix)}",
                             core.TRUE if not isinstance(A[ix], float) or A[ix] - A[ix] == 0
                             else core.FALSE))

    def psd(self, label, M, z=None, tol=None):
        """z^T M z >= 0 for every z (z fresh, universally quantified by the negated query)."""
        A = npx.raw(M)
        n = A.shape[0]
        if any(isinstance(v, float) for v in A.ravel()):
            self.obl.append((label + ":nan", core.FALSE))
            return
        Ctx.current.fresh_n.setdefault("z", 0)
        zs = [Ctx.current.fresh("z") for _ in range(n)]
        q = core.ZERO
        for i in range(n):
            for j in range(n):
                q = q + zs[i] * A[i, j] * zs[j]
        self.check(label, q >= 0)

    def raises(self, label, excs, fn):
        try:
            fn()
        except EngineError:
            raise
        except Exception as e:
            ok = isinstance(e, excs)
            self.obl.append((label + ("" if ok else f":{type(e).__name__}"),
                             core.TRUE if ok else core.FALSE))
            return
        self.obl.append((label + ":no exception", core.FALSE))

    def outcome(self, fn):
        try:
            return ("ok", fn())
        except EngineError:
            raise
        except Exception as e:
            return ("exc", type(e).__name__)

    # ---- effects
    def json(self, x):
        """json.loads(json.dumps(x)) with terms standing for floats."""
        return self._json(x)

    def _json(self, x):
        if x is None or isinstance(x, (str, bool)):
            return x
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return bool(x)
        if type(x) is int or type(x) is float:
            return x
        if isinstance(x, (np.integer, np.floating, np.ndarray)):
            if isinstance(x, np.float64):
                return float(x)
            raise TypeError(f"Object of type {type(x).__name__} is not JSON serializable")
        if isinstance(x, (list, tuple)):
            return [self._json(v) for v in x]
        if isinstance(x, dict):
            out = {}
            for k, v in x.items():
                if isinstance(k, (str,)):
                    kk = k
                elif isinstance(k, bool) or k is None:
                    kk = {True: "true", False: "false", None: "null"}[k]
                elif isinstance(k, int):
                    kk = str(k)
                elif isinstance(k, float):
                    kk = repr(k)
                else:
                    raise TypeError("keys must be str, int, float, bool or None")
                out[kk] = self._json(v)
            return out
        raise TypeError(f"Object of type {type(x).__name__} is not JSON serializable")

    def pickle(self, x):
        return pickle.loads(pickle.dumps(x))

    def deepcopy(self, x):
        return copy.deepcopy(x)

    def fork(self, c):
        """A concrete bool for a condition (explores both)."""
        return bool(c)

    def shares(self, a, b):
        return bool(np.shares_memory(np.asarray(a).view(np.ndarray), np.asarray(b).view(np.ndarray)))

    def record(self, label, a):
        A = npx.raw(npx.mk(a))
        self.records.append((label, list(A.ravel())))

    def const_of(self, x):
        c = cval(x) if isinstance(x, Sym) else x
        return None if c is None else float(c)


def cval_(x):
    return core.cval(core.const(x)) if not isinstance(x, Sym) else core.cval(x)


class _Feas:
    def __init__(self, ms=400):
        self.memo = {}
        self.ms = ms

    def __call__(self, ctx, c):
        k = (tuple(p.id for p in ctx.path), len(ctx.contracts), c.id)
        if k in self.memo:
            return self.memo[k]
        try:
            facts = lower.relevant(list(ctx.path) + list(ctx.contracts), [c])
            r, _ = lower.check([c] + facts, self.ms, False, False)
        except EngineError:
            r = "unknown"
        v = {"sat": True, "unsat": False, "unknown": None}[r]
        self.memo[k] = v
        return v


def fresh_defs(ctx):
    """eigen-contract variables -> how to compute them numerically (for validation)."""
    d = {}
    for key, (w, V) in ctx.eig_memo.items():
        n = len(w)
        A = np.empty((n, n), dtype=object)
        A.reshape(-1)[...] = np.array([core._LIST[i] for i in key], dtype=object)
        for i in range(n):
            if isinstance(w[i], Sym) and w[i].op == "var" and "!" in w[i].args[0]:
                d[w[i].args[0]] = ("w", A, i)
            for j in range(n):
                v = V[i][j]
                if isinstance(v, Sym) and v.op == "var" and "!" in v.args[0]:
                    d[v.args[0]] = ("V", A, (i, j))
    return d


def run_job(fn, params, opts, seed=1, validate=None):
    """Explore every path of one harness and discharge its obligations.

    validate: list of (assignment) dicts; the recorded terms are evaluated on them.
    """
    core_time = time.time()
    w = SymWorld(seed)
    feas = _Feas(opts.get("feas_ms", 400)) if opts.get("feas", False) else None
    ctx = Ctx(feas=feas, partial=opts.get("partial", "assume"),
              fork_minmax=opts.get("fork_minmax", False),
              max_decisions=opts.get("max_decisions", 200),
              la_mode=opts.get("la", "uf"), la_exact_n=opts.get("la_n", 3),
              abnormal=opts.get("abnormal", 1), canon=opts.get("canon", False),
              eig_closed=opts.get("eig", "") == "closed")
    res = {"paths": 0, "decisions": 0, "infeasible": 0, "limits": [], "obligations": 0,
           "identical": 0, "normal_form": 0, "proved": 0, "violated": [], "undecided": [],
           "evals": [], "opaque_abnormal": 0, "assumed_guards": 0, "engine_error": None,
           "inputs": {}, "labels": []}
    qms = opts.get("query_ms", 8000)
    deadline = core_time + opts.get("timeout", 100) * 0.85
    lower.STATS.update({k: 0 for k in lower.STATS})

    def body():
        w.begin()
        try:
            fn(w, **params)
        except EngineError:
            raise
        except Exception as e:
            import traceback
            gone = api.private_name_gone(e, load.REPO)
            if gone:
                raise EngineError(gone) from None
            tb = traceback.extract_tb(e.__traceback__)
            where = next((f"{t.filename}:{t.lineno}" for t in reversed(tb)
                          if t.filename.startswith(load.REPO)), f"{tb[-1].filename}:{tb[-1].lineno}")
            w.obl.append((f"unexpected {type(e).__name__}: {e} at {where}", core.FALSE))
        return None

    labels = set()
    try:
        for outcome, _ in core.explore(ctx, body, opts.get("paths", 64)):
            if outcome == "limit":
                res["limits"].append(str(_))
                continue
            if outcome == "infeasible":
                res["infeasible"] += 1
                continue
            res["paths"] += 1
            res["decisions"] += len(ctx.decisions)
            res["assumed_guards"] += len(ctx.guards)
            res["inputs"].update(w.inputs)
            if ctx.bounded:
                res["limits"] = sorted(set(res["limits"]) | {f"opaque {b} failures <= {ctx.abnormal} per path"
                                                             for b in ctx.bounded})
            abnormal = ctx.abnormal_left < ctx.abnormal
            left = max(1.0, deadline - time.time())
            tmo = min(qms, left * 1000 / 2)
            Ctx.current = None
            rs = lower.prove(ctx.path, ctx.contracts, w.obl, tmo,
                             search=opts.get("search", True), seed=seed)
            res["obligations"] += len(rs)
            for r in rs:
                labels.add(_gen(r["label"]))
                s = r["status"]
                if s in ("identical", "normal_form", "proved"):
                    res[s] += 1
                elif s == "violated":
                    ms = r.get("models") or [r.get("model")]
                    res["violated"].append({"label": r["label"], "opaque_abnormal": abnormal,
                                            "feasible": r.get("feasible", True),
                                            "models": [_ser(m) for m in ms if m]})
                else:
                    res["undecided"].append(r["label"])
            if validate:
                fd = fresh_defs(ctx)
                for vi, env in enumerate(validate):
                    ev = lower.NumEval(env, fd)
                    try:
                        if all(ev(c) for c in ctx.path):
                            res["evals"].append({"i": vi, "records": [
                                [l, [ev(t) if isinstance(t, Sym) else
                                     (float(ev(core.lift(t))) if isinstance(t, SymBool) else float(t))
                                     for t in ts]] for l, ts in w.records]})
                    except KeyError:
                        pass
                    except (EngineError, ArithmeticError, np.linalg.LinAlgError, ValueError,
                            OverflowError, TypeError):
                        pass
            if len(res["violated"]) >= opts.get("max_violations", 6):
                break
            if time.time() > deadline:
                res["limits"].append("job time budget")
                break
    except EngineError as e:
        import traceback
        res["engine_error"] = f"{e} | " + " <- ".join(
            f"{t.filename.split('/')[-1]}:{t.lineno}" for t in
            reversed(traceback.extract_tb(e.__traceback__)[-6:]))
    finally:
        Ctx.current = None
    res["labels"] = sorted(labels)[:40]
    res["wall_s"] = round(time.time() - core_time, 3)
    res["stats"] = {k: (round(v, 3) if isinstance(v, float) else v) for k, v in lower.STATS.items()}
    return res


def _gen(label):
    import re
    return re.sub(r"\[\d+\]", "", label)


def _ser(m):
    out = {}
    for k, v in m.items():
        if v is None or "?" in k:
            continue
        out[k] = [v.numerator, v.denominator] if max(abs(v.numerator), v.denominator) < 10 ** 30 else \
            [float(v), 1]
    return out
