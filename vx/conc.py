"""The concrete world: the same harnesses on the real code with ordinary numpy (replay, validation).

Run with the project's own interpreter:  /opt/venv/bin/python -m vx.conc  < requests.json
"""
from __future__ import annotations

import copy
import importlib
import importlib.util
import json
import math
import os
import pickle
import random
import sys

import numpy as np

REPO = os.environ.get("VX_REPO", "/repo")
VERIF = os.environ.get("VX_VERIF", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
sys.path.insert(0, VERIF)

from vx.api import HARNESSES, AssumptionFailed, private_name_gone  # noqa: E402


class ConcWorld:
    symbolic = False

    def __init__(self, env, seed=1, style="normal"):
        self.env = env
        self.rng = random.Random(seed)
        self.style = style
        self.np = np
        self.fails = []
        self.records = []
        self.used = {}
        self.checked = 0

    @property
    def precise(self):
        return importlib.import_module("precise")

    def mod(self, name):
        return importlib.import_module(name)

    def var(self, name, lo=None, hi=None, integer=False, strict=False):
        if name in self.env:
            v = self.env[name]
        else:
            a = -3.0 if lo is None else float(lo)
            b = (3.0 if lo is None else a + 4.0) if hi is None else float(hi)
            if lo is None and hi is not None:
                a = b - 4.0
            if integer:
                v = self.rng.randint(math.ceil(a), math.floor(b))
            else:
                v = a + (b - a) * (0.02 + 0.96 * self.rng.random())
        v = int(round(v)) if integer else float(v)
        if lo is not None and v < lo - 1e-12 or hi is not None and v > hi + 1e-12:
            raise AssumptionFailed(name)
        if strict and (lo is not None and v <= lo or hi is not None and v >= hi):
            raise AssumptionFailed(name)
        self.used[name] = v
        return v

    def arr(self, name, *shape, lo=None, hi=None, strict=False):
        o = np.empty(shape)
        for ix in np.ndindex(*shape):
            o[ix] = self.var(name + "_" + "_".join(map(str, ix)), lo, hi, strict=strict)
        return o

    def symm(self, name, n):
        o = np.empty((n, n))
        for i in range(n):
            for j in range(i, n):
                o[i, j] = o[j, i] = self.var(f"{name}_{i}_{j}")
        return o

    def spectral(self, name, n, lo=None, strict=False):
        ev = [self.var(f"{name}_ev0", lo=lo, strict=strict)]
        for i in range(1, n):
            ev.append(ev[-1] + self.var(f"{name}_gap{i}", lo=0))
        V = np.array(self.rotation(name, n))
        return ev, (V * np.array(ev)) @ V.T

    def rotation(self, name, n):
        V = np.eye(n)
        for p in range(n):
            for q in range(p + 1, n):
                c = self.var(f"{name}_c{p}{q}", lo=-1, hi=1)
                s = math.sqrt(max(0.0, 1 - c * c))
                a, b = V[:, p].copy(), V[:, q].copy()
                V[:, p], V[:, q] = a * c + b * s, b * c - a * s
        return V.tolist()

    def num(self, x):
        return x

    def real(self, x):
        return float(x)

    def array(self, x):
        return np.array(x, dtype=float)

    def frac(self, a, b):
        return a / b

    def assume(self, c):
        if not bool(np.all(c)):
            raise AssumptionFailed("assume")

    def _fail(self, label, detail="", diff=None):
        f = {"label": label, "detail": str(detail)[:300]}
        if diff is not None:
            f["diff"] = [float(v) for v in np.ravel(diff)[:64]]
        self.fails.append(f)

    def check(self, label, c):
        self.checked += 1
        if not bool(c):
            self._fail(label, "condition is false")

    def eq(self, label, a, b, tol=1e-7, atol=None):
        tol = 1e-7 if tol is None else tol
        self._eq(label, a, b, tol, atol)

    def _eq(self, label, a, b, tol, atol):
        self.checked += 1
        if isinstance(a, dict) or isinstance(b, dict):
            if not (isinstance(a, dict) and isinstance(b, dict)) or list(a) != list(b):
                self._fail(label + ":keys", f"{_short(a)} != {_short(b)}")
                return
            for k in a:
                self._eq(f"{label}.{k}", a[k], b[k], tol, atol)
            return
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            if not (a is b or (type(a) is type(b) and a == b)):
                self._fail(label, f"{a!r} != {b!r}")
            return
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and any(
                isinstance(v, (dict, str, list, tuple, type(None), np.ndarray)) for v in list(a) + list(b)):
            if len(a) != len(b):
                self._fail(label + ":len", f"{len(a)} != {len(b)}")
                return
            for i, (x, y) in enumerate(zip(a, b)):
                self._eq(f"{label}[{i}]", x, y, tol, atol)
            return
        try:
            A, B = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        except (TypeError, ValueError):
            if not a == b:
                self._fail(label, f"{a!r} != {b!r}")
            return
        if A.shape != B.shape:
            self._fail(f"{label}:shape", f"{A.shape} != {B.shape}")
            return
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or A.ndim:
            self.records.append([label, [float(v) for v in A.ravel()]])
        if A.size == 0:
            return
        fa, fb = np.isfinite(A), np.isfinite(B)
        if not np.array_equal(fa, fb) or not np.array_equal(np.isnan(A), np.isnan(B)):
            self._fail(label, f"{_short(A)} != {_short(B)}")
            return
        A, B = np.where(fa, A, 0.0), np.where(fb, B, 0.0)
        scale = max(float(np.max(np.abs(A))), float(np.max(np.abs(B))))
        at = (1e-11 * self.mag() ** 2) if atol is None else atol
        err = float(np.max(np.abs(A - B)))
        if err > tol * scale + at:
            self._fail(label, f"{_short(A)} != {_short(B)} (max difference {err:.6g})", A - B)

    def mag(self):
        m = max([1.0] + [abs(v) for v in self.used.values() if isinstance(v, float)])
        return min(m, 1e8)

    def le(self, label, a, b, tol=1e-7):
        tol = 1e-7 if tol is None else tol
        self.checked += 1
        A, B = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
        for ix in np.ndindex(A.shape):
            x, y = A[ix], B[ix]
            if math.isnan(x) or math.isnan(y) or x > y + tol * max(1.0 if tol else 0.0, abs(x), abs(y)):
                self._fail(label + "".join(f"[{i}]" for i in ix), f"{x!r} <= {y!r} is false", x - y)

    def lt(self, label, a, b, tol=0.0):
        self.checked += 1
        A, B = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
        for ix in np.ndindex(A.shape):
            if not A[ix] < B[ix]:
                self._fail(label + "".join(f"[{i}]" for i in ix), f"{A[ix]!r} < {B[ix]!r} is false")

    def finite(self, label, a):
        self.checked += 1
        A = np.asarray(a, dtype=float)
        for ix in np.ndindex(A.shape):
            if not np.isfinite(A[ix]):
                self._fail(f"{label} finite{list(ix)}", f"{A[ix]}")

    def psd(self, label, M, z=None, tol=1e-8):
        tol = 1e-8 if tol is None else tol
        self.checked += 1
        A = np.asarray(M, dtype=float)
        if not np.all(np.isfinite(A)):
            self._fail(label + ":nan", _short(A))
            return
        w = np.linalg.eigvalsh((A + A.T) / 2)
        sc = max(1e-300, float(np.max(np.abs(A))))
        if w.min() < -tol * sc:
            self._fail(label, f"smallest eigenvalue {w.min():.6g} of {_short(A)}", w.min())

    def raises(self, label, excs, fn):
        self.checked += 1
        try:
            r = fn()
        except Exception as e:
            if not isinstance(e, excs):
                self._fail(f"{label}:{type(e).__name__}", str(e))
            return
        self._fail(label + ":no exception", _short(r))

    def outcome(self, fn):
        try:
            return ("ok", fn())
        except Exception as e:
            return ("exc", type(e).__name__)

    def json(self, x):
        return json.loads(json.dumps(x))

    def pickle(self, x):
        return pickle.loads(pickle.dumps(x))

    def deepcopy(self, x):
        return copy.deepcopy(x)

    def fork(self, c):
        return bool(c)

    def shares(self, a, b):
        return bool(np.shares_memory(a, b))

    def record(self, label, a):
        self.records.append([label, [float(v) for v in np.asarray(a, dtype=float).ravel()]])

    def const_of(self, x):
        return float(x)


def _short(a):
    try:
        s = np.array2string(np.asarray(a), precision=6, threshold=20).replace("\n", "")
    except Exception:
        s = repr(a)
    return s[:160]


_loaded = {}


def load_prop(prop):
    if prop not in _loaded:
        HARNESSES.clear()
        path = os.path.join(VERIF, "props", prop + ".py")
        spec = importlib.util.spec_from_file_location("props_" + prop, path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _loaded[prop] = dict(HARNESSES)
    return _loaded[prop]


def decode(m):
    return {k: (v[0] / v[1] if isinstance(v, list) else v) for k, v in m.items()}


def run_one(req):
    h = load_prop(req["prop"])[req["harness"]]
    w = ConcWorld(decode(req.get("env", {})), req.get("seed", 1))
    import warnings
    out = {"status": "ok"}
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            h.fn(w, **req["params"])
        except AssumptionFailed as e:
            out["status"] = "assume"
            out["why"] = str(e)
        except Exception as e:
            import traceback
            gone = private_name_gone(e, REPO)
            if gone:
                return dict(out, status="assume", why=gone, seed=req.get("seed", 1), fails=[], nfails=0, used=w.used,
                            checked=w.checked)
            tb = traceback.extract_tb(e.__traceback__)
            where = next((f"{t.filename}:{t.lineno}" for t in reversed(tb)
                          if t.filename.startswith(REPO)), f"{tb[-1].filename}:{tb[-1].lineno}")
            w._fail(f"unexpected {type(e).__name__}", f"{e} at {where}")
    out.update(seed=req.get("seed", 1), fails=w.fails[:8], nfails=len(w.fails), used=w.used, checked=w.checked)
    if req.get("records"):
        out["records"] = w.records
    return out


def main():
    reqs = json.load(sys.stdin)
    out = []
    for r in reqs:
        try:
            out.append(run_one(r))
        except Exception as e:
            out.append({"status": "crash", "why": repr(e), "seed": r.get("seed", 1), "fails": [], "nfails": 0,
                        "used": {}, "checked": 0, "records": []})
    print(json.dumps(out))


if __name__ == "__main__":
    main()
