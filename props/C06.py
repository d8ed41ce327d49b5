"""Bounds: symmetry and finiteness for every estimator and variant after 1-7 observations, dimension 1-3 and 5;
positive semi-definiteness by induction (one update from any valid state, any number of observations, any rate,
intensity or cutoff in its documented range, dimension 1-2, every direction) and from the start for 1-4
observations."""
from vx.api import harness
from props import zoo
from props.C03 import COMPOSED, _composed


def _jobs(env):
    js = []
    for c in zoo.configs(env, True):
        js += [dict(**c, d=2, T=1), dict(**c, d=2, T=3), dict(**c, d=3, T=7), dict(**c, d=5, T=3)]
        if env.thorough:
            js += [dict(**c, d=1, T=7), dict(**c, d=4, T=6), dict(**c, d=2, T=9)]
    return js


@harness(_jobs, la="uf", paths=4, timeout=60, vtol=1e-2)
def symmetric_and_finite(w, est, v, d, T):
    """covariance_ is exactly symmetric and every entry is a finite number, from the first observation on."""
    cls, kw = zoo.build(w, est, v, sym=False)
    e = cls(**kw).fit(zoo.rows(w, "x", T, d))
    C = e.covariance_
    w.finite("covariance", C)
    w.finite("mean", e.location_)
    if not w.symbolic:
        w.psd("covariance", C)
    for i in range(d):
        for j in range(i):
            w.eq("symmetric", C[i, j], C[j, i], tol=0, atol=0)


def _degenerate(env):
    heavy = ("AdaptiveEwaCovariance", "GeodesicEwaCovariance", "FactorCovariance", "PartialMomentsCovariance",
             "OASCovariance", "LedoitWolfCovariance")
    return [j for j in _jobs(env) if j["T"] <= 3 or j["d"] == 1 or
            not (j["est"] in heavy or "geodesic" in j["v"])]


@harness(_degenerate, la="uf", paths=4, timeout=60, vtol=1e-2)
def degenerate_streams(w, est, v, d, T):
    """Constant, repeated and collinear observations give finite positive semi-definite estimates, not NaN."""
    cls, kw = zoo.build(w, est, v, sym=False)
    c, t0 = w.arr("c", d), w.arr("t", T)
    for name, X in (("zero", w.np.zeros((T, d))), ("constant", [[c[j] for j in range(d)] for _ in range(T)]),
                    ("collinear", [[c[j] * t0[t] for j in range(d)] for t in range(T)]),
                    ("one-hot", [[w.real(1 if j == t % d else 0) for j in range(d)] for t in range(T)])):
        e = cls(**kw).fit(X)
        C = e.covariance_
        w.finite(name, C)
        w.finite(name + " mean", e.location_)
        if not w.symbolic:
            w.psd(name, C)
        for i in range(d):
            w.check(name + " variance", C[i, i] >= (0 if w.symbolic else -1e-9))
            for j in range(i):
                w.eq(name + " symmetric", C[i, j], C[j, i], tol=0, atol=0)


CHEAP = ["EmpiricalCovariance", "DiagonalCovariance", "BlockCovariance", "EwaCovariance", "LedoitWolfCovariance",
         "OASCovariance", "ShrunkCovariance", "HuberCovariance", "AdaptiveEwaCovariance", "DCCCovariance",
         "FactorCovariance", "TylerCovariance", "SchurCovariance", "SchurLedoitWolfCovariance"]


def _ind(env):
    js = []
    for c in zoo.configs(env, True):
        if c["est"] in CHEAP and "geodesic" not in c["v"] and c["v"] not in ("n_blocks=3", "n_blocks=5", "k=4"):
            js += [dict(**c, d=d, phase=p) for d in (1, 2) for p in ("burn", "run")]
    return js


@harness(_ind, la="exact", la_n=2, feas=True, paths=10, timeout=100, query_ms=6000, havoc=True, required=False,
         validate=False, canon=True)
def stays_psd(w, est, v, d, phase):
    """One more observation turns a valid state into a valid state (covariances positive semi-definite,
    variances non-negative), whatever came before; reads_psd shows that valid states read as PSD matrices."""
    cls, kw = zoo.build(w, est, v, r=0.5)
    lo, hi = (1, 4) if phase == "burn" else (5, None)
    e = zoo.havoc(w, cls, kw, d, lo=lo, hi=hi)
    e.partial_fit(zoo.next_row(w, e, d))
    if not w.symbolic:
        return _psd2(w, e.covariance_, d)
    seen = 0
    for k, val in e.get_state().items():
        if k in zoo.PSD:
            _psd2(w, w.array(val), len(val))
            seen += 1
        elif k == "block_covs":
            for b in val:
                _psd2(w, w.array(b), len(b))
            seen += 1
        elif k in ("var", "h") and val is not None:
            w.le(k, w.real(0), val)
            seen += 1
    if not seen:
        _psd2(w, e.covariance_, d)


def _psd2(w, C, d):
    if d == 1:
        w.le("variance", w.real(0), C[0, 0])
    elif w.symbolic:
        w.le("variances", w.real(0), C[0, 0])
        w.le("variances", w.real(0), C[1, 1])
        w.le("determinant", w.real(0), C[0, 0] * C[1, 1] - C[0, 1] * C[1, 0])
    else:
        w.psd("covariance", C)


@harness(_ind, la="exact", la_n=2, feas=True, paths=10, timeout=100, query_ms=6000, havoc=True, required=False,
         validate=False, canon=True)
def reads_psd(w, est, v, d, phase):
    """What is read from a valid state (shrinkage, damping, flooring, targets) is positive semi-definite."""
    cls, kw = zoo.build(w, est, v, r=0.5)
    lo, hi = (1, 4) if phase == "burn" else (5, None)
    e = zoo.havoc(w, cls, kw, d, lo=lo, hi=hi)
    _psd2(w, e.covariance_, d)


def _start(env):
    js = []
    for c in zoo.configs(env, True):
        if c["est"] in ("PartialMomentsCovariance", "GeodesicEwaCovariance") or "geodesic" in c["v"]:
            continue
        ts = (1, 2) if c["est"] not in ("TylerCovariance",) else (1,)
        if c["est"] in ("EmpiricalCovariance", "EwaCovariance", "BlockCovariance", "DiagonalCovariance",
                        "SchurCovariance", "HuberCovariance"):
            ts += (4,)
        js += [dict(**c, d=2, T=T) for T in ts]
    return js


@harness(_start, la="exact", la_n=2, feas=True, paths=6, timeout=60, query_ms=4000, required=False,
         validate=False, canon=True)
def psd_from_the_start(w, est, v, d, T):
    """The first few observations already give positive semi-definite estimates."""
    cls, kw = zoo.build(w, est, v)
    e = cls(**kw).fit(zoo.rows(w, "x", T, d))
    _psd2(w, e.covariance_, d)


@harness([dict(est="GeodesicEwaCovariance", v="", T=T, d=d) for T in (1, 3) for d in (2, 3)], la="uf", feas=False, paths=3, abnormal=0, timeout=60, query_ms=4000,
         required=False, validate=True, vtol=1e-2)
def geodesic_psd(w, est, v, T, d):
    """Estimates rebuilt from a spectrum are positive semi-definite in every direction."""
    cls, kw = zoo.build(w, est, v)
    e = cls(**kw).fit(zoo.rows(w, "x", T, d))
    w.psd("covariance", e.covariance_)


@harness([dict(which=c, T=T) for c in COMPOSED for T in (1, 3)], la="uf", paths=4, timeout=60, vtol=1e-2)
def compositions(w, which, T):
    """Composed estimators: symmetric, finite, non-negative variances."""
    C = _composed(w, which)().fit(zoo.rows(w, "x", T, 2)).covariance_
    w.finite("covariance", C)
    w.eq("symmetric", C[0, 1], C[1, 0], tol=0, atol=0)
    for i in range(2):
        w.le("variance", w.real(0), C[i, i])


@harness([dict(n=n) for n in (1, 2, 3)], la="uf", abnormal=0, paths=4, timeout=60, query_ms=6000, required=False)
def floor_makes_positive(w, n):
    """Flooring the spectrum of any symmetric matrix gives a positive definite one: z^T M z >= 1e-8 |z|^2."""
    A = w.symm("a", n)
    M = w.mod("precise._linalg").make_pos_def(A)
    w.psd("floored", M)
