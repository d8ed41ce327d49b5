"""Bounds: translation and reflection for every estimator and variant, 1-9 observations, dimension 1-3 (4 in the
thorough tier); rescaling for the estimators without an absolute floor and permutation for those without an ordering
of the variables, dimension 2-3; every data value, shift and positive scale."""
from vx.api import harness
from props import zoo

NO_FLOOR = ["EmpiricalCovariance", "DiagonalCovariance", "EwaCovariance", "LedoitWolfCovariance", "OASCovariance"]
PER_VARIABLE = ["EmpiricalCovariance", "DiagonalCovariance", "EwaCovariance"]
UNORDERED = ["EmpiricalCovariance", "DiagonalCovariance", "EwaCovariance", "LedoitWolfCovariance", "OASCovariance",
             "ShrunkCovariance", "DCCCovariance"]
BY_INVERSE = ["HuberCovariance", "TylerCovariance", "AdaptiveEwaCovariance"]


def _cls(w, name):
    return w.mod("precise.registry").estimator_from_name(name)


def _jobs(env):
    js = []
    for c in zoo.configs(env, True):
        if c["est"] == "FactorCovariance":
            js += [dict(**c, d=1, T=3), dict(**c, d=2, T=2), dict(**c, d=3, T=2)]
        elif c["est"] == "PartialMomentsCovariance":
            js += [dict(**c, d=2, T=3)]
        elif c["est"] == "HuberCovariance":
            js += [dict(**c, d=1, T=6), dict(**c, d=2, T=6), dict(**c, d=3, T=5)]
        else:
            js += [dict(**c, d=2, T=8), dict(**c, d=1, T=7)]
            if not ("geodesic" in c["v"] or c["est"].startswith("Geodesic")):
                js += [dict(**c, d=3, T=6)]
                if env.thorough:
                    js += [dict(**c, d=4, T=9)]
    return js


def _tol(est, v):
    return 1e-2 if est.startswith("Geodesic") or "geodesic" in v else 1e-5


def _shift(st, c):
    """The checkpoint of the same history moved by c."""
    out = dict(st)
    if "mean" in out:
        out["mean"] = [m + k for m, k in zip(out["mean"], c)]
    if "block_means" in out:
        i, bm = 0, []
        for blk in out["block_means"]:
            bm.append([m + c[i + j] for j, m in enumerate(blk)])
            i += len(blk)
        out["block_means"] = bm
    return out


@harness(lambda env: [dict(**c, d=d) for c in zoo.configs(env, True) for d in (1, 2, 3)
                      if not (d == 3 and ("geodesic" in c["v"] or c["est"].startswith(("Geodesic", "Partial"))))
                      and not (d == 1 and c["est"].startswith("Partial"))],
         la="uf", canon=True, paths=8, timeout=60, havoc=True, validate=False, vtol=1e-2)
def translation_from_any_state(w, est, v, d):
    """The same for one more observation after any history."""
    cls, kw = zoo.build(w, est, v, sym=False)
    c = w.arr("c", d, lo=-50, hi=50)
    a, b = zoo.twin(w, cls, kw, d, lambda H: H + w.np.asarray(c), lambda s: _shift(s, c), lo=5)
    x = w.arr("x", d)
    a.partial_fit(x)
    b.partial_fit(x + c)
    w.eq("covariance", b.covariance_, a.covariance_, tol=_tol(est, v))
    w.eq("mean", b.location_, a.location_ + c)
    if w.symbolic:
        w.eq("state", {k: v for k, v in b.get_state().items()}, _shift(a.get_state(), c))


@harness(_jobs, la="uf", canon=True, paths=4, timeout=90, vtol=1e-2)
def translation(w, est, v, d, T):
    """Adding a constant to a series moves its mean by that constant and changes nothing else."""
    cls, kw = zoo.build(w, est, v, sym=False)
    X, c = zoo.rows(w, "x", T, d), w.arr("c", d, lo=-50, hi=50)
    a, b = cls(**kw), cls(**kw)
    for t in range(T):
        a.partial_fit(X[t])
        b.partial_fit(X[t] + c)
        w.eq(f"covariance {t}", b.covariance_, a.covariance_, tol=_tol(est, v))
        w.eq(f"mean {t}", b.location_, a.location_ + c)
    w.eq("correlation", b.correlation_, a.correlation_, tol=1e-4)
    w.eq("fit", cls(**kw).fit(X + c).covariance_, a.covariance_, tol=_tol(est, v))


@harness(_jobs, la="uf", canon=True, paths=4, timeout=90, vtol=1e-2)
def reflection(w, est, v, d, T):
    """Negating the stream negates the mean and leaves the covariance unchanged."""
    cls, kw = zoo.build(w, est, v, sym=False)
    X = zoo.rows(w, "x", T, d)
    a, b = cls(**kw), cls(**kw)
    for t in range(T):
        a.partial_fit(X[t])
        b.partial_fit(-X[t])
        w.eq(f"covariance {t}", b.covariance_, a.covariance_, tol=_tol(est, v))
        w.eq(f"mean {t}", b.location_, -a.location_)


@harness(lambda env: [dict(est=e, v=v, d=d, T=T) for e in NO_FLOOR for v in zoo.VARIANTS.get(e, [""])
                      for d, T in ((1, 6), (2, 6), (3, 6))
                      if not (e.startswith("Ledoit") and d > 1)] + [dict(est="LedoitWolfCovariance", v="", d=2, T=3)] +
         [dict(est=e, v="", d=d, T=5, r=r) for e in NO_FLOOR[2:] for d in (2, 3) for r in (0.02, 0.25)
          if not e.startswith("Ledoit")], la="uf", canon=True, paths=4, timeout=90, vtol=1e-2)
def units(w, est, v, d, T, r=0.5):
    """Measuring everything in other units rescales mean and covariance accordingly, at any magnitude."""
    cls, kw = zoo.build(w, est, v, sym=False, r=r)
    X = zoo.rows(w, "x", T, d)
    a = cls(**kw).fit(X)
    for name, s in (("million", w.real(1000000)), ("millionth", w.frac(1, 1000000)), ("third", w.frac(1, 3)),
                    ("negative", w.real(-2))):
        b = cls(**kw).fit(X * s)
        w.eq(name, b.covariance_ / (s * s), a.covariance_, tol=1e-6)
        w.eq(name + " mean", b.location_ / s, a.location_, tol=1e-6)


@harness(lambda env: [dict(est=e, v=v, d=d, T=T) for e in PER_VARIABLE for v in zoo.VARIANTS.get(e, [""])
                      for d, T in ((1, 6), (2, 8), (3, 7))], la="uf", canon=True, paths=4, timeout=90)
def units_per_variable(w, est, v, d, T):
    """Rescaling each variable by its own factor s_i rescales entry (i, j) by s_i s_j."""
    cls, kw = zoo.build(w, est, v, sym=False)
    X, s = zoo.rows(w, "x", T, d), w.arr("s", d, lo=-8, hi=8)
    a, b = cls(**kw).fit(X), cls(**kw).fit(X * s)
    w.eq("covariance", b.covariance_, a.covariance_ * w.np.outer(s, s))
    w.eq("mean", b.location_, a.location_ * s)


@harness(lambda env: [dict(est=e, v=v, d=d, T=7) for e in UNORDERED for v in zoo.VARIANTS.get(e, [""])
                      for d in (2, 3)] + [dict(est=e, v=v, d=d, T=T) for e in UNORDERED for v in zoo.VARIANTS.get(e, [""])
                      for d, T in ((4, 3), (6, 2))],
         la="uf", canon=True, paths=6, timeout=90, vtol=1e-2)
def permutation(w, est, v, d, T):
    """Reordering the variables reorders the estimate the same way."""
    cls, kw = zoo.build(w, est, v, sym=False)
    X = zoo.rows(w, "x", T, d)
    p = [2, 0, *range(3, d), 1] if d > 3 else list(range(1, d)) + [0]
    a, b = cls(**kw), cls(**kw)
    for t in range(T):
        a.partial_fit(X[t])
        b.partial_fit(X[t][p])
        w.eq(f"covariance {t}", b.covariance_, a.covariance_[w.np.ix_(p, p)], tol=1e-5)
        w.eq(f"mean {t}", b.location_, a.location_[p])


@harness(lambda env: [dict(est=e, v=v, d=d, r=r) for e in UNORDERED for v in zoo.VARIANTS.get(e, [""])
                      for d in (2, 3) for r in (0.5, 0.02) if not (e == "EmpiricalCovariance" and r != 0.5)],
         la="uf", canon=True, paths=6, timeout=90, havoc=True, validate=False, vtol=1e-2)
def permutation_from_any_state(w, est, v, d, r):
    """The same for one more observation after any history."""
    cls, kw = zoo.build(w, est, v, sym=False, r=r)
    p = list(range(1, d)) + [0]

    def fstate(st):
        out = {}
        for k, q in st.items():
            if isinstance(q, list) and len(q) == d:
                q = [q[i] for i in p]
                q = [[row[j] for j in p] for row in q] if isinstance(q[0], list) else q
            out[k] = q
        return out

    a, b = zoo.twin(w, cls, kw, d, lambda H: H[:, p], fstate, lo=5)
    x = w.arr("x", d)
    a.partial_fit(x)
    b.partial_fit(x[p])
    w.eq("covariance", b.covariance_, a.covariance_[w.np.ix_(p, p)], tol=1e-5)
    w.eq("mean", b.location_, a.location_[p])


@harness(lambda env: [dict(est=e, d=d, kind=k) for e in BY_INVERSE for d in (1, 2) for k in ("swap", "scale", "tiny", "huge")
                      if not (d == 1 and k == "swap" or e.startswith("Tyler") and d == 2 and k != "swap")],
         la="exact", la_n=2, canon=True, paths=8, feas=True, timeout=90, havoc=True, validate=False,
         required=False)
def by_inverse(w, est, d, kind):
    """The same for the estimators that weigh observations by Mahalanobis distance, from any state."""
    cls, kw = zoo.build(w, est, "", sym=False)
    p = [1, 0][:d] if kind == "swap" else list(range(d))
    s = w.real(1) if kind == "swap" else w.var("s", lo=0.25, hi=4) if kind == "scale" else w.frac(1, 10 ** 5) if kind == "tiny" else w.real(10 ** 5)

    def fstate(st):
        out = dict(st)
        for k, v in st.items():
            if k == "mean":
                out[k] = [v[i] * s for i in p]
            elif k in ("cov", "C"):
                f = s * s if k == "cov" else w.real(1)
                out[k] = [[v[i][j] * f for j in p] for i in p]
        return out

    a, b = zoo.twin(w, cls, kw, d, lambda H: H[:, p] * float(s) if not w.symbolic else None, fstate, pd=True)
    x = w.arr("x", d)
    a.partial_fit(x)
    b.partial_fit(x[p] * s)
    f = s * s if est != "TylerCovariance" else w.real(1)
    w.eq("covariance", b.covariance_ / f, a.covariance_[w.np.ix_(p, p)], tol=1e-4)
    w.eq("mean", b.location_ / s, a.location_[p])


@harness([dict(est=e, d=d, power=p, r=r) for e in sorted(set(NO_FLOOR + BY_INVERSE) - {"TylerCovariance"}) for d in (1, 2, 3)
          for p in (-28, 20) for r in (0.5,)] + [dict(est="TylerCovariance", d=d, power=p, r=0.5) for d in (2, 3) for p in (-28, 20)],
         la="exact", la_n=3, canon=True, feas=True, fork_minmax=True, paths=8, timeout=90, required=False)
def units_by_powers_of_two(w, est, d, power, r):
    """Units 2^28 times coarser or 2^20 times finer: a fixed history, then an observation with an arbitrary
    coordinate."""
    kw = {"c": w.real(20)} if est == "HuberCovariance" else {}
    if "r" in zoo.params_of(_cls(w, est)):
        kw["r"] = w.real(r)
    k = w.real(2.0 ** power)
    X = zoo.wide(w, d, 0)[-3 if est == "TylerCovariance" else 1:]
    a = _cls(w, est)(**kw).fit(w.array([list(x) for x in X]))
    b = _cls(w, est)(**kw).fit(w.array([[v * k for v in x] for x in X]))
    f = k * k if est != "TylerCovariance" else w.real(1)
    w.eq("covariance", b.covariance_ / f, a.covariance_, tol=1e-6)
    w.eq("mean", b.location_ / k, a.location_, tol=1e-6)


@harness(lambda env: [dict(**c, d=2, power=p) for c in zoo.configs(env, True) for p in (20, 30)],
         la="uf", canon=True, paths=6, timeout=60, vtol=1e-2)
def far_from_the_origin(w, est, v, d, power):
    """A stream around 2^20 or 2^30 moves as the same stream around zero does: a fixed history, then an observation with an
    arbitrary coordinate."""
    cls, kw = zoo.build(w, est, v, sym=False)
    c = w.real(2.0 ** power)
    H = [[w.real(x) for x in row[:d]] for row in zoo.WIDE[:2 if est == "FactorCovariance" else 7]] + [[w.var("x", lo=-8, hi=8), w.real(1.25)]]
    a, b = cls(**kw), cls(**kw)
    for t, row in enumerate(H):
        a.partial_fit(w.array(row))
        b.partial_fit(w.array([x + c for x in row]))
        w.eq(f"covariance {t}", b.covariance_, a.covariance_, tol=1e-4)
        w.eq(f"mean {t}", b.location_, a.location_ + c, tol=1e-4)
