"""Bounds: one update from an arbitrary state with any number of observations n (dimension 1-2) and
any rate r in [0.2, 1] (burn-in 5) or the concrete rates listed; closed-form weights over 8
observations; burn-in lengths for 12 concrete rates incl. 1/250 and below, over whole streams."""
from vx.api import harness
from props import zoo

EWA = ["EwaCovariance", "LedoitWolfCovariance", "OASCovariance", "ShrunkCovariance",
       "SchurCovariance", "SchurConditionalCovariance", "SchurLedoitWolfCovariance",
       "BlockCovariance", "AdaptiveEwaCovariance", "HuberCovariance", "GeodesicEwaCovariance"]


@harness([dict(d=d, phase=p) for d in (1, 2) for p in ("burn", "run")], la="uf", canon=True, feas=True, havoc=True,
         validate=False)
def one_step(w, d, phase):
    """Burn-in: Welford; afterwards mean' = (1-r) mean + r x, cov' = (1-r) cov + r (x-mean)(x-mean)^T."""
    r = w.var("r", lo=0.2, hi=1)
    e = zoo.havoc(w, w.precise.EwaCovariance, {"r": r}, d, lo=1 if phase == "burn" else 5,
                  hi=4 if phase == "burn" else None, psd=False)
    n, m, S = e.n_samples_, e.location_, e.covariance_
    x = w.arr("x", d)
    e.partial_fit(x)
    w.eq("n", e.n_samples_, n + 1)
    for i in range(d):
        if phase == "run":
            w.eq(f"mean[{i}]", e.location_[i], (1 - r) * m[i] + r * x[i])
        else:
            w.eq(f"mean[{i}]", e.location_[i], (m[i] * n + x[i]) / w.num(n + 1))
        for j in range(d):
            dd = (x[i] - m[i]) * (x[j] - m[j])
            if phase == "run":
                w.eq(f"cov[{i}][{j}]", e.covariance_[i, j], (1 - r) * S[i, j] + r * dd)
            else:
                k = w.num(n + 1)
                w.eq(f"cov[{i}][{j}]", e.covariance_[i, j], S[i, j] * n / k + dd * n / (k * k))


@harness([dict(d=1), dict(d=2)], la="uf", canon=True, feas=True)
def whole_stream(w, d):
    """Eight observations, symbolic r: the burn-in average of five, then exponential weights."""
    T = 8
    X = zoo.rows(w, "x", T, d)
    r = w.var("r", lo=0.2, hi=1)
    e = w.precise.EwaCovariance(r=r)
    m, S = None, None
    for t in range(T):
        e.partial_fit(X[t])
        n = t + 1
        if n <= 5:
            m = [sum((X[i, j] for i in range(n)), w.real(0)) / w.num(n) for j in range(d)]
            S = [[sum(((X[i, a] - m[a]) * (X[i, b] - m[b]) for i in range(n)), w.real(0)) / w.num(n)
                  for b in range(d)] for a in range(d)]
        else:
            S = [[(1 - r) * S[a][b] + r * (X[t, a] - m[a]) * (X[t, b] - m[b]) for b in range(d)]
                 for a in range(d)]
            m = [(1 - r) * m[j] + r * X[t, j] for j in range(d)]
        w.eq(f"mean@{n}", e.location_, w.array(m))
        w.eq(f"cov@{n}", e.covariance_, w.array(S))


RATES = ["1", "0.5", "0.34", "0.2", "0.19", "0.17", "0.1", "0.07", "0.05", "0.03", "0.01", "0.004", "0.003"]


def _burn(r):
    from fractions import Fraction
    import math
    return min(250, max(5, math.ceil(1 / float(r))))


@harness([dict(r=r) for r in RATES], la="uf", canon=True, feas=True, timeout=200)
def burn_in_length(w, r):
    """The mean stays the plain average for clamp(ceil(1/r), 5, 250) observations, and no longer."""
    nb = _burn(r)
    n = nb + 2
    x = w.arr("x", n, 1)
    e = w.precise.EwaCovariance(r=float(r) if not w.symbolic else w.real(float(r)))
    for t in range(n):
        e.partial_fit(x[t])
        if t + 1 == nb:
            w.eq("average", e.location_[0] * nb, sum((x[i, 0] for i in range(nb)), w.real(0)))
            m = e.location_[0]
        if t + 1 == nb + 1:
            rr = w.real(float(r))
            w.eq("decay", e.location_[0], (1 - rr) * m + rr * x[nb, 0])


@harness([dict(est=n, T=T) for n in EWA for T in (1, 3, 5, 6, 8)], la="uf", canon=True, feas=True, paths=8)
def one_dimension(w, est, T):
    """In one dimension every estimator built on the EWA recursion tracks the EWA mean; those that only
    shrink or partition return the EWA variance (up to the documented 1e-8 positive floor)."""
    X = zoo.rows(w, "x", T, 1)
    kw = zoo.kwargs(w, est, r="sym")
    e = w.mod("precise.registry").estimator_from_name(est)(**kw).fit(X)
    ref = w.precise.EwaCovariance(r=kw["r"]).fit(X)
    if est not in ("AdaptiveEwaCovariance", "HuberCovariance") or T <= 5:
        w.eq("mean", e.location_, ref.location_)
    v, c = ref.covariance_[0, 0], e.covariance_[0, 0]
    if est in ("LedoitWolfCovariance", "OASCovariance", "ShrunkCovariance"):
        w.eq("variance", c, v)
    elif est in ("SchurCovariance", "SchurLedoitWolfCovariance", "BlockCovariance"):
        w.eq("variance", c, w.np.maximum(v, w.real(1e-8)))
    elif T <= 5 and est != "SchurConditionalCovariance":
        w.eq("burn-in variance", c, v)


@harness([dict(r=r, d=2, N=N) for r in ("0.25", "0.05", "0.004") for N in (40, 330)] + [dict(r="0.25", d=2, N=1100)]
         + [dict(r="0.25", d=9, N=8), dict(r="0.25", d=17, N=7)], la="uf", canon=True, paths=2, timeout=120)
def long_and_wide(w, r, d, N):
    """The recursion over long and over wide streams, of which three observations are arbitrary and the others fixed."""
    X = zoo.long_rows(w, "x", N, d, at=(0, 6, N - 1))
    rr = w.real(float(r))
    e = w.precise.EwaCovariance(r=rr if w.symbolic else float(r))
    m, S = [w.real(0)] * d, [[w.real(0)] * d for _ in range(d)]
    for t in range(N):
        e.partial_fit(X[t])
        n = t + 1
        dev = [X[t, j] - m[j] for j in range(d)]
        if n <= _burn(r):
            S = [[(S[a][b] * (n - 1) + dev[a] * dev[b] * w.frac(n - 1, n)) / w.num(n) for b in range(d)] for a in range(d)]
            m = [m[j] + dev[j] / w.num(n) for j in range(d)]
        else:
            S = [[(1 - rr) * S[a][b] + rr * dev[a] * dev[b] for b in range(d)] for a in range(d)]
            m = [m[j] + rr * dev[j] for j in range(d)]
    w.eq("mean", e.location_, w.array(m))
    w.eq("covariance", e.covariance_, w.array(S))
