"""Bounds: the dynamic conditional estimator over whole streams of 1-9 observations (both rates, burn-in included) and
one step from any state, dimension 1-3; compositions of every kind of volatility and correlation model over streams of
up to 7 observations, dimension 1-3; every data value."""
from vx.api import harness
from props import zoo
from props.C03 import Skater

_skater = Skater()


def _cls(w, name):
    return w.mod("precise.registry").estimator_from_name(name)


def _cond(w):
    return w.mod("precise.conditional")


FIXED = [3, 0.5, -2, 1, 0.25, 4, -1, 2]


def _tiny(w):
    return w.frac(1, 10 ** 12)


def _burn(*rates):
    import math
    return int(min(250, max(5, math.ceil(1 / min(rates)))))


def _dcc_reference(w, X, r, vr, burn):
    """Engle's recursion: per-series variances at the volatility rate, quasi-correlation of the standardised
    innovations at the correlation rate (plain averages in the burn-in)."""
    np, d = w.np, len(X[0])
    m, h, Q = None, None, None
    for t, x in enumerate(X):
        n = t + 1
        x = w.array(list(x))
        if n == 1:
            m, h, Q = x, np.zeros(d), np.zeros((d, d))
            continue
        dev = x - m
        a, b = (w.frac(1, n), w.frac(1, n)) if n <= burn else (vr, r)
        m, h = m + a * dev, h + a * (dev * dev - h)
        e = dev / np.sqrt(np.maximum(h, _tiny(w)))
        Q = Q + b * (np.outer(e, e) - Q)
    return m, h, Q


def _recombine(w, h, Q):
    np = w.np
    q = 1 / np.sqrt(np.maximum(np.diag(Q), _tiny(w)))
    s = np.sqrt(np.maximum(h, _tiny(w)))
    return Q * np.outer(q, q) * np.outer(s, s)


def _streams(env):
    js = [dict(d=d, T=T, r=r, vr=v) for d, T in ((1, 8), (2, 3), (2, 7), (3, 6), (5, 3), (4, 6), (7, 3), (9, 2))
          for r, v in ((0.5, None), (0.5, 0.25), (0.25, 1.0), (0.5, 0.1), (0.1, 0.5))]
    if env.thorough:
        js += [dict(d=d, T=T, r=r, vr=v) for d, T in ((2, 10), (3, 9), (4, 7))
               for r, v in ((0.5, None), (0.125, 0.5), (1.0, 0.5))]
    return js


@harness(_streams, la="uf", canon=True, paths=4, timeout=60)
def recursion(w, d, T, r, vr):
    """The whole estimate after any stream."""
    X = zoo.rows(w, "x", T, d)
    kw = {"r": w.real(r)}
    if vr is not None:
        kw["vol_r"] = w.real(vr)
    v = r if vr is None else vr
    e = _cls(w, "DCCCovariance")(**kw).fit(X)
    m, h, Q = _dcc_reference(w, X, w.real(r), w.real(v), _burn(r, v))
    w.eq("mean", e.location_, m)
    w.eq("covariance", e.covariance_, _recombine(w, h, Q), tol=1e-6)


@harness([dict(r=r, vr=v, T=T) for r, v in ((0.5, 0.25), (0.2, 1.0), (0.2, 0.0625)) for T in (2, 4, 5, 6, 8)], la="uf", canon=True,
         feas=True, fork_minmax=True, paths=6, timeout=60)
def variances_run_at_the_volatility_rate(w, r, vr, T):
    """The variance is the exponentially weighted square of the innovations at the volatility rate, the correlation
    rate mattering only for how long the burn-in lasts.  A fixed history, then an arbitrary observation."""
    X = w.array([[w.real(FIXED[t])] for t in range(T - 1)] + [[w.var("x")]])
    m, h = X[0][0], w.real(0)
    for t in range(1, T):
        dev = X[t][0] - m
        a = w.frac(1, t + 1) if t + 1 <= _burn(r, vr) else w.real(vr)
        m, h = m + a * dev, h + a * (dev * dev - h)
    w.assume(h > w.frac(1, 10 ** 6))
    m, h, Q = _dcc_reference(w, X, w.real(r), w.real(vr), _burn(r, vr))
    w.assume(Q[0, 0] > w.frac(1, 10 ** 6))
    e = _cls(w, "DCCCovariance")(r=w.real(r), vol_r=w.real(vr)).fit(X)
    w.eq("variance", e.covariance_[0, 0], h[0], tol=1e-6)


@harness([dict(d=d) for d in (1, 2, 3)], la="uf", canon=True, feas=True, fork_minmax=True, paths=8, timeout=60,
         havoc=True, validate=False)
def recombination(w, d):
    """H = D R D from any state: variances on the diagonal, correlation in [-1, 1] off it, of the sign and size of the
    quasi-correlation."""
    if not w.symbolic:
        e = _cls(w, "DCCCovariance")(r=w.real(0.5)).fit(zoo.history(w, 9, d))
        return w.psd("covariance", e.covariance_)
    e = zoo.havoc(w, _cls(w, "DCCCovariance"), {"r": w.real(0.5)}, d, lo=2)
    s = e.get_state()
    h, Q = w.array(s["h"]), w.array(s["Q"])
    for i in range(d):
        w.assume(h[i] > w.frac(1, 10 ** 6))
        w.assume(Q[i, i] > w.frac(1, 10 ** 6))
    C = e.covariance_
    for i in range(d):
        w.eq(f"variance {i}", C[i, i], h[i], tol=1e-6)
        for j in range(i):
            w.eq("covariance squared", C[i, j] * C[i, j] * Q[i, i] * Q[j, j], Q[i, j] * Q[i, j] * h[i] * h[j], tol=1e-6)
            w.le("sign", w.real(0), C[i, j] * Q[i, j])
            w.le("correlation", C[i, j] * C[i, j], C[i, i] * C[j, j])


VOL = ["EwaCovariance", "EmpiricalCovariance", "HuberCovariance", "AdaptiveEwaCovariance", "DiagonalCovariance",
       "skater"]
CORR = ["EwaCovariance", "LedoitWolfCovariance", "EmpiricalCovariance", "ShrunkCovariance", "TylerCovariance",
        "DCCCovariance", "FactorCovariance", "OASCovariance"]


class _Vol:
    """The volatility model as a user would run it by hand on one series."""

    def __init__(self, w, name):
        self.w, self.name, self.n = w, name, 0
        if name == "skater":
            self.f, self.s, self.m, self.v = _skater, None, w.real(0), w.real(1)
        else:
            self.e = _cls(w, name)(**_rate(w, name))

    def forecast(self):
        if not self.n:
            return self.w.real(0), self.w.real(1)
        if self.name == "skater":
            return self.m, self.v
        return self.e.location_[0], self.e.covariance_[0, 0]

    def see(self, y):
        self.n += 1
        if self.name == "skater":
            ds, self.s = self.f(y, self.s)
            self.m, self.v = ds[0].mean, ds[0].std * ds[0].std
        else:
            self.e.partial_fit(self.w.array([y]))


def _rate(w, name):
    return {"r": w.real(0.5)} if "r" in zoo.params_of(_cls(w, name)) else {}


def _pairs(env):
    js = [dict(vol=v, corr=c, d=d, T=T) for v, c in [(v, "EwaCovariance") for v in VOL] + [("EwaCovariance", c) for c in CORR[1:]]
          for d, T in ((2, 4), (2, 7))]
    js += [dict(vol="EwaCovariance", corr="EwaCovariance", d=d, T=T) for d, T in ((1, 6), (3, 5), (2, 1), (2, 2), (6, 3), (8, 2))]
    if env.thorough:
        js += [dict(vol=v, corr=c, d=d, T=T) for v in VOL for c in CORR for d, T in ((2, 6), (3, 4))]
    return js


@harness(_pairs, la="uf", paths=4, timeout=60, vtol=1e-2)
def composition(w, vol, corr, d, T):
    """The composed estimator is the manual composition: forecast, standardise, learn the correlation, then show each
    volatility model its series; a series without a usable forecast contributes no innovation."""
    np, X = w.np, zoo.rows(w, "x", T, d)
    mod = _cond(w)
    v = mod.from_skater(_skater) if vol == "skater" else _cls(w, vol)(**_rate(w, vol))
    e = mod.ConditionalCovariance(vol=v, corr=_cls(w, corr)(**_rate(w, corr)))
    vols, rho = [_Vol(w, vol) for _ in range(d)], _cls(w, corr)(**_rate(w, corr))
    for t in range(T):
        e.partial_fit(X[t])
        eps = []
        for i in range(d):
            m, s2 = vols[i].forecast()
            z = (X[t][i] - m) / np.sqrt(np.where(s2 > _tiny(w), s2, w.real(1)))
            eps.append(np.where(s2 > _tiny(w), z, w.real(0)) if t else w.real(0))
        rho.partial_fit(w.array(eps))
        for i in range(d):
            vols[i].see(X[t][i])
        if t in (0, 1, T - 1):
            sd = w.array([np.sqrt(np.maximum(vols[i].forecast()[1], _tiny(w))) for i in range(d)])
            w.eq(f"mean {t}", e.location_, w.array([vols[i].forecast()[0] for i in range(d)]))
            H = rho.correlation_ * np.outer(sd, sd)
            w.eq(f"covariance {t}", e.covariance_, (H + H.T) / 2, tol=1e-6)
            w.eq(f"count {t}", e.n_samples_, t + 1)


@harness([dict(d=d, T=T) for d in (1, 2) for T in (1, 3, 7)], la="uf", canon=True, paths=4, timeout=60)
def defaults(w, d, T):
    """Without arguments both parts are exponentially weighted at the default rate."""
    X, mod = zoo.rows(w, "x", T, d), _cond(w)
    E = _cls(w, "EwaCovariance")
    zoo.same(w, "default", mod.ConditionalCovariance().fit(X), mod.ConditionalCovariance(vol=E(), corr=E()).fit(X))
    zoo.same(w, "one given", mod.ConditionalCovariance(vol=E()).fit(X), mod.ConditionalCovariance(corr=E()).fit(X))


@harness([dict(vol=v, T=T) for v in ("EwaCovariance", "EmpiricalCovariance", "skater") for T in (3, 5)], la="uf",
         canon=True, paths=4, timeout=60)
def diagonal_is_the_volatility_model(w, vol, T):
    """Each variance is the volatility model's own, untouched by the correlation estimator or the other series."""
    X, mod = zoo.rows(w, "x", T, 2), _cond(w)
    v = mod.from_skater(_skater) if vol == "skater" else _cls(w, vol)(**_rate(w, vol))
    e = mod.ConditionalCovariance(vol=v).fit(X)
    for i in range(2):
        one = _Vol(w, vol)
        for t in range(T):
            one.see(X[t][i])
        w.eq(f"variance {i}", e.covariance_[i, i], w.np.maximum(one.forecast()[1], _tiny(w)), tol=1e-6)


@harness([dict(which=n, d=d, power=p, at=a) for n, d, a in (("dcc", 2, 1), ("ewa", 2, 0))
          for p in (-14, 14)], la="uf", canon=True, feas=True, fork_minmax=True, paths=6,
         timeout=60, vtol=1e-5)
def correlation_has_no_units(w, which, d, power, at):
    """Measuring one series in units 2^14 times finer or coarser rescales its row and column and leaves every
    correlation alone: a fixed history, then an observation with an arbitrary coordinate."""
    mod, k = _cond(w), w.real(2.0 ** power)
    X = zoo.wide(w, d, d - 1)[-3 if which == "dcc" else -4:]
    if not w.symbolic:
        w.assume(abs(float(X[-1][d - 1])) < 1e3)
    Y = [w.array([v * k if i == at else v for i, v in enumerate(x)]) for x in X]
    fits = []
    for Z in (X, Y):
        if which == "dcc":
            e = _cls(w, "DCCCovariance")(r=w.real(0.5), vol_r=w.real(0.25))
        else:
            e = mod.ConditionalCovariance()
        fits.append(e.fit(w.array([list(z) for z in Z])).covariance_)
    A, B = fits
    for i in range(d):
        for j in range(i + 1):
            f = (k if i == at else 1) * (k if j == at else 1)
            w.eq("entry", B[i, j] / f, A[i, j], tol=1e-5)
