"""Bounds: dimension 1-2 (3 where no inverse is needed; 3-6 after a fixed history), any state with a non-singular estimate after any number of
observations past the burn-in, one more observation of any size, any rate, cutoff and cap in range; whole streams of
up to 8 observations."""
from vx.api import harness
from props import zoo


def _cls(w, name):
    return w.mod("precise.registry").estimator_from_name(name)


def _pair(w, name, d, r, kw=None, **k):
    return zoo.related(w, [(_cls(w, "EwaCovariance"), {"r": r}), (_cls(w, name), {"r": r, **(kw or {})})], d,
                       pd=True, **k)


def _maha(w, S, v, d):
    if d == 1:
        return v[0] * v[0] / S[0, 0]
    if d > 2:
        return zoo.quad_inv(w, S, v)
    det = S[0, 0] * S[1, 1] - S[0, 1] * S[1, 0]
    return (S[1, 1] * v[0] * v[0] - 2 * S[0, 1] * v[0] * v[1] + S[0, 0] * v[1] * v[1]) / det


@harness([dict(d=d, r=r) for d in (1, 2) for r in (0.5, 0.2, 1.0)], la="exact", la_n=2, canon=True, feas=True, paths=8,
         timeout=60, havoc=True, validate=False)
def huber_weight(w, d, r):
    """An observation within the cutoff moves mean and covariance exactly as in the EWA; one beyond it moves them as
    its projection onto the cutoff would."""
    rr, c = w.real(r), w.var("c", lo=0.1, hi=4)
    ewa, e = _pair(w, "HuberCovariance", d, rr, kw={"c": c})
    S, m = e.covariance_, e.location_
    x = w.arr("x", d)
    v = x - m
    q, cut = _maha(w, S, v, d), c * c * d
    e.partial_fit(x)
    if w.fork(q <= cut):
        w.eq("inlier mean", e.location_, m + rr * v)
        w.eq("inlier covariance", e.covariance_, (1 - rr) * S + rr * w.np.outer(v, v), tol=1e-6)
    else:
        wt = w.np.sqrt(cut / q)
        w.eq("outlier mean", e.location_, m + rr * wt * v, tol=1e-6)
        w.eq("outlier covariance", e.covariance_, (1 - rr) * S + rr * (cut / q) * w.np.outer(v, v), tol=1e-6)


@harness([dict(d=d, r=r) for d in (1, 2) for r in (0.5, 0.2)], la="exact", la_n=2, canon=True, feas=True, paths=6,
         timeout=90, havoc=True, validate=False, required=False)
def huber_bounded_influence(w, d, r):
    """No single observation, however large, raises any variance by more than r c^2 d times itself."""
    rr, c = w.real(r), w.var("c", lo=0.1, hi=4)
    ewa, e = _pair(w, "HuberCovariance", d, rr, kw={"c": c})
    S = e.covariance_
    e.partial_fit(zoo.next_row(w, e, d))
    C = e.covariance_
    for i in range(d):
        w.le("variance", C[i, i], (1 - rr + rr * c * c * d) * S[i, i])
        w.le("forgets at most r", (1 - rr) * S[i, i], C[i, i])


@harness([dict(est=e, d=d, T=T) for e in ("HuberCovariance", "AdaptiveEwaCovariance") for d in (1, 2, 3)
          for T in (1, 3, 5)], la="uf", canon=True, paths=4, timeout=60)
def burn_in_is_the_sample_average(w, est, d, T):
    """During the burn-in the robust and adaptive estimators report the plain sample moments."""
    X = zoo.rows(w, "x", T, d)
    a = _cls(w, "EmpiricalCovariance")().fit(X)
    b = _cls(w, est)(r=w.real(0.5)).fit(X)
    zoo.same(w, "burn-in", b, a)


@harness([dict(d=d, T=T, which=k) for d in (1, 2, 3) for T in (6, 7) for k in ("calm", "repeat")], la="uf", canon=True,
         feas=True, paths=6, timeout=60, validate=False)
def calm_is_ewa(w, d, T, which):
    """Adaptive forgetting with the cap at the baseline rate is the plain EWA, whatever the data."""
    X = zoo.rows(w, "x", T, d)
    r = w.real(0.5)
    a = _cls(w, "EwaCovariance")(r=r).fit(X)
    b = _cls(w, "AdaptiveEwaCovariance")(r=r, max_r=r).fit(X)
    w.eq("covariance", b.covariance_, a.covariance_)
    w.eq("mean", b.location_, a.location_)


HISTORY = [[3, -1], [0.5, 2], [-2, 0.25], [1, -3], [0.25, 1.5], [4, 1], [-1, -2.5], [2, 0.5], [30, -20]]


@harness([dict(d=d, r=r, known=k, free=f) for d, f in ((1, 0), (2, 0), (2, 1)) for r in (0.5, 0.2) for k in (5, 6, 8, 9)],
         la="exact", la_n=2, canon=True, feas=True, fork_minmax=True, paths=10, timeout=90)
def adaptive_rate(w, d, r, known, free):
    """The forgetting rate is r times the smoothed surprise (one tenth of Mahalanobis distance squared over d, nine
    tenths of the previous), never below r nor above the cap.  A fixed history, calm or with an outlier, then an
    observation with an arbitrary coordinate; any cap."""
    rr, cap = w.real(r), w.real(0.75)
    H = [[w.real(v) for v in row[:d]] for row in HISTORY[:known]]
    H.append([w.var("x") if j == free else w.real(j + 1) for j in range(d)])
    e, s = _cls(w, "AdaptiveEwaCovariance")(r=rr, max_r=cap), w.real(1)
    for t, row in enumerate(H):
        x = w.array(row)
        if t < 5:
            e.partial_fit(x)
            continue
        S, m = e.covariance_, e.location_
        v = x - m
        s = w.frac(9, 10) * s + w.frac(1, 10) * _maha(w, S, v, d) / d
        rate = rr if w.fork(s <= 1) else (cap if w.fork(rr * s >= cap) else rr * s)
        e.partial_fit(x)
        w.eq(f"covariance {t}", e.covariance_, (1 - rate) * S + rate * w.np.outer(v, v), tol=1e-6)
        w.eq(f"mean {t}", e.location_, (1 - rate) * m + rate * x, tol=1e-6)


@harness([dict(d=d, r=r) for d in (1, 2) for r in (0.5, 0.05)],
         la="exact", la_n=2, canon=True, feas=True, fork_minmax=True, paths=10, timeout=90, havoc=True, validate=False)
def adaptive_rate_from_any_state(w, d, r):
    """The first adaptive step after any burn-in, for any cap."""
    rr, cap = w.real(r), w.var("cap", lo=r, hi=1)
    (e,) = zoo.related(w, [(_cls(w, "AdaptiveEwaCovariance"), {"r": rr, "max_r": cap})], d, pd=True,
                       exact_n=5 if r == 0.5 else 20, fixed={"sbar": w.real(1)})
    S, m = e.covariance_, e.location_
    x = w.arr("x", d)
    v = x - m
    s = w.frac(9, 10) + w.frac(1, 10) * _maha(w, S, v, d) / d
    rate = rr if w.fork(rr * s <= rr) else (cap if w.fork(rr * s >= cap) else rr * s)
    e.partial_fit(x)
    w.eq("covariance", e.covariance_, (1 - rate) * S + rate * w.np.outer(v, v), tol=1e-6)
    w.eq("mean", e.location_, (1 - rate) * m + rate * x, tol=1e-6)


@harness([dict(d=d, known=k) for d in (1, 2) for k in (1, 2, 3, 5, 7, 9)], la="exact", la_n=2, canon=True, feas=True,
         fork_minmax=True, paths=8, timeout=90)
def tyler_directions_only(w, d, known):
    """Tyler's estimate sees only the direction of an observation from the mean: neither its distance nor its side
    matters."""
    H = w.array([[w.real(v) for v in row[:d]] for row in HISTORY[:known]])
    k, s = w.var("k", lo=-4, hi=4), w.var("s", lo=0.01, hi=1000)
    v = w.array([w.real(1), k][:d])
    fits = []
    for f in (1, s, -s):
        e = _cls(w, "TylerCovariance")(r=w.real(0.5)).fit(H)
        e.partial_fit(e.location_ + f * v)
        fits.append(e.covariance_)
    w.eq("distance", fits[1], fits[0], tol=1e-5)
    w.eq("antipode", fits[2], fits[0], tol=1e-5)


@harness([dict(r=r, known=k) for r in (0.5, 0.2) for k in (2, 3, 5, 7)], la="exact", la_n=2, canon=True,
         feas=True, fork_minmax=True, paths=10, timeout=90)
def tyler_step(w, r, known):
    """One Tyler step mixes the shape with d v v^T / (v^T C^-1 v) at rate r (1/n in the burn-in), and is reported as a
    correlation.  A fixed history of two variables, then an observation in any direction."""
    rr, C, m = w.real(r), w.array([[w.real(1), w.real(0)], [w.real(0), w.real(1)]]), None
    k = w.var("k", lo=-4, hi=4)
    e = _cls(w, "TylerCovariance")(r=rr)
    for t in range(known + 1):
        if t < known:
            x = w.array([w.real(v) for v in HISTORY[t][:2]])
        else:
            x = m + w.array([w.real(1), k])
        e.partial_fit(x)
        if t:
            v = x - m
            lr = w.frac(1, t + 1) if t + 1 <= 5 else rr
            N = (1 - lr) * C + lr * 2 * w.np.outer(v, v) / _maha(w, C, v, 2)
            C = N * 2 / (N[0, 0] + N[1, 1])
        m = e.location_
        R = e.covariance_[0, 1]
        w.eq(f"correlation {t}", R * R * C[0, 0] * C[1, 1], C[0, 1] * C[0, 1], tol=1e-6)
        if w.symbolic:
            w.assume(C[0, 0] > 0)
            w.assume(C[1, 1] > 0)
        w.le(f"sign {t}", w.real(0), R * C[0, 1])


@harness([dict(d=d, T=T) for d in (1, 2, 3) for T in (1, 2, 6)], la="uf", canon=True, paths=6, abnormal=0, timeout=60,
         vtol=1e-2)
def tyler_is_a_correlation(w, d, T):
    """Tyler's covariance has a unit diagonal from the first observation on, for every stream."""
    X = zoo.rows(w, "x", T, d)
    e = _cls(w, "TylerCovariance")(r=w.real(0.5)).fit(X)
    w.eq("diagonal", w.np.diag(e.covariance_), w.np.ones(d))
    w.eq("mean", e.location_, _cls(w, "EwaCovariance")(r=w.real(0.5)).fit(X).location_)


@harness([dict(d=d, at=k) for d in (1, 2, 3) for k in (1, 3, 6)], la="uf", canon=True, feas=True, paths=4, abnormal=0,
         timeout=60, vtol=1e-2)
def tyler_ignores_no_move(w, d, at):
    """An observation equal to the mean has no direction and leaves the shape as it was."""
    e = _cls(w, "TylerCovariance")(r=w.real(0.5)).fit(zoo.rows(w, "x", max(at, 2), d))
    before, m = e.covariance_, e.location_
    e.partial_fit(m)
    w.eq("shape", e.covariance_, before)
    w.eq("mean", e.location_, m)


@harness([dict(est=e, d=d, free=f) for e in ("HuberCovariance", "AdaptiveEwaCovariance", "TylerCovariance")
          for d, f in ((3, 1), (4, 0), (4, 3), (6, 2))], la="exact", la_n=6, canon=True, feas=True, fork_minmax=True, paths=10,
         timeout=120)
def many_variables(w, est, d, free):
    """The same steps in three to six variables: a fixed history of nine observations, then one whose coordinate is
    arbitrary."""
    rr, c, cap, s = w.real(0.5 if d < 5 else 0.125), w.real(20), w.real(0.75), w.real(1)
    burn = 5 if d < 5 else 8
    kw = {"HuberCovariance": {"c": c}, "AdaptiveEwaCovariance": {"max_r": cap}}.get(est, {})
    e = _cls(w, est)(r=rr, **kw)
    C, m = w.np.eye(d), w.np.zeros(d)
    for t, x in enumerate(zoo.wide(w, d, free)[-3 if est[0] == "T" else 0:]):
        e.partial_fit(x)
        lr = w.frac(1, t + 1) if t < burn else rr
        v = x - m
        if t == 0:
            m, C = x, (C if est[0] == "T" else w.np.zeros((d, d)))
            continue
        if est[0] == "T":
            N = (1 - lr) * C + lr * d * w.np.outer(v, v) / _maha(w, C, v, d)
            m, C = (1 - lr) * m + lr * x, N * d / w.np.trace(N)
            w.eq(f"mean {t}", e.location_, m, tol=1e-6)
            if t < 2:
                continue
            R = e.covariance_
            for i in range(d):
                w.eq(f"unit {t}", R[i, i], w.real(1), tol=1e-6)
                for j in range(i):
                    w.eq(f"correlation {t}", R[i, j] * R[i, j] * C[i, i] * C[j, j], C[i, j] * C[i, j], tol=1e-6)
            continue
        if t < burn:
            n = t + 1
            C = (1 - w.frac(1, n)) * C + w.frac(1, n) * w.np.outer(v, v) * (1 - w.frac(1, n))
            m = m + w.frac(1, n) * v
        else:
            q = _maha(w, C, v, d)
            if est[0] == "H":
                cut = c * c * d
                far = not w.fork(q <= cut)
                k2 = cut / q if far else w.real(1)
                C, m = (1 - lr) * C + lr * k2 * w.np.outer(v, v), m + lr * w.np.sqrt(k2) * v
            else:
                s = w.frac(9, 10) * s + w.frac(1, 10) * q / d
                lr = rr if w.fork(s <= 1) else (cap if w.fork(rr * s >= cap) else rr * s)
                C, m = (1 - lr) * C + lr * w.np.outer(v, v), (1 - lr) * m + lr * x
        w.eq(f"covariance {t}", e.covariance_, C, tol=1e-6)
        w.eq(f"mean {t}", e.location_, m, tol=1e-6)
        if t < 8:
            C, m = e.covariance_, e.location_
