"""Bounds: dimension 1-5 (and 6, 8, 12 around a fixed history), any EWA state of any number of observations with positive variances, any shrinkage intensity
in [0, 1]; the running dispersion statistic over one to three observations after the burn-in."""
from vx.api import harness
from props import zoo


def _cls(w, name):
    return w.mod("precise.registry").estimator_from_name(name)


def _pair(w, name, d, r=0.5, pd=True, kw=None, **k):
    rr = w.real(r)
    a, b = zoo.related(w, [(_cls(w, "EwaCovariance"), {"r": rr}), (_cls(w, name), {"r": rr, **(kw or {})})], d,
                       pd=pd, **k)
    return a.covariance_, b, a


def _shrinks(w, C, S, d):
    """The laws common to shrinkage towards the scaled identity."""
    w.eq("trace", w.np.trace(C), w.np.trace(S))
    for i in range(d):
        for j in range(i):
            w.eq("symmetric", C[i, j], C[j, i])


@harness([dict(r=r, delta=x, d=d) for r in (0.5, 0.05) for x in ("sym", 0, 1) for d in (1, 2, 3, 4, 5)], la="uf",
         feas=True, paths=4, timeout=60, havoc=True, validate=False)
def fixed_identity(w, r, delta, d):
    """Towards the identity: (1 - delta) EWA + delta * (average variance) on the diagonal."""
    de = w.var("delta", lo=0, hi=1) if delta == "sym" else w.real(delta)
    S, e, _ = _pair(w, "ShrunkCovariance", d, r, kw={"delta": de, "target": "identity"})
    C = e.covariance_
    mu = w.np.trace(S) / d
    for i in range(d):
        for j in range(d):
            w.eq("entry", C[i, j], (1 - de) * S[i, j] + (de * mu if i == j else 0))
    _shrinks(w, C, S, d)


@harness([dict(r=r, delta=x, d=d) for r in (0.5, 0.05) for x in ("sym", 0, 1) for d in (1, 2, 3, 4, 5)], la="uf",
         feas=True, paths=6, timeout=60, havoc=True, validate=False)
def fixed_constant_correlation(w, r, delta, d):
    """Towards constant correlation: variances kept, every correlation moved towards their average."""
    de = w.var("delta", lo=0, hi=1) if delta == "sym" else w.real(delta)
    S, e, _ = _pair(w, "ShrunkCovariance", d, r, kw={"delta": de})
    C = e.covariance_
    s = [w.np.sqrt(S[i, i]) for i in range(d)]
    rho = [S[i, j] / (s[i] * s[j]) for i in range(d) for j in range(d) if i != j]
    bar = sum(rho, w.real(0)) / len(rho) if rho else w.real(0)
    for i in range(d):
        w.eq("variance kept", C[i, i], S[i, i])
        for j in range(d):
            if i != j:
                w.eq("covariance", C[i, j], (1 - de) * S[i, j] + de * bar * s[i] * s[j], tol=1e-6)


@harness([dict(d=d, still=k, delta=x) for d, k in ((2, 0), (3, 1), (3, 2), (4, 0)) for x in (0.25, 1)], la="uf", feas=True,
         canon=True, paths=6, timeout=60)
def a_still_variable_is_uncorrelated(w, d, still, delta):
    """A variable that never moves has correlation zero with every other, and counts as such in the average: a fixed
    history in which it is constant, then one observation with an arbitrary coordinate."""
    X = [list(x) for x in zoo.wide(w, d, (still + 1) % d)]
    for x in X:
        x[still] = w.real(2)
    r, de = w.real(0.5), w.real(delta)
    S = _cls(w, "EwaCovariance")(r=r).fit(w.array(X)).covariance_
    C = _cls(w, "ShrunkCovariance")(r=r, delta=de).fit(w.array(X)).covariance_
    live = [i for i in range(d) if i != still]
    for i in live:
        w.assume(S[i, i] > (0 if w.symbolic else 1e-9))
    s = {i: w.np.sqrt(S[i, i]) for i in live}
    bar = sum((S[i, j] / (s[i] * s[j]) for i in live for j in live if i != j), w.real(0)) / (d * (d - 1))
    for i in live:
        w.eq("variance kept", C[i, i], S[i, i], tol=1e-6)
        for j in live:
            if j < i:
                w.eq("covariance", C[i, j], (1 - de) * S[i, j] + de * bar * s[i] * s[j], tol=1e-6)


@harness([dict(r=r, d=d) for r in (0.5, 0.25, 0.05, 1.0) for d in (1, 2, 3, 4)], la="uf", feas=True, paths=6,
         timeout=90, havoc=True, validate=False)
def oas_intensity(w, r, d):
    """OAS: the published intensity at the effective sample size 1/r, between the EWA and the scaled identity."""
    S, e, _ = _pair(w, "OASCovariance", d, r)
    C = e.covariance_
    n = w.np.maximum(1 / w.real(r), w.real(2))
    tr, tr2 = w.np.trace(S), sum((S[i, j] * S[i, j] for i in range(d) for j in range(d)), w.real(0))
    num = (1 - w.frac(2, d)) * tr2 + tr * tr
    den = (n + 1 - w.frac(2, d)) * (tr2 - tr * tr / d)
    if w.fork(den <= 0):
        rho = w.real(1)
    else:
        rho = w.np.minimum(w.np.maximum(num / den, w.real(0)), w.real(1))
    for i in range(d):
        for j in range(d):
            w.eq("entry", C[i, j], (1 - rho) * S[i, j] + (rho * tr / d if i == j else 0))
    _shrinks(w, C, S, d)


@harness([dict(name=n, r=r, d=2) for n in ("OASCovariance", "LedoitWolfCovariance") for r in (0.5, 0.05)],
         la="uf", feas=True, paths=8, timeout=60, havoc=True, validate=False, required=False)
def never_overshoots(w, name, r, d):
    """Off-diagonals keep their sign and only shrink; variances move towards their average, never past it."""
    S, e, _ = _pair(w, name, d, r)
    C = e.covariance_
    w.le("sign", w.real(0), C[0, 1] * S[0, 1])
    w.le("shrinks", C[0, 1] * C[0, 1], S[0, 1] * S[0, 1])
    gap, was = C[0, 0] - C[1, 1], S[0, 0] - S[1, 1]
    w.le("variance order", w.real(0), gap * was)
    w.le("variance gap shrinks", gap * gap, was * was)
    w.eq("trace", C[0, 0] + C[1, 1], S[0, 0] + S[1, 1])


@harness([dict(name=n, d=d, r=r, free=f) for n in ("OASCovariance", "identity", "constant") for d, f in ((6, 5), (8, 0), (12, 7))
          for r in (0.5, 0.1)], la="uf", feas=True, paths=6, timeout=60, canon=True, fork_minmax=True)
def many_variables(w, name, d, r, free):
    """The same formulas with more variables than the effective sample size: a fixed history of seven observations,
    then one with an arbitrary value in one coordinate."""
    rr, de = w.real(r), w.real(0.375)
    ewa = _cls(w, "EwaCovariance")(r=rr)
    e = _cls(w, "OASCovariance")(r=rr) if name == "OASCovariance" else _cls(w, "ShrunkCovariance")(
        r=rr, delta=de, **({"target": "identity"} if name == "identity" else {}))
    for row in zoo.broad(w, d, 7, free):
        ewa.partial_fit(row)
        e.partial_fit(row)
    S, C = ewa.covariance_, e.covariance_
    tr = w.np.trace(S)
    if name == "OASCovariance":
        n = max(1 / rr, w.real(2))
        tr2 = sum((S[i, j] * S[i, j] for i in range(d) for j in range(d)), w.real(0))
        num, den = (1 - w.frac(2, d)) * tr2 + tr * tr, (n + 1 - w.frac(2, d)) * (tr2 - tr * tr / d)
        w.assume(den > (0 if w.symbolic else 1e-9))
        de = w.real(1) if w.fork(num >= den) else num / den
    if name == "constant":
        s = [w.np.sqrt(S[i, i]) for i in range(d)]
        bar = sum((S[i, j] / (s[i] * s[j]) for i in range(d) for j in range(d) if i != j), w.real(0)) / (d * (d - 1))
        T = lambda i, j: S[i, i] if i == j else bar * s[i] * s[j]
    else:
        T = lambda i, j: tr / d if i == j else w.real(0)
    for i in range(d):
        for j in range(i + 1):
            w.eq("entry", C[i, j], (1 - de) * S[i, j] + de * T(i, j), tol=1e-6)
            w.eq("symmetric", C[i, j], C[j, i])


HISTORY = zoo.WIDE[:8]


@harness([dict(d=d, known=k, r=r, free=f) for r in (0.5, 0.2) for k in (5, 6, 8)
          for d, f in ((1, 0), (2, 0), (2, 1), (3, 0), (3, 2), (4, 1), (5, 0), (6, 3))], la="uf", feas=True, paths=8, timeout=60, canon=True,
         fork_minmax=True)
def ledoit_wolf_intensity(w, d, known, r, free):
    """Ledoit-Wolf: no shrinkage during the burn-in; afterwards the running dispersion of the observed scatter about
    the estimate, over the effective sample size and capped at the distance to the scaled identity.  A fixed history
    of five to eight observations, then one with an arbitrary value in any coordinate."""
    H = [[w.real(v) for v in row[:d]] for row in HISTORY[:known]]
    H.append([w.var("x") if j == free else w.real(j + 1) for j in range(d)])
    rr, pi = w.real(r), w.real(0)
    e, ewa = _cls(w, "LedoitWolfCovariance")(r=rr), _cls(w, "EwaCovariance")(r=rr)
    for t, row in enumerate(H):
        row = w.array(row)
        if t >= 5:
            S, m = ewa.covariance_, ewa.location_
            q = sum((((row[i] - m[i]) * (row[j] - m[j]) - S[i, j]) ** 2 for i in range(d) for j in range(d)),
                    w.real(0)) / d
            pi = (1 - rr) * pi + rr * q
        ewa.partial_fit(row)
        e.partial_fit(row)
        S, C = ewa.covariance_, e.covariance_
        w.eq(f"mean {t}", e.location_, ewa.location_)
        w.eq(f"trace {t}", w.np.trace(C), w.np.trace(S))
        if t < 5:
            w.eq(f"burn-in {t}", C, S)
            continue
        mu = w.np.trace(S) / d
        d2 = sum(((S[i, j] - (mu if i == j else 0)) ** 2 for i in range(d) for j in range(d)), w.real(0)) / d
        if d == 1:
            w.eq(f"one variable {t}", C, S, tol=1e-6)
            continue
        w.assume(d2 > (0 if w.symbolic else 1e-9))
        rho = w.real(1) if w.fork(pi * rr >= d2) else pi * rr / d2
        for i in range(d):
            for j in range(d):
                w.eq(f"entry {t}", C[i, j], (1 - rho) * S[i, j] + (rho * mu if i == j else 0))


@harness([dict(d=d, name=n, T=T) for n in ("LedoitWolfCovariance", "OASCovariance", "ShrunkCovariance")
          for d, T in ((1, 8), (2, 8), (3, 9), (2, 3), (6, 2), (5, 6))], la="uf", paths=6, timeout=60, vtol=1e-3)
def means_and_streams(w, d, name, T):
    """Shrinkage never touches the mean, and preserves total variance (or each variance) on whole streams."""
    X = zoo.rows(w, "x", T, d)
    r = w.real(0.5)
    a = _cls(w, "EwaCovariance")(r=r).fit(X)
    b = _cls(w, name)(r=r).fit(X)
    w.eq("mean", b.location_, a.location_)
    w.eq("n", b.n_samples_, a.n_samples_)
    w.eq("trace", w.np.trace(b.covariance_), w.np.trace(a.covariance_), tol=1e-6)


@harness([dict(name=n) for n in ("LedoitWolfCovariance", "OASCovariance", "ShrunkCovariance")], la="uf", paths=6,
         timeout=60, vtol=1e-3)
def default_rate(w, name):
    """The same at default parameters, past the twenty-observation burn-in."""
    X = zoo.rows(w, "x", 22, 2)
    a, b = _cls(w, "EwaCovariance")().fit(X), _cls(w, name)().fit(X)
    w.eq("mean", b.location_, a.location_)
    w.eq("trace", w.np.trace(b.covariance_), w.np.trace(a.covariance_), tol=1e-6)
