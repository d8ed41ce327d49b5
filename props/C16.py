"""Bounds: dimension 1-4 (5-8 with a fixed history or by structure), 1-5 requested blocks, any damping in [0, 1], any EWA state of any number of observations with
positive variances; estimated damping also on whole streams of 3-9 observations."""
from vx.api import harness
from props import zoo

SCHUR = ["SchurCovariance", "SchurConditionalCovariance", "SchurLedoitWolfCovariance"]


def _cls(w, name):
    return w.mod("precise.registry").estimator_from_name(name)


def _pair(w, name, d, r=0.5, pd=True, kw=None, **k):
    rr = w.real(r)
    a, b = zoo.related(w, [(_cls(w, "EwaCovariance"), {"r": rr}), (_cls(w, name), {"r": rr, **(kw or {})})], d,
                       pd=pd, **k)
    return a.covariance_, b, a


def _damped(w, S, d, nb, g):
    bid = zoo.block_of(d, nb)
    return w.array([[S[i, j] * (g if bid[i] != bid[j] else 1) for j in range(d)] for i in range(d)])


_SHAPES = [(1, 1), (1, 3), (2, 1), (2, 2), (2, 5), (3, 1), (3, 2), (3, 3), (4, 2), (4, 3), (5, 2), (6, 2), (6, 4), (8, 3), (9, 4), (11, 3)]


@harness([dict(d=d, nb=nb, g=g) for d, nb in _SHAPES for g in ("sym", 0, 1)], la="uf", canon=True, paths=4, timeout=60,
         havoc=True, validate=False)
def damped_coupling(w, d, nb, g):
    """Within blocks the EWA covariance, across blocks gamma times it, floored to positive definite."""
    gamma = w.var("gamma", lo=0, hi=1) if g == "sym" else w.real(g)
    S, e, _ = _pair(w, "SchurCovariance", d, kw={"n_blocks": nb, "gamma": gamma})
    w.eq("covariance", e.covariance_, zoo.floor(w, _damped(w, S, d, nb, gamma)))


@harness([dict(g=g, which=n) for g in (0, 0.5, 1) for n in ("SchurCovariance",)], la="exact", la_n=2, canon=True,
         paths=6, feas=True, timeout=60, havoc=True, validate=False, required=False)
def floor_is_invisible(w, g, which):
    """A damped matrix whose smallest eigenvalue is at least 1e-8 is reported as it is (two variables)."""
    S, e, _ = _pair(w, which, 2, kw={"n_blocks": 2, "gamma": w.real(g)})
    t = w.real(1) / 100000000
    c = S[0, 1] * w.real(g)
    w.assume(S[0, 0] >= t)
    w.assume(S[1, 1] >= t)
    w.assume((S[0, 0] - t) * (S[1, 1] - t) >= c * c)
    C = e.covariance_
    w.eq("diagonal", w.array([C[0, 0], C[1, 1]]), w.array([S[0, 0], S[1, 1]]))
    w.eq("cross", C[0, 1], c)


@harness([dict(which=n, d=d, T=T, r=r) for n in SCHUR[::2] for d, T, r in ((1, 7, 0.5), (2, 3, 0.5), (2, 8, 0.5),
                                                                    (3, 7, 0.5), (3, 6, 1.0), (6, 3, 0.5))]
         + [dict(which=n, d=2, T=22, r=None) for n in SCHUR[::2]], la="uf", canon=True, paths=4, timeout=60, vtol=1e-2)
def one_block_is_ewa(w, which, d, T, r):
    """With a single block there is no cross-block coupling to damp: the (floored) EWA covariance."""
    X = zoo.rows(w, "x", T, d)
    kw = {} if r is None else {"r": w.real(r)}
    ewa = _cls(w, "EwaCovariance")(**kw).fit(X)
    e = _cls(w, which)(**kw, n_blocks=1).fit(X)
    w.eq("covariance", e.covariance_, zoo.floor(w, ewa.covariance_), tol=1e-6)
    w.eq("mean", e.location_, ewa.location_)


@harness([dict(d=d, r=r) for d in (1, 2, 3) for r in (0.5, 1.0, 0.05)], la="uf", canon=True, paths=6, feas=True,
         timeout=60, havoc=True, validate=False)
def one_block_conditional(w, d, r):
    """The same for the conditional estimator, floored in correlation units; its damping reads 1."""
    S, e, ewa = _pair(w, "SchurConditionalCovariance", d, r=r, kw={"n_blocks": 1})
    sd = w.np.sqrt(w.np.clip(w.np.diag(S), w.frac(1, 10 ** 12), None))
    w.eq("covariance", e.covariance_, zoo.floor(w, _corr(w, S, d)) * w.np.outer(sd, sd), tol=1e-6)
    w.eq("gamma", e.gamma_, 1.0)
    w.eq("mean", e.location_, ewa.location_)


def _corr(w, S, d):
    s = [w.np.sqrt(S[i, i]) for i in range(d)]
    return w.array([[w.real(1) if i == j else S[i, j] / (s[i] * s[j]) for j in range(d)] for i in range(d)])


@harness([dict(d=d, nb=nb, end=e) for d, nb in ((1, 1), (1, 3)) for e in (0, 1, "sym")], la="exact", la_n=2, feas=True,
         canon=True, paths=6, timeout=100, havoc=True, validate=False, required=False)
def geodesic_one_variable(w, d, nb, end):
    """With one variable the geodesic estimate is the EWA variance at every gamma."""
    gamma = w.var("gamma", lo=0, hi=1) if end == "sym" else w.real(end)
    kw = {"n_blocks": nb, "gamma": gamma, "interpolation": "geodesic"}
    S, e, _ = _pair(w, "SchurCovariance", d, kw=kw)
    w.assume(S[0, 0] >= w.frac(1, 10 ** 8))
    w.eq("variance", e.covariance_, S, tol=1e-6)


@harness([dict(d=d, nb=nb, g=g) for d, nb in ((2, 2), (2, 1), (3, 2), (4, 2), (2, 5), (3, 3), (3, 7)) for g in (0, 0.25, 1)],
         la="uf", canon=True, paths=4, timeout=60, havoc=True, validate=False)
def geodesic_runs_from_blocks_to_full(w, d, nb, g):
    """The geodesic estimate lies on the affine-invariant geodesic from the block diagonal to the full EWA."""
    kw = {"n_blocks": nb, "gamma": w.real(g), "interpolation": "geodesic"}
    S, e, _ = _pair(w, "SchurCovariance", d, kw=kw)
    A, B = zoo.floor(w, _damped(w, S, d, nb, 0)), zoo.floor(w, S)
    if not w.symbolic and g in (0, 1):
        w.eq("endpoint", e.covariance_, B if g else A, tol=1e-5)
    w.eq("covariance", e.covariance_, zoo.geodesic(w, A, B, w.real(g)), tol=1e-5)


@harness([dict(d=d, nb=nb, r=r) for d, nb in ((2, 2), (3, 2), (3, 3), (4, 2), (1, 1), (2, 6), (3, 5), (1, 4), (5, 2), (6, 3), (7, 2)) for r in (0.5, 0.05)], la="uf",
         canon=True, paths=4, timeout=60, havoc=True, validate=False)
def conditional_reliability(w, d, nb, r):
    """gamma_ of the conditional estimator is the coupling reliability sum max(rho^2 - (1 + rho^2)/n, 0)/sum rho^2
    over cross-block correlations, with n the effective sample size, and lies in [0, 1]."""
    n = w.var("count", lo=2, hi=200, integer=True)
    S, e, _ = _pair(w, "SchurConditionalCovariance", d, r=r, kw={"n_blocks": nb}, exact_n=n)
    e.covariance_
    g = e.gamma_
    bid = zoo.block_of(d, nb)
    R = _corr(w, S, d)
    rho = [R[i, j] for i in range(d) for j in range(d) if bid[i] != bid[j]]
    if not rho:
        return w.eq("no coupling", g, 1.0)
    np = w.np
    ne = np.maximum(w.real(2), np.minimum(w.num(n) * w.real(1), (2 - w.real(r)) / w.real(r)))
    num = sum((np.maximum(x * x - (1 + x * x) / ne, w.real(0)) for x in rho), w.real(0))
    den = sum((x * x for x in rho), w.real(0))
    w.assume(den > 0)
    w.eq("gamma", g, np.minimum(np.maximum(num / den, w.real(0)), w.real(1)))
    w.le("gamma >= 0", w.real(0), g)
    w.le("gamma <= 1", g, w.real(1))


@harness([dict(d=d, nb=nb, known=k, free=f) for k in (5, 7) for d, nb in ((2, 2), (3, 2), (3, 3), (4, 2), (2, 4), (4, 4), (5, 2), (6, 3))
          for f in (0, 1)], la="exact", la_n=1, feas=True, canon=True, paths=6, abnormal=0, timeout=80, vtol=1e-3,
         required=False)
def conditional_assembly(w, d, nb, known, free):
    """The conditional estimator's covariance: damped ridge regressions of each block on its predecessors,
    reassembled.  A fixed history, then one observation with an arbitrary coordinate."""
    r = w.real(0.5)
    H = [[w.real(v) for v in row[:d]] for row in HISTORY[:known]]
    H.append([w.var("x") if j == free else w.real(j + 1) for j in range(d)])
    X = w.array(H)
    S = _cls(w, "EwaCovariance")(r=r).fit(X).covariance_
    e = _cls(w, "SchurConditionalCovariance")(r=r, n_blocks=nb).fit(X)
    C = e.covariance_
    g, np = e.gamma_, w.np
    R = _corr(w, S, d)
    ne = w.real(3)                        # min(count, (2 - r)/r) = 3 here
    G = [[w.real(0)] * d for _ in range(d)]
    bl = zoo.blocks(d, nb)
    for i in range(*bl[0]):
        for j in range(*bl[0]):
            G[i][j] = R[i, j]
    for a, b in bl[1:]:
        k, m = a, b - a
        ridge = np.minimum(w.real(k) / ne, w.real(0.9))
        A = w.array([[R[i, j] * (1 if i == j else 1 - ridge) + (w.frac(1, 10 ** 10) if i == j else 0)
                      for j in range(k)] for i in range(k)])
        B = np.linalg.solve(A, R[:k, a:b])
        Sk = zoo.floor(w, R[a:b, a:b] - R[:k, a:b].T @ B)
        P = w.array([row[:k] for row in G[:k]])
        low = (B * g).T @ P
        top = (1 - g) * R[a:b, a:b] + g * Sk + low @ (B * g)
        for i in range(m):
            for j in range(k):
                G[a + i][j] = G[j][a + i] = low[i, j]
            for j in range(m):
                G[a + i][a + j] = top[i, j]
    sd = np.sqrt(np.diag(S))
    w.eq("covariance", C, zoo.floor(w, w.array(G)) * np.outer(sd, sd), tol=1e-6)


HISTORY = zoo.WIDE[:8]


@harness([dict(d=d, nb=nb, known=k, free=f, r=r) for r in (0.5, 0.2) for k in (5, 6, 8)
          for d, nb in ((2, 2), (3, 2), (4, 2), (3, 5), (4, 4), (5, 2), (6, 4)) for f in (0, 1) if d < 5 and nb != 4 or k == 6 and r == 0.5], la="uf", feas=True, canon=True,
         fork_minmax=True, paths=8, timeout=60, vtol=1e-3)
def ledoit_wolf_reliability(w, d, nb, known, free, r):
    """gamma_ of the Schur-Ledoit-Wolf estimator: one minus the running dispersion of the cross-block scatter over
    the squared cross-block coupling, clipped to [0, 1]; 1 during the burn-in."""
    H = [[w.real(v) for v in row[:d]] for row in HISTORY[:known]]
    H.append([w.var("x") if j == free else w.real(j + 1) for j in range(d)])
    rr, pi, bid = w.real(r), w.real(0), zoo.block_of(d, nb)
    cross = [(i, j) for i in range(d) for j in range(d) if bid[i] != bid[j]]
    e, ewa = _cls(w, "SchurLedoitWolfCovariance")(r=rr, n_blocks=nb), _cls(w, "EwaCovariance")(r=rr)
    for t, row in enumerate(H):
        row = w.array(row)
        if t >= 5:
            S, m = ewa.covariance_, ewa.location_
            q = sum((((row[i] - m[i]) * (row[j] - m[j]) - S[i, j]) ** 2 for i, j in cross), w.real(0))
            pi = (1 - rr) * pi + rr * q
        ewa.partial_fit(row)
        e.partial_fit(row)
        S, C = ewa.covariance_, e.covariance_
        m2 = sum((S[i, j] ** 2 for i, j in cross), w.real(0))
        if t == 0:
            w.eq("first", e.gamma_, 1.0)
            continue
        if w.fork(m2 <= 0):
            g = w.real(1)
        elif w.fork(pi * rr >= m2):
            g = w.real(0)
        else:
            g = 1 - pi * rr / m2
        w.eq(f"gamma {t}", e.gamma_, g)
        w.eq(f"covariance {t}", C, zoo.floor(w, _damped(w, S, d, nb, g)), tol=1e-6)


@harness([dict(which=n, d=d, nb=nb, T=T) for n in SCHUR[1:] for d, nb in ((2, 2), (3, 2), (1, 4), (2, 1))
          for T in (1, 3, 7)], la="uf", feas=True, canon=True, paths=6, abnormal=0, timeout=60, vtol=1e-2, required=False)
def damping_in_range(w, which, d, nb, T):
    """The estimated damping is a number in [0, 1] whenever the covariance has been read, including for constant
    and single observations."""
    e = _cls(w, which)(r=w.real(0.5), n_blocks=nb).fit(zoo.rows(w, "x", T, d))
    w.check("not read yet", e.gamma_ is None)
    e.covariance_
    w.finite("gamma", w.array([e.gamma_]))
    if T <= 3 or not w.symbolic:
        w.le("gamma >= 0", w.real(0), e.gamma_)
        w.le("gamma <= 1", e.gamma_, w.real(1))
    e = _cls(w, which)(r=w.real(0.5), n_blocks=nb).fit(w.np.zeros((T, d)))
    e.covariance_
    w.le("zero data: gamma >= 0", w.real(0), e.gamma_)
    w.le("zero data: gamma <= 1", e.gamma_, w.real(1))


@harness([dict(which=n, power=k, T=T) for n in SCHUR[::2] for k in (-10, 0, 17) for T in (3, 7)], la="exact", la_n=2,
         canon=True, feas=True, fork_minmax=True, paths=8, timeout=60)
def the_floor_has_no_units(w, which, power, T):
    """Two copies of one variable make a singular block; it is floored by next to nothing however large the units.
    A fixed history, then any observation."""
    k = w.real(2.0 ** power)
    v = [w.real(t) * k for t in (3, -1, 2, 5, -2, 0.5, 4)][:T - 1] + [w.var("x", lo=-8, hi=8) * k]
    X = w.array([[a, a] for a in v])
    C = _cls(w, which)(r=w.real(0.5), n_blocks=1).fit(X).covariance_
    S = _cls(w, "EwaCovariance")(r=w.real(0.5)).fit(X).covariance_
    tiny = w.frac(1, 10 ** 4)
    w.assume(S[0, 0] >= w.frac(1, 10 ** 6))
    w.le("gap", C[0, 0] - C[0, 1], tiny)
    w.le("variance above", C[0, 0] - S[0, 0], tiny)
    w.le("variance below", S[0, 0] - C[0, 0], tiny)
