"""Bounds: exact symbolic inverses of arbitrary symmetric matrices up to 3 x 3; singular matrices; every estimator
after 1-7 observations, dimension 1-3; any rows to score."""
from vx.api import harness
from props import zoo
from props.C07 import psd_matrix


@harness([dict(n=1), dict(n=2), dict(n=3)], la="exact", la_n=3, paths=8, timeout=90)
def inverse(w, n):
    """The precision of a non-singular estimate is its inverse: P A = A P = I."""
    A = w.symm("a", n)
    w.assume(abs(w.np.linalg.det(A)) > 0.01)
    Pm = w.mod("precise._linalg").try_invert(A)
    for i in range(n):
        for j in range(n):
            unit = w.real(1 if i == j else 0)
            w.eq("P A", sum(Pm[i, k] * A[k, j] for k in range(n)), unit, atol=1e-6)
            w.eq("A P", sum(A[i, k] * Pm[k, j] for k in range(n)), unit, atol=1e-6)


@harness([dict(n=2, u=u) for u in ((-6, 3), (3, -6), (-8, 8))] + [dict(n=3, u=(-5, 0, 4))], la="exact", la_n=3, paths=6,
         timeout=90, vtol=1e-3)
def inverse_in_mixed_units(w, n, u):
    """The same when the variables are measured in very different units."""
    S = w.symm("a", n)
    w.assume(abs(w.np.linalg.det(S)) > 0.1)
    f = [w.frac(1, 10 ** -k) if k < 0 else w.real(10 ** k) for k in u]
    A = w.array([[S[i, j] * f[i] * f[j] for j in range(n)] for i in range(n)])
    Pm = w.mod("precise._linalg").try_invert(A)
    for i in range(n):
        for j in range(n):
            w.eq("P A", sum(Pm[i, k] * A[k, j] for k in range(n)) * f[i] / f[j], w.real(1 if i == j else 0), atol=1e-4)


@harness([dict(d=d) for d in (1, 2)], la="exact", la_n=3, paths=4, feas=True, timeout=60, vtol=1e-3, validate=False)
def estimator_in_mixed_units(w, d):
    """An estimator of badly scaled variables hands out the same inverse in its precision and its distances."""
    f = [w.frac(1, 10 ** 6), w.real(1000), w.real(1)][:d]
    X = w.array([[w.real(FAR[t][j]) * f[j] for j in range(d)] for t in range(5)] + [[w.var(f"x_{j}", lo=-2, hi=2) * f[j] for j in range(d)]])
    e = w.precise.EmpiricalCovariance().fit(X)
    C, Pm = e.covariance_, e.precision_
    det = C[0, 0] if d == 1 else C[0, 0] * C[1, 1] - C[0, 1] * C[1, 0]
    w.assume(det > (w.frac(1, 10 ** 13) if d == 1 else w.frac(1, 10 ** 7)))
    for i in range(d):
        for j in range(d):
            w.eq("P C", sum(Pm[i, k] * C[k, j] for k in range(d)) * f[i] / f[j], w.real(1 if i == j else 0), atol=1e-4)
    z = e.location_ + w.array(f)
    q = sum(f[i] * Pm[i, j] * f[j] for i in range(d) for j in range(d))
    w.eq("distance", e.mahalanobis(z), w.array([q]), tol=1e-4)


FAR = [[1, 0, 2], [-1, 2, 1], [0.5, -1, -2], [2, 1, 0.25], [-2, -2, 1]]


@harness([dict(n=2, kind=k) for k in ("zero", "rank1")] + [dict(n=3, kind="zero"), dict(n=3, kind="rank1")],
         la="uf", paths=8, validate=False)
def singular(w, n, kind):
    """A singular estimate still has a finite, symmetric precision of the right shape."""
    x = w.arr("x", n)
    e = w.precise.EmpiricalCovariance()
    e.partial_fit(x)
    if kind == "rank1":
        e.partial_fit(w.arr("y", n))
    Pm = e.precision_
    w.check("shape", tuple(Pm.shape) == (n, n))
    w.finite("precision", Pm)
    m = e.mahalanobis(w.array([[w.real(1)] * n]))
    w.finite("mahalanobis", m)


def _jobs(env):
    js = []
    for c in zoo.configs(env, env.thorough):
        js += [dict(**c, d=2, T=7), dict(**c, d=3, T=4), dict(**c, d=1, T=6)]
    return js


@harness(_jobs, la="uf", paths=3, timeout=60, vtol=1e-2, validate=False)
def scoring(w, est, v, d, T):
    """mahalanobis is the quadratic form of the precision about the mean, row by row; score is the mean Gaussian
    log-likelihood; get_precision is precision_; scoring does not learn."""
    cls, kw = zoo.build(w, est, v, sym=False)
    e = cls(**kw).fit(zoo.rows(w, "x", T, d))
    Z = zoo.rows(w, "z", 3, d)
    Pm, mu = e.precision_, e.location_
    w.eq("get_precision", e.get_precision(), Pm)
    if est != "BlockCovariance":        # inverted block by block: see block_precision
        w.eq("inverse of the covariance", Pm, w.mod("precise._linalg").try_invert(e.covariance_))
    M = e.mahalanobis(Z)
    for t in range(3):
        q = sum((Z[t, i] - mu[i]) * Pm[i, j] * (Z[t, j] - mu[j]) for i in range(d) for j in range(d))
        w.eq("quadratic form", M[t], q, tol=1e-5)
        w.eq("single row", e.mahalanobis(Z[t]), M[t:t + 1], tol=1e-5)
    w.eq("mean at zero distance", e.mahalanobis(mu), w.array([w.real(0)]), atol=1e-6)
    sign, logdet = w.np.linalg.slogdet(Pm)
    const = w.num(d) * w.np.log(2 * w.np.pi)
    ll = [(logdet - M[t] - const) / 2 for t in range(3)]
    w.eq("score", e.score(Z), sum(ll) / 3, tol=1e-5)
    w.eq("score of one row", e.score(Z[0]), ll[0], tol=1e-5)
    rest = cls(**kw).fit(zoo_rows_again(w, T, d))
    zoo.same(w, "unchanged by scoring", e, rest)


def zoo_rows_again(w, T, d):
    return w.array([[_get(w, f"x_{t}_{j}") for j in range(d)] for t in range(T)])


def _get(w, name):
    if w.symbolic:
        from vx import core
        return core.var(name, False)
    return w.used[name]


HARD = ("TylerCovariance", "PartialMomentsCovariance", "GeodesicEwaCovariance")   # left to inverse + scoring


@harness(lambda env: [dict(**c, d=2, T=T) for c in zoo.configs(env, True) if "geodesic" not in c["v"] and c["est"] not in HARD for T in (6, 7)],
         la="exact", la_n=2, abnormal=0, feas=True, paths=6, timeout=90, query_ms=4000, required=False, validate=False)
def estimator_inverse(w, est, v, d, T):
    """precision_ times covariance_ is the identity for every estimator with a well-conditioned estimate."""
    cls, kw = zoo.build(w, est, v, sym=False)
    vals = [[1, 0], [-1, 2], [0.5, -1], [2, 1], [-2, -2], [0.25, 3], [1, 1]]
    X = w.array([[w.real(a), w.real(b)] for a, b in vals[:T - 1]] + [[w.var("p", lo=-2, hi=2), w.var("q", lo=-2, hi=2)]])
    e = cls(**kw).fit(X)
    C, Pm = e.covariance_, e.precision_
    w.assume(C[0, 0] * C[1, 1] - C[0, 1] * C[1, 0] > 0.001)
    for i in range(2):
        for j in range(2):
            w.eq("P C", Pm[i, 0] * C[0, j] + Pm[i, 1] * C[1, j], w.real(1 if i == j else 0), atol=1e-6)


@harness([dict(d=2, nb=2), dict(d=3, nb=3), dict(d=3, nb=2)], la="uf", paths=2, validate=False)
def block_precision(w, d, nb):
    """The block-diagonal estimator's precision is zero across blocks and, block by block, the inverse of its
    covariance."""
    e = w.precise.BlockCovariance(r=w.real(0.5), n_blocks=nb).fit(zoo.rows(w, "x", 6, d))
    C, Pm = e.covariance_, e.precision_
    cuts = {2: {2: [(0, 1), (1, 2)]}, 3: {3: [(0, 1), (1, 2), (2, 3)], 2: [(0, 2), (2, 3)]}}[d][nb]
    for a, b in cuts:
        w.eq("block inverse", Pm[a:b, a:b], w.np.linalg.inv(C[a:b, a:b]), tol=1e-4)
        for i in range(d):
            for j in range(d):
                if (a <= i < b) != (a <= j < b):
                    w.eq("zero across", Pm[i, j], w.real(0))


@harness(lambda env: [dict(**c, past=p) for c in zoo.configs(env, env.thorough) for p in zoo.PASTS], la="uf", paths=3,
         timeout=60, vtol=1e-2, validate=False)
def with_a_past(w, est, v, past):
    """Also for an estimator that was read and then refitted, fed further or given a checkpoint."""
    cls, kw = zoo.build(w, est, v, sym=False)
    X, Z = zoo.rows(w, "x", 3, 2), zoo.rows(w, "z", 2, 2)
    fresh = cls(**kw).fit(X)
    e = zoo.PASTS[past](w, cls, kw, X, zoo.other(w, 2, 2))
    w.eq("precision", e.precision_, fresh.precision_)
    w.eq("get_precision", e.get_precision(), fresh.get_precision())
    w.eq("mahalanobis", e.mahalanobis(Z), fresh.mahalanobis(Z))
    w.eq("score", e.score(Z), fresh.score(Z))


@harness(lambda env: [dict(N=N, d=2) for N in (9, 33, 70, 130, 520, 1100)] + [dict(N=3, d=6), dict(N=3, d=12)],
         la="uf", paths=2, timeout=120, vtol=1e-2, validate=False)
def scoring_many_rows(w, N, d):
    """The same for a long or wide table of rows to score."""
    e = w.precise.EmpiricalCovariance().fit(zoo.rows(w, "x", 4, d) if d == 2 else zoo.other(w, d + 3, d))
    Z = zoo.long_rows(w, "z", N, d)
    Pm, mu = e.precision_, e.location_
    M = e.mahalanobis(Z)
    w.check("shape", tuple(M.shape) == (N,))
    for t in range(N):
        if N < 50 or t % 7 == 0 or t > N - 9 or t < 9:
            q = sum((Z[t, i] - mu[i]) * Pm[i, j] * (Z[t, j] - mu[j]) for i in range(d) for j in range(d))
            w.eq(f"distance of row {t}", M[t], q, tol=1e-5)
    sign, logdet = w.np.linalg.slogdet(Pm)
    w.eq("score", e.score(Z) * 2, logdet - w.num(d) * w.np.log(2 * w.np.pi) - sum(M[t] for t in range(N)) / w.num(N), tol=1e-5)
