"""Bounds: any symmetric positive semi-definite matrix of size 1-4 (factored as L L^T, zero variances included) at
any positive scale; every estimator and variant after 1-7 observations of dimension 2-3 incl. constant series."""
from vx.api import harness
from props import zoo
from props.C03 import COMPOSED, _composed


def psd_matrix(w, n, name="A"):
    return w.array(zoo._psd(w, name, n))


@harness([dict(n=n) for n in (1, 2, 3, 4)], la="uf", paths=40, feas=True, timeout=90)
def normalise(w, n):
    """Unit diagonal, symmetric, c_ij^2 a_ii a_jj = a_ij^2 with the sign of a_ij, 0 where a variance is 0."""
    A = psd_matrix(w, n)
    f = w.mod("precise._linalg").cov_to_corrcoef
    keep = A.copy()
    C = f(A)
    w.eq("argument untouched", A, keep)
    for i in range(n):
        w.eq("unit diagonal", C[i, i], w.real(1))
        for j in range(n):
            w.eq("symmetric", C[i, j], C[j, i])
            if i != j:
                w.eq("square", C[i, j] * C[i, j] * A[i, i] * A[j, j], A[i, j] * A[i, j])
                w.check("sign", C[i, j] * A[i, j] >= (0 if w.symbolic else -1e-12))


@harness([dict(n=n) for n in (2, 3)], la="uf", paths=40, feas=True, timeout=90)
def bounded(w, n):
    """Correlations of a positive semi-definite matrix lie in [-1, 1]."""
    A = psd_matrix(w, n)
    C = w.mod("precise._linalg").cov_to_corrcoef(A)
    w.eq("shape", tuple(C.shape), (n, n))
    w.le("c^2 <= 1", C[0, n - 1] * C[0, n - 1], w.real(1))


@harness([dict(n=n) for n in (2, 3)], la="uf", paths=40, feas=True, timeout=90)
def scale_free(w, n):
    """Rescaling each variable by any positive factor leaves the correlations unchanged."""
    A = psd_matrix(w, n)
    s = [w.var(f"s{i}", lo=0.001, hi=1000) for i in range(n)]
    f = w.mod("precise._linalg").cov_to_corrcoef
    B = w.array([[A[i, j] * s[i] * s[j] for j in range(n)] for i in range(n)])
    w.eq("correlations", f(B), f(A))


@harness([dict(s=s) for s in ("1e-30", "1e-16", "1e-9", "1", "1e12")], la="uf", paths=20, feas=True)
def any_magnitude(w, s):
    """Including for data in tiny or huge units, where no absolute floor may interfere."""
    s = w.real(float(s))
    X = zoo.rows(w, "x", 4, 2)
    P = w.precise
    a, b = P.EmpiricalCovariance().fit(X), P.EmpiricalCovariance().fit(X * s)
    w.assume(a.covariance_[0, 0] > 0.01)
    w.assume(a.covariance_[1, 1] > 0.01)
    w.eq("correlations", b.correlation_, a.correlation_)


@harness(lambda env: [dict(**c, d=d, T=T) for c in zoo.configs(env, env.thorough) for d, T in ((2, 1), (2, 3), (3, 7))],
         la="uf", paths=4, timeout=60, vtol=1e-2)
def estimators(w, est, v, d, T):
    """correlation_ is the normalised covariance_ for every estimator, and always has a unit diagonal."""
    cls, kw = zoo.build(w, est, v, sym=False)
    e = cls(**kw).fit(zoo.rows(w, "x", T, d))
    C, R = e.covariance_, e.correlation_
    for i in range(d):
        w.eq("unit diagonal", R[i, i], w.real(1))
        for j in range(d):
            w.eq("symmetric", R[i, j], R[j, i])
    w.eq("normalised covariance", R, w.mod("precise._linalg").cov_to_corrcoef(C))


@harness(lambda env: [dict(**c) for c in zoo.configs(env, env.thorough)], la="uf", paths=6, timeout=60, vtol=1e-2)
def constant_series(w, est, v):
    """A series that never moves has zero correlation with the others, not NaN."""
    cls, kw = zoo.build(w, est, v, sym=False)
    x = w.arr("x", 4)
    c = w.var("c")
    e = cls(**kw).fit(w.array([[x[t], c, x[t] * x[t]] for t in range(4)]))
    R = e.correlation_
    w.finite("correlation", R)
    for i in range(3):
        w.eq("unit diagonal", R[i, i], w.real(1))


@harness([dict(which=c) for c in COMPOSED], la="uf", paths=3, timeout=60, vtol=1e-2)
def compositions(w, which):
    """The same for composed estimators."""
    e = _composed(w, which)().fit(zoo.rows(w, "x", 4, 2))
    R = e.correlation_
    w.eq("unit diagonal", [R[0, 0], R[1, 1]], [w.real(1), w.real(1)])
    w.eq("normalised covariance", R, w.mod("precise._linalg").cov_to_corrcoef(e.covariance_))


@harness(lambda env: [dict(**c, past=p) for c in zoo.configs(env, env.thorough) for p in zoo.PASTS], la="uf", paths=3,
         timeout=60, vtol=1e-2)
def with_a_past(w, est, v, past):
    """Also for an estimator that was read and then refitted, fed further or given a checkpoint."""
    cls, kw = zoo.build(w, est, v, sym=False)
    e = zoo.PASTS[past](w, cls, kw, zoo.rows(w, "x", 3, 2))
    C, R = e.covariance_, e.correlation_
    w.eq("normalised covariance", R, w.mod("precise._linalg").cov_to_corrcoef(C))
    w.eq("again", e.correlation_, R)
