"""Bounds: every symmetric matrix of size 1-2 (3 where the operation needs no spectrum or the matrix is diagonal), every
floor, ridge, shrinkage and geodesic fraction in its range; commuting pairs of size 1-3."""
from vx.api import harness
from props import zoo

OPTS = dict(paths=40, timeout=120, abnormal=0, vtol=1e-5)
SIZES = [dict(n=1), dict(n=2), dict(n=3)]


def _fn(w, name):
    """An internal helper, if it still has that name."""
    return getattr(w.mod("precise._linalg"), name, None)


def _mat(w, A):
    return w.array([list(r) for r in A])


def _diag(w, v):
    return w.array([[v[i] if i == j else w.real(0) for j in range(len(v))] for i in range(len(v))])


@harness(SIZES, la="uf", **OPTS)
def symmetric_part(w, n):
    """to_symmetric is the symmetric part and leaves its argument alone."""
    f = _fn(w, "to_symmetric")
    if f is None:
        return
    A = w.arr("a", n, n)
    A0 = A.copy()
    S = f(A)
    for i in range(n):
        for j in range(n):
            w.eq("symmetric part", S[i, j], (A[i, j] + A[j, i]) / 2)
    w.eq("argument", A, A0)
    w.record("s", [S[0, n - 1]])


@harness([dict(n=n, k=k) for n in (1, 2) for k in ("default", "any")], la="exact", la_n=2, **OPTS)
def flooring(w, n, k):
    """The spectrum is clipped from below: never under the floor, never moved when already above it, never lowered."""
    f = _fn(w, "make_pos_def")
    if f is None:
        return
    eps = w.frac(1, 10 ** 8) if k == "default" else w.var("eps", lo=0, strict=True)
    A = w.symm("a", n)
    A0 = A.copy()
    M = f(A) if k == "default" else f(A, eps=eps)
    w.eq("argument", A, A0)
    for i in range(n):
        for j in range(i):
            w.eq("symmetric", M[i, j], M[j, i])
    slack = w.np.eye(n) * (0 if w.symbolic else 1e-6 * (1 + abs(A).max()))
    w.psd("never lowered", M - A + slack)
    w.psd("never under the floor", M - w.np.eye(n) * eps + slack)
    if n == 1:
        w.eq("the clip", M[0, 0], w.np.maximum(A[0, 0], eps))
        w.record("clip", [M[0, 0]])


@harness([dict(n=1), dict(n=2)], la="exact", la_n=2, **OPTS)
def flooring_leaves_positive_definite_alone(w, n):
    """A matrix whose spectrum is above the floor is returned as it is."""
    f = _fn(w, "make_pos_def")
    if f is None:
        return
    eps = w.var("eps", lo=0, strict=True)
    A = w.symm("a", n)
    w.assume(A[0, 0] >= eps)
    if n == 2:
        w.assume((A[0, 0] - eps) * (A[1, 1] - eps) >= A[0, 1] * A[0, 1])
        w.assume(A[1, 1] >= eps)
    M = f(A, eps=eps)
    for i in range(n):
        for j in range(n):
            w.eq("unchanged", M[i, j], A[i, j], tol=1e-6)


@harness([dict(n=3)], la="uf", **OPTS)
def flooring_asks_for_the_symmetric_part(w, n):
    """Only the symmetric part counts."""
    f = _fn(w, "make_pos_def")
    if f is None:
        return
    A = w.arr("a", n, n)
    M, N = f(A), f((A + A.T) / 2)
    w.eq("symmetric part", M, N, tol=1e-5)
    for i in range(n):
        for j in range(i):
            w.eq("symmetric", M[i, j], M[j, i])


@harness(SIZES, la="exact", la_n=3, **OPTS)
def positive_definite(w, n):
    """is_positive_def is Sylvester's criterion."""
    f = _fn(w, "is_positive_def")
    if f is None:
        return
    A = w.symm("a", n)
    minors = [A[0, 0]]
    if n > 1:
        minors.append(A[0, 0] * A[1, 1] - A[0, 1] * A[0, 1])
    if n > 2:
        minors.append(w.np.linalg.det(A))
    for m in minors:
        w.assume(abs(m) > 0.001)
    said = bool(f(A))
    for k, m in enumerate(minors):
        if said:
            w.lt(f"minor {k}", w.real(0), m)
    if not said:
        p = minors[0] > 0
        for m in minors[1:]:
            p = p & (m > 0)
        w.check("not all minors positive", ~p if w.symbolic else not p)


@harness([dict(n=1), dict(n=2)], la="exact", la_n=2, feas=True, max_decisions=30, **OPTS)
def nearest_of_positive_definite(w, n):
    """The nearest positive-definite matrix of a positive-definite one is itself."""
    f = _fn(w, "nearest_pos_def")
    if f is None:
        return
    _, A = w.spectral("A", n, lo=0, strict=True)
    A0 = A.copy()
    M = f(A)
    for i in range(n):
        for j in range(n):
            w.eq("itself", M[i, j], A[i, j], tol=1e-6)
    w.eq("argument", A, A0)


@harness([dict(n=1), dict(n=2)], la="exact", la_n=2, eig="closed", feas=True, max_decisions=16, **OPTS)
def nearest_is_positive(w, n):
    """It is symmetric and positive semi-definite whatever it is given, and never below its argument."""
    f = _fn(w, "nearest_pos_def")
    if f is None:
        return
    V = w.rotation("V", n)
    ev = [w.var(f"e{i}") for i in range(n)]
    A = w.array([[sum((V[i][k] * ev[k] * V[j][k] for k in range(n)), w.real(0)) for j in range(n)] for i in range(n)])
    M = f(A)
    w.finite("finite", M)
    for i in range(n):
        for j in range(i):
            w.eq("symmetric", M[i, j], M[j, i])
    for i in range(n):
        for j in range(n):
            q = sum((V[k][i] * M[k, l] * V[l][j] for k in range(n) for l in range(n)), w.real(0))
            if i == j:
                w.le("positive", w.real(0), q, tol=1e-9)
                w.le("not below", ev[i], q, tol=1e-9)
            else:
                w.eq("same axes", q, w.real(0), atol=1e-6)


GEO = [dict(n=n, kind=k) for n in (1, 2, 3) for k in ("diagonal", "same")] + [dict(n=2, kind="rotated")]


@harness(GEO, la="exact", la_n=3, eig="closed", **OPTS)
def geodesic_of_commuting_matrices(w, n, kind):
    """Between commuting matrices the geodesic is the weighted geometric mean."""
    f = _fn(w, "geodesic_step")
    if f is None:
        return
    low = w.real(0.001)
    a = [w.var(f"a{i}", lo=0.001) for i in range(n)]
    b = a if kind == "same" else [w.var(f"b{i}", lo=0.001) for i in range(n)]
    V = w.rotation("V", n) if kind == "rotated" else [[w.real(1 if i == j else 0) for j in range(n)] for i in range(n)]

    def build(d):
        return w.array([[sum((V[i][k] * d[k] * V[j][k] for k in range(n)), w.real(0)) for j in range(n)] for i in range(n)])
    for g in (w.real(0), w.real(1), w.frac(1, 2), w.var("g", lo=0, hi=1)):
        M, R = f(build(a), build(b), g), build([a[i] * (b[i] / a[i]) ** g for i in range(n)])
        for i in range(n):
            for j in range(n):
                w.eq("geometric mean", M[i, j], R[i, j], tol=1e-6)


@harness([dict(n=1), dict(n=2), dict(n=3)], la="uf", **OPTS)
def geodesic_is_symmetric(w, n):
    """A step is symmetric and leaves its arguments alone."""
    f = _fn(w, "geodesic_step")
    if f is None:
        return
    A, B = w.symm("a", n), w.symm("b", n)
    A0, B0 = A.copy(), B.copy()
    g = w.var("g", lo=0, hi=1)
    M = f(A, B, g)
    for i in range(n):
        for j in range(i):
            w.eq("symmetric", M[i, j], M[j, i])
    w.eq("start", A, A0)
    w.eq("end", B, B0)


@harness([dict(n=1), dict(n=2)], la="exact", la_n=2, eig="closed", **OPTS)
def geodesic_starts_at_the_start(w, n):
    """Fraction 0 is the start."""
    f = _fn(w, "geodesic_step")
    if f is None:
        return
    _, A = w.spectral("A", n, lo=0.001)
    _, B = w.spectral("B", n, lo=0.001)
    M = f(A, B, w.real(0))
    for i in range(n):
        for j in range(n):
            w.eq("start", M[i, j], A[i, j], tol=1e-5)


@harness([dict(n=1)], la="exact", la_n=2, eig="closed", **OPTS)
def geodesic_ends_at_the_end(w, n):
    """Fraction 1 is the end."""
    f = _fn(w, "geodesic_step")
    if f is None:
        return
    _, A = w.spectral("A", n, lo=0.001)
    _, B = w.spectral("B", n, lo=0.001)
    M = f(A, B, w.real(1))
    for i in range(n):
        for j in range(n):
            w.eq("end", M[i, j], B[i, j], tol=1e-5)


@harness([dict(n=n, k=k) for n in (1, 2, 3, 4) for k in ("default", "any", "none", "full")], la="uf", **OPTS)
def ridge_then_shrink(w, n, k):
    """affine_shrink: the diagonal is ridged, then everything is shrunk towards the mean ridged variance; the trace is
    multiplied by the ridge."""
    f = _fn(w, "affine_shrink")
    if f is None:
        return
    A = w.arr("a", n, n)
    A0 = A.copy()
    if k == "default":
        phi, l, B = w.frac(101, 100), w.frac(1, 100), f(A)
    else:
        phi = w.real(1) if k == "none" else w.var("phi", lo=0)
        l = w.real(0) if k == "none" else w.real(1) if k == "full" else w.var("l", lo=0, hi=1)
        B = f(A, phi=phi, lmbd=l)
    mu = phi * sum((A0[i, i] for i in range(n)), w.real(0)) / n
    for i in range(n):
        for j in range(n):
            v = (1 - l) * A0[i, j] * (phi if i == j else 1) + (l * mu if i == j else 0)
            w.eq("shrunk", B[i, j], A0[i, j] if k == "none" else v)
    w.eq("trace", sum((B[i, i] for i in range(n)), w.real(0)), phi * sum((A0[i, i] for i in range(n)), w.real(0)))
    w.eq("argument", A, A0)
    w.record("corner", [B[0, n - 1]])


@harness([dict(n=1), dict(n=2), dict(n=3)], la="exact", la_n=3, **OPTS)
def inversion(w, n):
    """A positive-definite matrix is inverted exactly, and inverting twice returns it."""
    f = _fn(w, "try_invert")
    if f is None:
        return
    A = w.array(zoo._psd(w, "A", n, pd=True))
    A0 = A.copy()
    P = f(A)
    for i in range(n):
        for j in range(n):
            w.eq("inverse", sum((P[i, k] * A0[k, j] for k in range(n)), w.real(0)), w.real(1 if i == j else 0), atol=1e-4)
    w.eq("argument", A, A0)
    if n < 3:
        Q = f(P)
        for i in range(n):
            for j in range(n):
                w.eq("twice", Q[i, j], A0[i, j], tol=1e-4)


@harness([dict(n=1), dict(n=2), dict(n=3)], la="exact", la_n=3, feas=True, **OPTS)
def inversion_of_any_regular_matrix(w, n):
    """The same for a matrix that is not symmetric, its off-diagonal entries as close as one likes."""
    f = _fn(w, "try_invert")
    if f is None:
        return
    A = [[w.var(f"a{i}{j}", lo=1, hi=5) if i == j else w.var(f"a{i}{j}", lo=-0.4, hi=0.4) for j in range(n)] for i in range(n)]
    P = f(w.array(A))
    for i in range(n):
        for j in range(n):
            w.eq("inverse", sum((P[i, k] * A[k][j] for k in range(n)), w.real(0)), w.real(1 if i == j else 0), atol=1e-6)


@harness([dict(n=1), dict(n=2), dict(n=3)], la="exact", la_n=3, **OPTS)
def normalisation(w, n):
    """cov_to_corrcoef: the documented quotient, unit diagonal, zero where a variance is zero; scaling the units
    changes nothing and the argument is left alone."""
    f = _fn(w, "cov_to_corrcoef")
    if f is None:
        return
    A = w.array(zoo._psd(w, "A", n))
    A0 = A.copy()
    R = f(A)
    w.eq("argument", A, A0)
    for i in range(n):
        w.eq("unit", R[i, i], w.real(1))
        for j in range(i):
            w.eq("symmetric", R[i, j], R[j, i])
            w.eq("quotient", R[i, j] * w.np.sqrt(A0[i, i]) * w.np.sqrt(A0[j, j]),
                 A0[i, j] if w.fork((A0[i, i] > 0) & (A0[j, j] > 0)) else w.real(0), tol=1e-6)
