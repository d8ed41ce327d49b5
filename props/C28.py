"""Bounds: every window of 1-4 rows and 1-3 variables; the spectrum is an arbitrary one (opaque beyond two variables);
unit changes by any positive factor, away from the documented floor of 1e-12 on variances."""
import itertools

from vx.api import harness
from props import zoo

KEYS = ["n", "p", "p_over_n", "effective_rank", "sphericity", "condition_number", "mean_abs_offdiag_corr",
        "avg_excess_kurtosis"]
OPTS = dict(paths=24, timeout=120, vtol=1e-4, abnormal=0)


def _features(w, X):
    return w.mod("precise").covariance_features(X)


def _window(w, n, p):
    X = zoo.rows(w, "x", n, p) if n <= 4 else zoo.long_rows(w, "x", n, p)
    return X, [[X[t, i] for t in range(n)] for i in range(p)]


def _moments(w, cols):
    """Means, covariances and fourth moments about the mean, over n."""
    n, p = len(cols[0]), len(cols)
    m = [sum(c, w.real(0)) / n for c in cols]
    d = [[v - m[i] for v in cols[i]] for i in range(p)]
    S = [[sum((a * b for a, b in zip(d[i], d[j])), w.real(0)) / n for j in range(p)] for i in range(p)]
    return S, [sum((v ** 4 for v in d[i]), w.real(0)) / n for i in range(p)]


def _above(w, S, c=None):
    """Variances above the floor (also after a change of unit)."""
    for i in range(len(S)):
        w.assume(S[i][i] > w.frac(1, 10 ** 12))
        if c is not None:
            w.assume(S[i][i] * c * c > w.frac(1, 10 ** 12))


SIZES = [dict(n=n, p=p) for n in (1, 2, 3, 4) for p in (1, 2, 3)]


@harness(SIZES + [dict(n=n, p=2) for n in (33, 130, 520, 1030)] + [dict(n=8, p=6), dict(n=40, p=12)], la="uf", **OPTS)
def what_is_reported(w, n, p):
    """Exactly the documented descriptors; counts, dimension ratio, correlation and kurtosis by their formulas, the rest
    from the spectrum of the sample covariance."""
    X, cols = _window(w, n, p)
    f = _features(w, X)
    w.eq("names", sorted(f), sorted(KEYS))
    w.eq("n", f["n"], n)
    w.eq("p", f["p"], p)
    w.eq("p_over_n", f["p_over_n"], w.frac(p, n))
    S, m4 = _moments(w, cols)
    low = w.frac(1, 10 ** 12)
    var = [w.np.maximum(S[i][i], low) for i in range(p)]
    k = sum((m4[i] / var[i] ** 2 for i in range(p)), w.real(0)) / p - 3
    w.eq("kurtosis", f["avg_excess_kurtosis"], k, tol=1e-6)
    w.record("kurtosis", [f["avg_excess_kurtosis"]])
    if p > 1:
        r = sum((abs(S[i][j] / w.np.sqrt(var[i] * var[j])) for i in range(p) for j in range(p) if i != j), w.real(0))
        w.eq("correlation", f["mean_abs_offdiag_corr"], r / (p * (p - 1)), tol=1e-6)
        w.record("correlation", [f["mean_abs_offdiag_corr"]])
    else:
        w.eq("correlation", f["mean_abs_offdiag_corr"], w.real(0))
    ev = [w.np.maximum(v, low) for v in w.np.linalg.eigvalsh(w.array(S))]
    tot, sq = sum(ev, w.real(0)), sum((v * v for v in ev), w.real(0))
    w.eq("effective rank", f["effective_rank"], tot * tot / sq, tol=1e-6)
    w.eq("sphericity", f["sphericity"], tot * tot / sq / p, tol=1e-6)
    hi, lo = ev[0], ev[0]
    for v in ev[1:]:
        hi, lo = w.np.maximum(hi, v), w.np.minimum(lo, v)
    w.eq("condition", f["condition_number"], hi / lo, tol=1e-4)


@harness(SIZES, la="uf", **OPTS)
def in_range(w, n, p):
    """Every descriptor is finite and in its range, for every window, constant columns and single rows included."""
    X, cols = _window(w, n, p)
    f = _features(w, X)
    for k in KEYS:
        w.finite(k, f[k])
    w.le("effective rank at least one", w.real(1), f["effective_rank"], tol=1e-9)
    w.le("effective rank at most p", f["effective_rank"], w.num(p), tol=1e-9)
    w.lt("sphericity positive", w.real(0), f["sphericity"])
    w.le("sphericity at most one", f["sphericity"], w.real(1), tol=1e-9)
    w.le("condition at least one", w.real(1), f["condition_number"], tol=1e-9)
    w.le("correlation not negative", w.real(0), f["mean_abs_offdiag_corr"])
    if n <= 3 and p <= 2:
        w.le("kurtosis at least minus three", w.real(-3), f["avg_excess_kurtosis"], tol=1e-9)


@harness([dict(n=n, p=p) for n, p in ((2, 2), (3, 2), (2, 3))], la="uf", **OPTS)
def correlation_at_most_one(w, n, p):
    """The mean absolute correlation is a mean of correlations."""
    X, cols = _window(w, n, p)
    S, _ = _moments(w, cols)
    for i in range(p):
        for j in range(i):            # Cauchy-Schwarz
            w.assume(S[i][j] * S[i][j] <= S[i][i] * S[j][j])
            w.assume(S[i][j] * S[i][j] <= w.np.maximum(S[i][i], w.frac(1, 10 ** 12)) * w.np.maximum(S[j][j], w.frac(1, 10 ** 12)))
    f = _features(w, X)
    w.le("at most one", f["mean_abs_offdiag_corr"], w.real(1), tol=1e-9)


@harness([dict(n=n, p=p) for n, p in ((2, 1), (3, 1), (2, 2))], la="uf", **OPTS)
def kurtosis_at_least_minus_two(w, n, p):
    """Above the floor the excess kurtosis is at least minus two."""
    X, cols = _window(w, n, p)
    S, m4 = _moments(w, cols)
    _above(w, S)
    w.le("at least minus two", w.real(-2), _features(w, X)["avg_excess_kurtosis"], tol=1e-9)


@harness([dict(n=n, p=p, what=k) for n in (2, 3, 4) for p in (1, 2, 3) for k in ("shift", "rows", "list")], la="uf", **OPTS)
def same_window_same_features(w, n, p, what):
    """Where the window is centred, the order of its rows and its container do not matter."""
    X, _ = _window(w, n, p)
    rows = [[X[t, i] for i in range(p)] for t in range(n)]
    if what == "shift":
        c = w.arr("c", p)
        Y = w.array([[v + c[i] for i, v in enumerate(r)] for r in rows])
    elif what == "rows":
        Y = w.array(rows[::-1] if n < 4 else [rows[i] for i in (2, 0, 3, 1)])
    else:
        Y = rows
    X0 = X.copy()
    a, b = _features(w, X), _features(w, Y)
    for k in KEYS:
        w.eq(k, b[k], a[k], tol=1e-3 if k == "condition_number" else 1e-5)
    w.eq("the window is left alone", X, X0)
    again = _features(w, X)
    for k in KEYS:
        w.eq("again " + k, again[k], a[k])


@harness([dict(n=n, q="".join(map(str, q))) for n in (2, 3) for q in list(itertools.permutations(range(3)))[1:] + [(1, 0)]],
         la="uf", **OPTS)
def order_of_variables(w, n, q):
    """The order of the variables does not matter."""
    ix = [int(i) for i in q]
    X, _ = _window(w, n, len(ix))
    Y = w.array([[X[t, i] for i in ix] for t in range(n)])
    a, b = _features(w, X), _features(w, Y)
    for k in KEYS:
        w.eq(k, b[k], a[k], tol=1e-3 if k == "condition_number" else 1e-5)


@harness([dict(n=n, p=p) for n in (2, 3) for p in (1, 2, 3) if n + p < 6], la="uf", **OPTS)
def unit(w, n, p):
    """Correlation and kurtosis do not depend on the unit (above the floor)."""
    X, cols = _window(w, n, p)
    c = w.var("c", lo=0, strict=True)
    S, _ = _moments(w, cols)
    _above(w, S, c)
    a, b = _features(w, X), _features(w, X * c)
    for k in ("n", "p", "p_over_n", "avg_excess_kurtosis", "mean_abs_offdiag_corr"):
        w.eq(k, b[k], a[k], tol=1e-6)


@harness([dict(n=2), dict(n=3), dict(n=4)], la="uf", **OPTS)
def one_variable(w, n):
    """One variable has no shape: rank, sphericity and condition are one and there is no correlation."""
    X, _ = _window(w, n, 1)
    f = _features(w, X)
    for k in ("effective_rank", "sphericity", "condition_number"):
        w.eq(k, f[k], w.real(1))
    w.eq("correlation", f["mean_abs_offdiag_corr"], w.real(0))


@harness([dict(n=n, p=p) for n in (1, 3) for p in (1, 2, 3)], la="uf", **OPTS)
def constant_windows(w, n, p):
    """A window that never moves: isotropic, uncorrelated, minus three."""
    c = w.arr("c", p)
    f = _features(w, w.array([[c[i] for i in range(p)] for _ in range(n)]))
    w.eq("effective rank", f["effective_rank"], w.num(p))
    w.eq("sphericity", f["sphericity"], w.real(1))
    w.eq("condition", f["condition_number"], w.real(1))
    w.eq("correlation", f["mean_abs_offdiag_corr"], w.real(0))
    w.eq("kurtosis", f["avg_excess_kurtosis"], w.real(-3))
