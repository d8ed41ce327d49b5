"""Bounds: every positive-definite covariance and every sample, sizes 1-2 (orders, scale, needs: up to 3, with arbitrary
permutations); the logarithm enters through log(ab) = log a + log b and log t <= t - 1 only."""
import itertools

from vx.api import harness
from props import zoo

ALL = ["LogLikelihood", "BlockPseudoLikelihood", "SchurLikelihood", "SteinLoss", "FrobeniusToTruth", "GMVVariance",
       "VariogramScore"]
OPTS = dict(la="exact", la_n=3, paths=16, timeout=120, vtol=1e-3, abnormal=0)


def _judge(w, name, **k):
    return getattr(w.mod("precise.assessment"), name)(**k)


def _log_product(w, *pairs):
    """log(a b) = log a + log b for positive a, b."""
    if w.symbolic:
        for a, b in pairs:
            w.assume(w.np.log(a * b) == w.np.log(a) + w.np.log(b))


def _data(w, n, p):
    X = zoo.rows(w, "x", n, p)
    return X, [[X[t, i] for i in range(p)] for t in range(n)]


def _second(w, xs, p, centred=False):
    n = len(xs)
    m = [sum((x[i] for x in xs), w.real(0)) / n if centred else w.real(0) for i in range(p)]
    return [[sum(((x[i] - m[i]) * (x[j] - m[j]) for x in xs), w.real(0)) / n for j in range(p)] for i in range(p)]


@harness([dict(n=n, judge=j) for n in (1, 2, 3, 5) for j in ("LogLikelihood", "BlockPseudoLikelihood")], **OPTS)
def likelihood_is_proper(w, n, judge):
    """One variable: no variance scores above the sample's mean square."""
    X, xs = _data(w, n, 1)
    S = _second(w, xs, 1)[0][0]
    w.assume(S > 0)
    A = w.var("A", lo=0, strict=True)
    J = _judge(w, judge)
    if w.symbolic:
        w.assume(w.np.log(S) == w.np.log(A) + w.np.log(S / A))
    w.le("no better", J.score(w.array([[A]]), X_test=X), J.score(w.array([[S]]), X_test=X), tol=1e-6)


@harness([dict(n=n) for n in (2, 3, 5)], feas=True, **OPTS)
def stein_is_proper(w, n):
    """One variable: Stein's loss is at most zero, and zero at the sample covariance."""
    X, xs = _data(w, n, 1)
    S = _second(w, xs, 1, True)[0][0]
    w.assume(S > 0)
    A = w.var("A", lo=0, strict=True)
    J = _judge(w, "SteinLoss")
    w.le("at most zero", J.score(w.array([[A]]), X_test=X), w.real(0), tol=1e-6)
    w.eq("zero", J.score(w.array([[S]]), X_test=X), w.real(0), atol=1e-6)


@harness([dict(judge=j) for j in ("LogLikelihood", "SteinLoss")], **OPTS)
def diagonal_estimates(w, judge):
    """Two variables, uncorrelated sample: no diagonal estimate scores above the sample's own."""
    a, b = w.var("a", lo=0, strict=True), w.var("b", lo=0, strict=True)
    X = w.array([[a, b], [a, -b], [-a, b], [-a, -b]])          # mean zero, second moment diag(a^2, b^2)
    u, v = w.var("u", lo=0, strict=True), w.var("v", lo=0, strict=True)
    J = _judge(w, judge)
    if w.symbolic:
        for s, t in ((a * a, u), (b * b, v)):
            w.assume(w.np.log(s) == w.np.log(t) + w.np.log(s / t))
        _log_product(w, (u, v), (a * a, b * b))
        w.assume(w.np.log(a * a * b * b / (u * v)) == w.np.log(a * a / u) + w.np.log(b * b / v))
    best = J.score(w.array([[a * a, w.real(0)], [w.real(0), b * b]]), X_test=X)
    w.le("no better", J.score(w.array([[u, w.real(0)], [w.real(0), v]]), X_test=X), best, tol=1e-6)


@harness([dict(p=p) for p in (1, 2, 3)], **OPTS)
def distance_is_proper(w, p):
    """No estimate is nearer to the truth than the truth, at distance zero."""
    A, T = w.symm("A", p), w.symm("T", p)
    w.assume(sum((T[i, j] ** 2 for i in range(p) for j in range(p)), w.real(0)) > 0)
    J = _judge(w, "FrobeniusToTruth")
    s = J.score(w.array(A), true_cov=w.array(T))
    w.le("at most zero", s, w.real(0))
    w.eq("truth", J.score(w.array(T), true_cov=w.array(T)), w.real(0))


@harness([dict(p=p) for p in (1, 2, 3)], **OPTS)
def distance_grows_with_the_error(w, p):
    """Twice, or any number of times, the error is that many times the distance; and the unit does not matter."""
    E, T = w.symm("E", p), w.symm("T", p)
    c = w.var("c", lo=0, hi=1000)
    w.assume(sum((T[i, j] ** 2 for i in range(p) for j in range(p)), w.real(0)) > 0)
    J = _judge(w, "FrobeniusToTruth")
    once = J.score(w.array(T + E), true_cov=w.array(T))
    w.eq("more", J.score(w.array(T + c * E), true_cov=w.array(T)), c * once, tol=1e-6)
    w.eq("the other way", J.score(w.array(T - E), true_cov=w.array(T)), once, tol=1e-6)
    u = w.var("u", lo=0, strict=True)
    w.eq("unit", J.score(w.array(u * (T + E)), true_cov=w.array(u * T)), once, tol=1e-6)


@harness([dict(p=p, n=n) for p, n in ((1, 2), (2, 1), (2, 2), (3, 2))], **OPTS)
def bounded_above(w, p, n):
    """Portfolio variance and variogram gaps are penalties: the scores are never positive."""
    A, (X, _) = zoo._psd(w, "A", p, pd=True), _data(w, n, p)
    if p < 3:
        w.le("portfolio", _judge(w, "GMVVariance").score(w.array(A), X_test=X), w.real(0))
    w.le("variogram", _judge(w, "VariogramScore").score(w.array(A), X_test=X), w.real(0))


@harness([dict(p=p, n=n) for p in (1, 2) for n in (1, 2, 3)] + [dict(p=3, n=1)], **OPTS)
def portfolio_ignores_scale(w, p, n):
    """The minimum-variance judge is unaffected by the overall scale of the estimate."""
    A, (X, _) = zoo._psd(w, "A", p, pd=True), _data(w, n, p)
    c = w.var("c", lo=0, strict=True)
    J = _judge(w, "GMVVariance")
    B = w.array([[c * A[i][j] for j in range(p)] for i in range(p)])
    w.eq("score", J.score(B, X_test=X), J.score(w.array(A), X_test=X), tol=1e-6)


@harness([dict(unit=u) for u in ("1e-12", "1e-8", "1e-4", "1e4", "1e8")], **OPTS)
def portfolio_in_other_units(w, unit):
    """The same, for estimates of ordinary size measured in a much larger or smaller unit."""
    a, b, k = (w.var(x, lo=1, hi=4) for x in "abk")
    A = [[a + k, k], [k, b + k]]
    X, _ = _data(w, 2, 2)
    c = w.real(float(unit))
    J = _judge(w, "GMVVariance")
    B = w.array([[c * A[i][j] for j in range(2)] for i in range(2)])
    w.eq("score", J.score(B, X_test=X), J.score(w.array(A), X_test=X), tol=1e-6)


@harness([dict(scale=s) for s in ("b=a", "b=2a", "b=3a")], **OPTS)
def portfolio_is_proper(w, scale):
    """Two assets, uncorrelated sample: no estimate gives a portfolio of lower variance than the sample's own moments."""
    b = {"b=a": 1, "b=2a": 2, "b=3a": 3}[scale]
    X = w.array([[1, b], [1, -b], [-1, b], [-1, -b]])
    J = _judge(w, "GMVVariance")
    A = zoo._psd(w, "A", 2, pd=True)
    w.assume(A[0][0] + A[1][1] - 2 * A[0][1] > 0)
    best = J.score(w.array([[w.real(1), w.real(0)], [w.real(0), w.real(b * b)]]), X_test=X)
    w.le("no better", J.score(w.array(A), X_test=X), best, tol=1e-6)


def _no_number(w, f):
    """An error, or not a number."""
    kind, v = w.outcome(f)
    return kind == "exc" or bool(v != v)


def _score(w, J, A, X, T):
    return J.score(A, X_test=X, true_cov=T)


@harness([dict(judge=j, p=p, q="".join(map(str, q))) for j in ALL for p in (1, 2) for q in itertools.permutations(range(3))
          if q != (0, 1, 2)], **{**OPTS, "la": "uf"})
def order_of_samples(w, judge, p, q):
    """The score does not depend on the order of the samples."""
    A, (X, xs) = w.array(zoo._psd(w, "A", p, pd=True)), _data(w, 3, p)
    T = w.array(zoo._psd(w, "T", p, pd=True))
    J = _judge(w, judge)
    w.eq("score", _score(w, J, A, w.array([xs[int(i)] for i in q]), T), _score(w, J, A, X, T), tol=1e-6)


ORDER = [(j, "10", n) for j in ALL if j not in ("SchurLikelihood", "SteinLoss") for n in (1, 2)] \
    + [(j, q, 2) for j in ("FrobeniusToTruth", "VariogramScore") for q in ("102", "210", "021", "120", "201")] \
    + [(j, q, 1) for j in ("LogLikelihood", "GMVVariance") for q in ("102", "210", "021", "120")]


@harness([dict(judge=j, q=q, n=n) for j, q, n in ORDER], **OPTS)
def order_of_variables(w, judge, q, n):
    """Nor, in one block, on the order in which the variables are listed."""
    ix = [int(i) for i in q]
    p = len(ix)
    if p == 3 and judge in ("LogLikelihood", "GMVVariance"):
        A = [[w.real(0)] * 3 for _ in range(3)]
        B = zoo._psd(w, "A", 2, pd=True)
        for i in range(2):
            for j in range(2):
                A[i][j] = B[i][j]
        A[2][2] = w.var("v", lo=0, strict=True)
    else:
        A = zoo._psd(w, "A", p, pd=True)
    (X, xs), T = _data(w, n, p), zoo._psd(w, "T", p, pd=True)
    J = _judge(w, judge)
    perm = lambda M: w.array([[M[i][j] for j in ix] for i in ix])       # noqa: E731
    w.eq("score", _score(w, J, perm(A), w.array([[x[i] for i in ix] for x in xs]), perm(T)),
         _score(w, J, w.array(A), X, w.array(T)), tol=1e-6)


@harness([dict(p=p) for p in (2, 3)], **OPTS)
def variogram_sees_differences_only(w, p):
    """A common shift of all variables in a sample leaves the variogram score alone."""
    A, (X, xs) = zoo._psd(w, "A", p, pd=True), _data(w, 2, p)
    c = w.arr("c", 2)
    J = _judge(w, "VariogramScore")
    w.eq("score", J.score(w.array(A), X_test=w.array([[v + c[t] for v in x] for t, x in enumerate(xs)])),
         J.score(w.array(A), X_test=X), tol=1e-6)


@harness([dict(judge=j, p=p) for j in ALL for p in (1, 3)], **{**OPTS, "la": "uf"})
def needs_say_what_is_used(w, judge, p):
    """What an assessor does not declare to need it does not use; what it does declare it cannot do without; its
    arguments are left alone."""
    J = _judge(w, judge)
    A, (X, xs) = w.array(zoo._psd(w, "A", p, pd=True)), _data(w, 2, p)
    T = w.array(zoo._psd(w, "T", p, pd=True))
    A0, X0, T0 = A.copy(), X.copy(), T.copy()
    both = J.score(A, X_test=X, true_cov=T)
    w.eq("estimate", A, A0)
    w.eq("sample", X, X0)
    w.eq("truth", T, T0)
    if J.needs_data:
        w.check("without a sample", _no_number(w, lambda: J.score(A, true_cov=T)))
    else:
        w.eq("no sample", J.score(A, true_cov=T), both)
        w.eq("other sample", J.score(A, X_test=zoo.rows(w, "y", 3, p), true_cov=T), both)
    if J.needs_truth:
        w.check("without a truth", _no_number(w, lambda: J.score(A, X_test=X)))
    else:
        w.eq("no truth", J.score(A, X_test=X), both)
        w.eq("other truth", J.score(A, X_test=X, true_cov=w.symm("U", p)), both)
    w.eq("again", J.score(A, X_test=X, true_cov=T), both)


@harness([dict(d=d, t=t) for d in (False, True) for t in (False, True)], paths=16, timeout=30)
def usable_exactly_when_needs_are_met(w, d, t):
    """For every combination of needs and of what there is."""
    base = w.mod("precise.assessment").Assessor

    class J(base):
        needs_data, needs_truth = d, t

    for hd in (False, True):
        for ht in (False, True):
            want = (hd or not d) and (ht or not t)
            w.check(f"{hd} {ht}", bool(J().usable(have_data=hd, have_truth=ht)) == want)
    w.eq("name", J().name, "J")
    w.raises("no score of its own", NotImplementedError, lambda: base().score(w.array([[1]])))


@harness([dict(judge=j) for j in ALL], paths=4, timeout=30)
def declared_needs(w, judge):
    """Judges score a held-out sample without the truth, but for the distance to it."""
    J = _judge(w, judge)
    truth = judge == "FrobeniusToTruth"
    w.check("on data alone", J.usable(have_data=True, have_truth=False) == (not truth))
    w.check("on the truth alone", J.usable(have_data=False, have_truth=True) == truth)
    w.check("on both", J.usable(have_data=True, have_truth=True))
    w.check("on nothing", not J.usable(have_data=False, have_truth=False))
    w.eq("name", J.name, judge)
    w.check("repr", repr(J).startswith(judge + "("))
