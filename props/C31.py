"""Bounds: the two-block model for every parameter value; covariances of size 1-3 split into scalar or vector blocks, every
coupling in (0,1]; samples of 1-3 rows; every sample size and coupling strength."""
from vx.api import harness
from props import zoo
from props.C25 import _det, _gauss, _inv, _pick
from props.C32 import _Patched

OPTS = dict(la="exact", la_n=3, paths=24, timeout=120, abnormal=0, vtol=1e-5)


def _thy(w):
    return w.mod("research.schur_likelihood_theory")


def _god(w):
    return w.mod("research.schur_godambe")


def _met(w):
    return w.mod("research.metric_power")


def _model(w):
    a, s, b = w.var("a", lo=0.01, hi=100), w.var("s", lo=0.01, hi=100), w.var("b", lo=-10, hi=10)
    return a, b, s


def _gamma(w, lo=0.01):
    return w.var("gamma", lo=lo, hi=1)


def _log_facts(w, *pairs):
    """log(x/y) = log x - log y."""
    if w.symbolic:
        for x, y in pairs:
            w.assume(w.np.log(x / y) == w.np.log(x) - w.np.log(y))


@harness(**OPTS)
def inflated_maximiser(w):
    """The closed-form maximiser has the true effective coefficient and conditional variance, and attains the entropy."""
    t = _thy(w)
    a, b, s = _model(w)
    g = _gamma(w)
    A, C, D = t.closed_form_maximizer(a, b, s, g)
    w.eq("marginal", A, a)
    w.eq("effective coefficient", g * C / A, b)
    w.eq("damped variance", D - g * C * C / A, s, atol=1e-6)
    w.eq("inflated coupling", C, b * a / g)
    w.eq("inflated variance", D, s + b * b * a + b * b * a * (1 / g - 1))
    w.record("CD", [C, D])
    v = t.schur_loglik_population(a, b, s, g, A, C, D)
    w.eq("value", v, -(w.np.log(a) + 1 + w.np.log(s) + 1) / 2, tol=1e-6)


@harness(**OPTS)
def nothing_beats_it(w):
    """No candidate scores above it."""
    t = _thy(w)
    a, b, s = _model(w)
    g = _gamma(w)
    A, C, D = w.var("A", lo=0.01, hi=100), w.var("C", lo=-10, hi=10), w.var("D", lo=0.01, hi=100)
    S = D - g * C * C / A
    w.assume(S > 0)
    _log_facts(w, (a, A), (s, S))
    if w.symbolic:
        k = g * C / A
        w.assume(((b - k) * (b - k) * a + s) / S >= s / S)
        w.assume(w.np.log(a) - w.np.log(A) <= a / A - 1)
        w.assume(w.np.log(s) - w.np.log(S) <= s / S - 1)
    best = -(w.np.log(a) + 1 + w.np.log(s) + 1) / 2        # what the closed form attains (above)
    w.le("not above the closed form", t.schur_loglik_population(a, b, s, g, A, C, D), best, tol=1e-9)


@harness([dict(which=k) for k in ("marginal", "conditional")], **OPTS)
def not_a_candidate(w, which):
    """A candidate outside the domain scores minus infinity."""
    t = _thy(w)
    a, b, s = _model(w)
    g = _gamma(w)
    A, C = w.var("A", lo=0.01), w.var("C")
    if which == "marginal":
        v = t.schur_loglik_population(a, b, s, g, -A, C, w.real(1))
    else:
        v = t.schur_loglik_population(a, b, s, g, A, C, g * C * C / A - w.var("gap", lo=0))
    w.check("minus infinity", isinstance(v, float) and v == float("-inf"))


@harness(**OPTS)
def leaves_the_cone_at_the_threshold(w):
    """It is a covariance exactly when the predicate says so, which is exactly above the solved coupling threshold."""
    t = _thy(w)
    a, b, s = _model(w)
    g = _gamma(w)
    A, C, D = t.closed_form_maximizer(a, b, s, g)
    det = A * D - C * C
    w.assume(abs(det) > 0.001)
    said = t.spd_threshold_holds(a, b, s, g)
    said = w.fork(said) if w.symbolic else bool(said)
    if said:
        w.lt("determinant positive", w.real(0), det)
    else:
        w.le("determinant not positive", det, w.real(0))


@harness([dict(e=e, m=m) for e in (0, 1, 2) for m in (1, 2)], **OPTS)
def exactly_at_the_threshold(w, e, m):
    """Where the maximiser is exactly singular it is not a covariance, and the predicate says so; likewise where there
    is no coupling at all it is one."""
    t = _thy(w)
    g, k = w.frac(1, 2 ** m), 2 ** m * (2 ** m - 1)      # g^2 s = (1 - g) b^2 a  at  s = k b^2 a
    b = w.real((1, 2, -4)[e])
    a = w.real((1, 0.5, 0.25)[e])
    s = k * b * b * a
    A, C, D = t.closed_form_maximizer(a, b, s, g)
    w.eq("singular", A * D - C * C, w.real(0))
    said = t.spd_threshold_holds(a, b, s, g)
    w.check("not a covariance", not (w.fork(said) if w.symbolic else bool(said)))
    near = t.spd_threshold_holds(a, b, s * w.frac(65, 64), g)
    w.check("a covariance just above", w.fork(near) if w.symbolic else bool(near))
    alone = t.spd_threshold_holds(a, w.real(0), s, g)
    w.check("a covariance without coupling", w.fork(alone) if w.symbolic else bool(alone))


@harness(**OPTS)
def threshold(w):
    """The solved threshold is the root in (0,1) of its quadratic, and the predicate agrees on either side."""
    t = _thy(w)
    e, s = w.var("e", lo=0.01, hi=100), w.var("s", lo=0.01, hi=100)
    r = e / (e + s)
    m = t._solve_spd_threshold(r)
    w.eq("root", m * m * (1 - r) - (1 - m) * r, w.real(0), atol=1e-6)
    w.lt("positive", w.real(0), m)
    w.lt("below one", m, w.real(1))
    w.record("m", [m])


@harness(**OPTS)
def threshold_grows_with_coupling(w):
    """Stronger coupling raises the threshold."""
    t = _thy(w)
    r, q = w.var("r", lo=0.01, hi=0.98), w.var("q", lo=0.01, hi=0.98)
    w.assume(q - r > 0.001)
    m, k = t._solve_spd_threshold(r), t._solve_spd_threshold(q)
    if w.symbolic:      # both are the positive root of x^2 (1 - r) + x r - r
        for x, v in ((m, r), (k, q)):
            w.assume(x > 0)
            w.assume(x < 1)
            w.assume(x * x * (1 - v) + x * v - v == 0)
    w.lt("larger", m, k)


SPLITS = [[1, 1], [1, 2], [2, 1], [1, 1, 1], [3], [2], [1]]


def _cand(w, sizes, name="S"):
    p = sum(sizes)
    return zoo._psd(w, name, p, pd=True)


def _chain(w, S, sizes, g):
    """Per block: effective regression and damped conditional covariance, from determinants and adjugates."""
    out, prev = [], []
    for k, n in enumerate(sizes):
        rows = list(range(len(prev), len(prev) + n))
        if not prev:
            out.append((rows, [], None, _pick(S, rows)))
        else:
            P = _inv(_pick(S, prev))
            G = [[g * sum((S[i][u] * P[a][c] for a, u in enumerate(prev)), w.real(0)) for c in range(len(prev))] for i in rows]
            D = [[S[i][j] - sum((G[x][c] * S[u][j] for c, u in enumerate(prev)), w.real(0)) for j in rows]
                 for x, i in enumerate(rows)]
            out.append((rows, prev, G, D))
        prev = prev + rows
    return out


def _ok(w, blocks):
    """Conditional covariances positive definite."""
    for _, _, _, D in blocks:
        w.assume(D[0][0] > 0.01)
        if len(D) > 1:
            w.assume(_det(D) > 0.01)


@harness([dict(sizes=str(z), g=g) for z in ([1], [1, 1], [1, 1, 1], [2]) for g in ("any", "one") if sum(z) < 3 or g == "one"], eig="closed", **OPTS)
def expected_likelihood(w, sizes, g):
    """The expected chain likelihood is the sum over blocks of the expected conditional Gaussian log-density."""
    z = eval(sizes)
    t = _thy(w)
    S, T = _cand(w, z), _cand(w, z, "T")
    if sum(z) > 2:        # truth on the diagonal keeps the largest case decidable
        T = [[T[i][j] if i == j else w.real(0) for j in range(3)] for i in range(3)]
    gm = w.real(1) if g == "one" else _gamma(w)
    blocks = _chain(w, S, z, gm)
    _ok(w, blocks)
    ref = w.real(0)
    for rows, prev, G, D in blocks:
        n, P = len(rows), _inv(D)
        M = _pick(T, rows)
        if prev:
            m = len(prev)
            M = [[T[i][j] - sum((G[x][c] * T[prev[c]][j] + T[i][prev[c]] * G[y][c] for c in range(m)), w.real(0))
                  + sum((G[x][c] * T[prev[c]][prev[d]] * G[y][d] for c in range(m) for d in range(m)), w.real(0))
                  for y, j in enumerate(rows)] for x, i in enumerate(rows)]
        ref = ref - (w.np.log(_det(D)) + sum((P[i][j] * M[j][i] for i in range(n) for j in range(n)), w.real(0))) / 2
    got = t.expected_schur_loglik(w.array(T), w.array(S), z, gm)
    if w.symbolic and max(z) > 1:      # the log-determinant is computed from eigenvalues
        w.assume(_sumlog(w, blocks) == sum((w.np.log(_det(D)) for *_, D in blocks), w.real(0)))
    w.eq("value", got, ref, tol=1e-6)


def _sumlog(w, blocks):
    return sum((sum(w.np.log(v) for v in w.np.linalg.eigvalsh(w.array(D))) for *_, D in blocks), w.real(0))


@harness([dict(sizes=str(z)) for z in ([1, 1], [1, 1, 1], [1, 2], [2, 1], [2])], **OPTS)
def general_maximiser_recovers_the_law(w, sizes):
    """The sequential closed form: every block's effective regression and damped conditional covariance are the truth's."""
    z = eval(sizes)
    t = _thy(w)
    T = _cand(w, z, "T")
    g = _gamma(w)
    Z = t.closed_form_general(w.array(T), z, g)
    p = sum(z)
    for i in range(p):
        for j in range(i):
            w.eq("symmetric", Z[i, j], Z[j, i])
    if p == 3 and z != [1, 1, 1]:
        w.eq("first block", Z[0, 0], T[0][0])
        return
    S = [[Z[i, j] for j in range(p)] for i in range(p)]
    got, true = _chain(w, S, z, g), _chain(w, T, z, w.real(1))
    for (rows, prev, G, D), (_, _, B, R) in zip(got, true):
        if not prev:
            w.eq("first block", w.array(D), w.array(R))
            continue
        for x in range(len(rows)):
            for c in range(len(prev)):
                w.eq("regression", G[x][c], B[x][c], tol=1e-5)
            for y in range(len(rows)):
                w.eq("conditional covariance", D[x][y], R[x][y], tol=1e-5)


@harness([dict(sizes=str(z)) for z in SPLITS], **OPTS)
def full_coupling_is_the_precision(w, sizes):
    """With full coupling the operator is the precision and its log-determinant the covariance's."""
    z = eval(sizes)
    S = _cand(w, z)
    W, L = _god(w).schur_operator(w.array(S), z, w.real(1))
    p, P = sum(z), _inv(S)
    for i in range(p):
        for j in range(p):
            w.eq("precision", W[i, j], P[i][j], tol=1e-5)
    facts = [w.np.log(_det(D)) for *_, D in _chain(w, S, z, w.real(1))]
    if w.symbolic:
        w.assume(sum(facts, w.real(0)) == w.np.log(_det(S)))
    w.eq("log-determinant", L, w.np.log(_det(S)), tol=1e-5)


@harness([dict(sizes=str(z)) for z in ([1, 1], [1, 1, 1], [1, 2], [2, 1])], **OPTS)
def no_coupling_is_block_diagonal(w, sizes):
    """With no coupling the operator is the inverse of the diagonal blocks."""
    z = eval(sizes)
    S = _cand(w, z)
    W, L = _god(w).schur_operator(w.array(S), z, w.real(0))
    p, start, ld = sum(z), 0, w.real(0)
    R = [[w.real(0)] * p for _ in range(p)]
    for n in z:
        ix = list(range(start, start + n))
        B = _pick(S, ix)
        P = _inv(B)
        ld = ld + w.np.log(_det(B))
        for x, i in enumerate(ix):
            for y, j in enumerate(ix):
                R[i][j] = P[x][y]
        start += n
    for i in range(p):
        for j in range(p):
            w.eq("inverse block", W[i, j], R[i][j], tol=1e-5)
    w.eq("log-determinant", L, ld, tol=1e-6)


@harness([dict(sizes=str(z), g=g) for z in ([1, 1, 1, 1], [2, 2], [1, 3], [1, 2, 1, 1], [1, 1, 1, 1, 1], [2, 1, 2, 1]) for g in (0, 0.5, 1)], **OPTS)
def operator_of_many_blocks(w, sizes, g):
    """More blocks, a fixed covariance with one entry left free: the operator is the sum over blocks of the quadratic forms of their
    residuals on all the blocks before, its log-determinant the sum of theirs."""
    z = eval(sizes)
    p = sum(z)
    S = [[w.real(p + 1 if i == j else ((i + 2) * (j + 2) % 5 - 2) / 2) for j in range(p)] for i in range(p)]
    S[p - 1][0] = S[0][p - 1] = w.var("s", lo=-0.5, hi=0.5)
    W, L = _god(w).schur_operator(w.array(S), z, w.real(g))
    R, ld, start = [[w.real(0)] * p for _ in range(p)], w.real(0), 0
    for n in z:
        prev, rows = list(range(start)), list(range(start, start + n))
        K = [[w.real(g) * v for v in row] for row in _solve(_pick(S, prev), [[S[u][i] for i in rows] for u in prev])]
        D = [[S[i][j] - sum((K[u][x] * S[u][j] for u in prev), w.real(0)) for j in rows] for x, i in enumerate(rows)]
        D = [[(D[x][y] + D[y][x]) / 2 for y in range(n)] for x in range(n)]
        A = [[-K[u][x] for u in prev] + [w.real(1 if x == y else 0) for y in range(n)] for x in range(n)]
        Y = _solve(D, A)
        ld = ld + w.np.linalg.slogdet(w.array(D))[1]
        for i in range(start + n):
            for j in range(start + n):
                R[i][j] = R[i][j] + sum((A[x][i] * Y[x][j] for x in range(n)), w.real(0))
        start += n
    for i in range(p):
        for j in range(i + 1):
            w.eq(f"operator {i}{j}", W[i, j], R[i][j], tol=1e-6)
    w.eq("log-determinant", L, ld, tol=1e-6)


def _solve(A, B):
    """A^-1 B by elimination."""
    n = len(A)
    M = [list(A[i]) + list(B[i]) for i in range(n)]
    for i in range(n):
        M[i] = [v / M[i][i] for v in M[i]]
        for k in range(n):
            if k != i:
                f = M[k][i]
                M[k] = [a - f * b for a, b in zip(M[k], M[i])]
    return [row[n:] for row in M]


@harness([dict(g=k) for k in ("any", "one", "zero")], **OPTS)
def discrimination(w, g):
    """The signal-to-noise ratio is mean over standard deviation of the score difference, and antisymmetric."""
    d = _god(w)
    g = w.real(1) if g == "one" else w.real(0) if g == "zero" else w.frac(1, 2)
    A, B, T = ([[w.var(n + "0", lo=0.1, hi=10), w.real(0)], [w.real(0), w.var(n + "1", lo=0.1, hi=10)]] for n in "ABT")
    w.assume(abs(A[0][0] - B[0][0]) > 0.1)
    got = d.snr(w.array(A), w.array(B), w.array(T), [1, 1], g)
    dw = [1 / A[i][i] - 1 / B[i][i] for i in range(2)]
    mu = -(w.np.log(A[0][0]) + w.np.log(A[1][1]) - w.np.log(B[0][0]) - w.np.log(B[1][1])
           + dw[0] * T[0][0] + dw[1] * T[1][1]) / 2
    var = (dw[0] ** 2 * T[0][0] ** 2 + dw[1] ** 2 * T[1][1] ** 2) / 2
    w.eq("ratio", got, mu / w.np.sqrt(var), tol=1e-5)
    w.eq("antisymmetric", d.snr(w.array(B), w.array(A), w.array(T), [1, 1], g), -got, tol=1e-6)


@harness([dict(n=n, k=k) for n in (1, 2) for k in ("metric_power", "schur_godambe")], **OPTS)
def divergence(w, n, k):
    """The Kullback-Leibler divergence has its closed form and vanishes at the truth."""
    m = w.mod("research." + k)
    T, S = zoo._psd(w, "T", n, pd=True), zoo._psd(w, "S", n, pd=True)
    kl = (lambda t, e: m._kl(t, e)) if k == "metric_power" else (lambda t, e: m._kl(e, t))
    P = _inv(S)
    tr = sum((P[i][j] * T[j][i] for i in range(n) for j in range(n)), w.real(0))
    got = kl(w.array(T), w.array(S))
    w.eq("value", got, (tr - n + w.np.log(_det(S)) - w.np.log(_det(T))) / 2, tol=1e-5)
    w.eq("zero at the truth", kl(w.array(T), w.array(T)), w.real(0), atol=1e-6)
    if n == 1:
        _log_facts(w, (T[0][0], S[0][0]))
        w.le("not negative", w.real(0), got, tol=1e-9)


@harness(**OPTS)
def optimal_coupling(w):
    """gamma* is the reliability b^2 / (b^2 + Var b_hat) and minimises the expected predictive residual."""
    g = w.mod("research.schur_gamma_star")
    n = w.var("n", lo=3, hi=1000, integer=True)
    a, b, s = _model(w)
    w.assume(abs(b) > 0.01)
    rho = b * b * a / (b * b * a + s)
    got = g.gamma_star(n, rho)
    var = s / (a * (n - 2))
    w.eq("reliability", got, b * b / (b * b + var), tol=1e-6)
    w.lt("positive", w.real(0), got)
    w.lt("below one", got, w.real(1))
    w.record("g", [got])

    def R(c):
        return (b * b * (1 - c) * (1 - c) + c * c * var) * a + s
    ref = b * b / (b * b + var)
    w.le("minimises the residual", R(ref), R(w.var("c")), tol=1e-9)


@harness(**OPTS)
def optimal_coupling_is_monotone(w):
    """More data or stronger coupling earn more trust; at three observations it is the coupling itself."""
    g = w.mod("research.schur_gamma_star")
    n, m = w.var("n", lo=3, hi=1000, integer=True), w.var("m", lo=3, hi=1000, integer=True)
    r, q = w.var("r", lo=0.01, hi=0.99), w.var("q", lo=0.01, hi=0.99)
    w.assume(n <= m)
    w.assume(r <= q)
    w.le("in the sample size", g.gamma_star(n, r), g.gamma_star(m, r), tol=1e-9)
    w.le("in the coupling", g.gamma_star(n, r), g.gamma_star(n, q), tol=1e-9)
    w.eq("at three", g.gamma_star(3, r), r)
    w.eq("none", g.gamma_star(n, w.real(0)), w.real(0))
    w.eq("full", g.gamma_star(n, w.real(1)), w.real(1))


@harness(**OPTS)
def realised_coupling(w):
    """The parameters chosen for a coupling realise it."""
    g = w.mod("research.schur_gamma_star")
    r, s = w.var("r", lo=0.01, hi=0.99), w.var("s", lo=0.01, hi=100)
    a, b, t = g._ab_s_from(r, s)
    w.eq("coupling", b * b * a / (b * b * a + t), r, tol=1e-6)
    w.eq("noise", t, s)


@harness([dict(n=n, T=T) for n in (1, 2) for T in (1, 3)], **OPTS)
def research_judges(w, n, T):
    """The research metrics have their published values: log-density, calibration, portfolio variance."""
    m = _met(w)
    S = zoo._psd(w, "S", n, pd=True)
    X = zoo.rows(w, "x", T, n)
    rows = [[X[t, i] for i in range(n)] for t in range(T)]
    P = _inv(S)
    C = w.array(S)
    q = sum((P[i][j] * x[i] * x[j] for x in rows for i in range(n) for j in range(n)), w.real(0)) / T
    w.eq("log-density", m._loglik(C, X), -(w.np.log(_det(S)) + q) / 2, tol=1e-5)
    w.eq("calibration", m._mahalanobis_cal(C, X), -abs(q - n), tol=1e-5)
    one = sum((P[i][j] for i in range(n) for j in range(n)), w.real(0))
    wt = [sum(P[i], w.real(0)) / one for i in range(n)]
    w.eq("portfolio variance", m._min_variance(C, X),
         -sum((sum((x[i] * wt[i] for i in range(n)), w.real(0)) ** 2 for x in rows), w.real(0)) / T, tol=1e-5)
    v = w.arr("d", 2, n)
    for k in range(2):
        w.assume(sum((v[k, i] * v[k, j] * S[i][j] for i in range(n) for j in range(n)), w.real(0)) > 0.001)
    pv = [sum((v[k, i] * v[k, j] * S[i][j] for i in range(n) for j in range(n)), w.real(0)) for k in range(2)]
    pr = [[sum((x[i] * v[k, i] for i in range(n)), w.real(0)) for k in range(2)] for x in rows]
    ref = sum((-(w.np.log(pv[k]) + y[k] ** 2 / pv[k]) / 2 for y in pr for k in range(2)), w.real(0)) / (2 * T)
    w.eq("projections", m._random_projection(C, X, v), ref, tol=1e-5)


@harness([dict(n=n) for n in (1, 2, 3)], **OPTS)
def identity_projection(w, n):
    """Projecting on the whole space is the likelihood itself."""
    m = _met(w)
    S = zoo._psd(w, "S", n, pd=True)
    X = zoo.rows(w, "x", 2, n)
    w.eq("whole space", m._kproj_loglik(w.array(S), X, [w.np.eye(n)]), m._loglik(w.array(S), X), tol=1e-5)


@harness([dict(sizes=str(z)) for z in ([1, 1], [1, 2])], **OPTS)
def block_identifiers(w, sizes):
    """Consecutive, disjoint, covering blocks."""
    z = eval(sizes)
    b = _thy(w)._blocks(z)
    w.eq("cover", [i for x in b for i in x], list(range(sum(z))))
    w.eq("sizes", [len(x) for x in b], z)


@harness([dict(n=n) for n in (2, 3, 4)], **OPTS)
def quadratic_form_variance(w, n):
    """Var <G, S> of a Gaussian sample covariance is the double sum of its published sampling covariance."""
    m = w.mod("research.schur_spiked")
    G, S = w.symm("g", n), w.symm("s", n)
    N = w.var("N", lo=1, hi=1000)
    R = range(n)
    ref = sum((G[i, j] * G[k, l] * (S[i, k] * S[j, l] + S[i, l] * S[j, k]) for i in R for j in R for k in R for l in R),
              w.real(0)) / N
    w.eq("variance", m._cov_quadform(G, S, N), ref, tol=1e-6)


@harness([dict(n=n) for n in (1, 2, 3)], **OPTS)
def shrunk_pair(w, n):
    """The two shrunk estimates are convex combinations with the scaled identity and keep the trace."""
    m = w.mod("research.schur_spiked")
    S = w.symm("s", n)
    a, b = w.var("a", lo=0, hi=1), w.var("b", lo=0, hi=1)
    tr = sum((S[i, i] for i in range(n)), w.real(0))
    for M, al in zip(m._estimates(S, a, b), (a, b)):
        for i in range(n):
            for j in range(n):
                w.eq("combination", M[i, j], (1 - al) * S[i, j] + (al * tr / n if i == j else 0))
        w.eq("trace", sum((M[i, i] for i in range(n)), w.real(0)), tr)


def _spk(w):
    return w.mod("research.schur_spiked")


@harness([dict(sizes=str(z)) for z in ([1, 1], [1, 2], [2, 1])], eig="closed", **OPTS)
def canonical_correlations(w, sizes):
    """The squared canonical correlation of a variable with a block is its squared multiple correlation (with nothing left for the other
    directions of the block), whichever of the two comes first."""
    z = eval(sizes)
    p = sum(z)
    S = _cand(w, z)
    got = _thy(w).canonical_corr2(w.array(S), z[0])
    one = 0 if z[0] == 1 else p - 1
    rest = [i for i in range(p) if i != one]
    P = _inv(_pick(S, rest))
    s = [S[one][i] for i in rest]
    k = len(rest)
    R2 = sum((s[a] * P[a][b] * s[b] for a in range(k) for b in range(k)), w.real(0)) / S[one][one]
    w.eq("as many as the first block is wide", len(got), z[0])
    w.eq("largest", got[0], R2, tol=1e-5)
    for v in list(got)[1:]:
        w.eq("no other", v, w.real(0), atol=1e-6)


@harness([dict(a=a, k=k) for a in (1, 3) for k in (0, 1)], **OPTS)
def canonical_correlations_of_known_blocks(w, a, k):
    """Two pairs of variables in any units with given correlations across: those are the canonical correlations."""
    u = [w.real(v) for v in ((1, 1, 1, 1), (a, 1, 2, 5))[k]]
    r, q = w.frac(3, 5), w.frac(-2, 5)
    C = [[1, 0, r, 0], [0, 1, 0, q], [r, 0, 1, 0], [0, q, 0, 1]]
    S = [[C[i][j] * u[i] * u[j] for j in range(4)] for i in range(4)]
    w.eq("squared", _thy(w).canonical_corr2(w.array(S), 2), w.array([r * r, q * q]), tol=1e-6)


def _shrunk(w, S, al):
    n = len(S)
    tr = sum((S[i][i] for i in range(n)), w.real(0))
    return [[(1 - al) * S[i][j] + (al * tr / n if i == j else 0) for j in range(n)] for i in range(n)]


@harness([dict(g=k) for k in ("any", "one")], **OPTS)
def score_gap(w, g):
    """The expected score gap of the two shrunk estimates: the definition by their operators, antisymmetric, nothing for equal shrinkage;
    with full coupling it is the difference of their divergences from the truth."""
    m, d = _spk(w), _god(w)
    z = [1, 1]
    S = _cand(w, z)
    T = [[w.var("T0", lo=0.1, hi=10), w.real(0)], [w.real(0), w.var("T1", lo=0.1, hi=10)]]
    a, b = w.frac(1, 2), w.frac(1, 4)
    gm = w.real(1) if g == "one" else _gamma(w)
    w.assume(S[0][0] > 0.01)
    w.assume(_det(S) > 0.01)
    with _Spd(w, m):
        got = m._score_gap(w.array(S), z, gm, w.array(T), a, b)
        back = m._score_gap(w.array(S), z, gm, w.array(T), b, a)
        none = m._score_gap(w.array(S), z, gm, w.array(T), a, a)
    A, B = (w.array(_shrunk(w, S, k)) for k in (a, b))
    (WA, LA), (WB, LB) = d.schur_operator(A, z, gm), d.schur_operator(B, z, gm)
    ref = -(LA - LB + sum(((WA[i, i] - WB[i, i]) * T[i][i] for i in range(2)), w.real(0))) / 2
    w.eq("definition", got, ref, tol=1e-6)
    w.eq("antisymmetric", back, -got, tol=1e-6)
    w.eq("of equals", none, w.real(0), atol=1e-9)


class _Spd:
    """Shrunk estimates of a covariance are positive definite (decided by the determinants assumed)."""

    def __init__(self, w, m):
        self.p = _Patched(m, _is_spd=lambda M, *a: True) if w.symbolic else None

    def __enter__(self):
        return self.p and self.p.__enter__()

    def __exit__(self, *a):
        return self.p and self.p.__exit__(*a)


@harness([dict(case=k) for k in ("first", "second")], **OPTS)
def no_gap_without_two_covariances(w, case):
    """Where one of the estimates is not a covariance the gap is undefined, and says so."""
    m = _spk(w)
    S = w.array([[w.real(1), w.real(3)], [w.real(3), w.real(1)]])       # indefinite unless shrunk by two thirds
    a, b = (w.frac(9, 10), w.frac(1, 2)) if case == "second" else (w.frac(1, 2), w.frac(9, 10))
    got = m._score_gap(S, [1, 1], w.frac(1, 2), w.np.eye(2), a, b)
    w.check("undefined", bool(w.np.isnan(got)))
    ok = m._score_gap(S, [1, 1], w.frac(1, 2), w.np.eye(2), w.frac(9, 10), w.frac(8, 10))
    w.check("defined", not bool(w.np.isnan(ok)))


@harness([dict(n=n) for n in (1, 2, 3)], **OPTS)
def gradient(w, n):
    """The gradient is symmetric and its entries are the central differences of the gap, exact for a linear gap whatever the step: an entry
    off the diagonal is the change with one of the two equal entries, or with both."""
    m = _spk(w)
    L, S = w.symm("l", n), w.symm("s", n)
    c = w.var("c")
    R = range(n)
    for h in (w.frac(1, 1024), w.frac(1, 2)):
        with _Patched(m, _score_gap=lambda X, *a, **k: c + sum((L[i, j] * X[i, j] for i in R for j in R), w.real(0))):
            G = m._grad_score_gap(S, [1] * n, w.frac(1, 2), S, w.frac(1, 2), w.frac(1, 20), h=h)
        both = None
        for i in R:
            w.eq("diagonal", G[i, i], L[i, i], tol=1e-5)
            for j in range(i):
                w.eq("symmetric", G[i, j], G[j, i])
                if both is None:
                    w.assume(abs(L[i, j]) > w.real(0.01))
                    both = bool(w.fork(abs(G[i, j]) > abs(L[i, j]) * w.frac(3, 2)))
                w.eq("off the diagonal", G[i, j], L[i, j] * (2 if both else 1), tol=1e-5)


@harness([dict(n=2)], validate=False, **OPTS)
def gradient_counts_pairs_once(w, n):
    """Taken with the sampling covariance of a whole matrix, the gradient counts a pair of equal entries once: the inner product of the
    gradient of a linear gap with a change is the change of the gap."""
    m = _spk(w)
    with _Patched(m, _score_gap=lambda X, *a, **k: X[0, 1] + X[1, 0]):
        G = m._grad_score_gap(w.np.eye(2), [1, 1], w.frac(1, 2), w.np.eye(2), w.frac(1, 2), w.frac(1, 20), h=w.frac(1, 1024))
    w.eq("the pair counts once", G[0, 1] + G[1, 0], w.real(2), tol=1e-5)


@harness([dict(n=n) for n in (1, 2)], **OPTS)
def delta_method(w, n):
    """The delta-method signal is the gap at the truth, its spread that of the linearised gap under the sampling covariance of a Gaussian
    sample covariance, and the ratio is signal over spread."""
    m = _spk(w)
    G, T = w.symm("l", n), w.array(_cand(w, [1] * n, "T"))
    N = w.var("N", lo=1, hi=1000)
    R = range(n)
    c = w.var("c")
    seen = []

    def gap(*a, **k):
        seen.append(a)
        return c
    g, al, be = w.frac(1, 3), w.frac(1, 2), w.frac(1, 20)
    with _Patched(m, _score_gap=gap, _grad_score_gap=lambda *a, **k: seen.append(a) or G):
        mean, sd, ratio = m.snr_delta(n, N, [1] * n, g, al, be, T)
    w.assume(len(seen) == 2 and all(len(a) == 6 for a in seen))
    for S, z, gm, truth, x, y in seen:
        w.eq("at the truth", (S, truth), (T, T))
        w.eq("settings", (list(z), gm, x, y), ([1] * n, g, al, be))
    var = sum((G[i, j] * G[k, l] * (T[i, k] * T[j, l] + T[i, l] * T[j, k]) for i in R for j in R for k in R for l in R), w.real(0)) / N
    w.assume(var > 0.01)
    w.eq("signal", mean, c)
    w.eq("spread", sd * sd, var, tol=1e-4)
    w.eq("ratio", ratio * sd, mean, tol=1e-5)


class _Normal:
    """Arbitrary normal draws, with what was asked for."""

    def __init__(self, w):
        self.w, self.calls = w, []

    def normal(self, loc, scale, size):
        k = len(self.calls)
        v = self.w.array([self.w.var(f"z{k}_{i}", lo=-3, hi=3) for i in range(size)])
        self.calls.append((loc, scale, size, v))
        return v * scale + loc


@harness([dict(n=n, draws=k) for n in (1, 2, 3) for k in (1, 2)], **OPTS)
def predictive_residual(w, n, draws):
    """The simulated residual is the mean over draws of the damped regression's expected squared error."""
    m = w.mod("research.schur_gamma_star")
    a, b, s = _model(w)
    g = _gamma(w)
    r = _Normal(w)
    got = m.residual_R(g, a, b, s, n, draws, r)
    w.assume(len(r.calls) == 2 * draws)
    ref = w.real(0)
    for k in range(draws):
        (l1, s1, n1, z1), (l2, s2, n2, z2) = r.calls[2 * k:2 * k + 2]
        w.eq("sizes", (n1, n2), (n, n))
        w.eq("centred", (l1, l2), (0, 0))
        w.eq("regressor variance", s1 * s1, a, tol=1e-9)
        w.eq("noise variance", s2 * s2, s, tol=1e-9)
        xx = sum((z * z for z in z1), w.real(0)) * s1 * s1
        w.assume(xx > 0.001)
        slope = b + sum((u * v for u, v in zip(z1, z2)), w.real(0)) * s1 * s2 / xx
        ref = ref + (b - g * slope) * (b - g * slope) * a + s
    w.eq("residual", got, ref / draws, tol=1e-6)


class _NoRng:
    """numpy with a generator nobody needs."""

    def __init__(self, np):
        self._np = np
        self.random = self

    def default_rng(self, *a, **k):
        return None

    def __getattr__(self, k):
        return getattr(self._np, k)


@harness([dict(c=c) for c in (0.0, 0.371, 0.5, 1.0)], **OPTS)
def simulated_optimum(w, c):
    """The simulated optimum is the trust of least residual, to the resolution of the grid."""
    m = w.mod("research.schur_gamma_star")
    k = w.var("k", lo=0.1, hi=10)
    with _Patched(m, np=_NoRng(w.np), residual_R=lambda g, *a, **kw: k * (g - w.real(c)) * (g - w.real(c))):
        got = m.empirical_gamma_star(w.real(0.5), 10, n_draws=3)
    w.le("near", abs(got - w.real(c)), w.real(0.010001))
