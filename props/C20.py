"""Bounds: whole streams of 1-8 observations, dimension 1-6, k = 1..5 (beyond the dimension included), rates 1/2, 1/4
and 1; structure of the reading from any state, dimension up to 5; every data value."""
from vx.api import harness
from props import zoo


def _cls(w):
    return w.mod("precise.registry").estimator_from_name("FactorCovariance")


def _tiny(w):
    return w.frac(1, 10 ** 12)


def _reference(w, X, k, r):
    """Candid incremental principal components with deflation, and a running variance of each variable; plain
    averages over the first k + 1 observations, exponential weights afterwards.  Each component is seeded by the first
    deflated innovation that finds it empty."""
    np, d = w.np, len(X[0])
    k = min(k, d)
    m = var = None
    V = [w.array([w.real(0)] * d) for _ in range(k)]
    for t, x in enumerate(X):
        n = t + 1
        x = w.array(list(x))
        if n == 1:
            m, var = x, np.zeros(d)
            continue
        u = x - m
        a = w.frac(1, n) if n <= k + 1 else r
        m, var = m + a * u, var + a * (u * u - var)
        for j in range(k):
            size = np.sqrt(sum((V[j][i] * V[j][i] for i in range(d)), w.real(0)))
            if w.fork(size < _tiny(w)):
                V[j] = u
                break
            vhat = V[j] / size
            proj = sum((u[i] * vhat[i] for i in range(d)), w.real(0))
            V[j] = (1 - a) * V[j] + a * proj * u
            u = u - proj * vhat
    return m, var, V


def _covariance(w, var, V):
    np, d = w.np, len(var)
    low, cap = np.zeros((d, d)), np.zeros(d)
    for v in V:
        size = np.sqrt(sum((v[i] * v[i] for i in range(d)), w.real(0)))
        if w.fork(size > _tiny(w)):
            low = low + np.outer(v, v) / size
            cap = cap + size * (v / size) ** 2
    return low + np.diag(np.maximum(var - cap, w.real(0)))


def _streams(env):
    js = [dict(d=d, k=k, T=T, r=r) for d, k, T, r in
          ((1, 1, 3, 0.5), (2, 1, 2, 0.5), (2, 1, 5, 0.25), (3, 1, 5, 0.5), (2, 2, 5, 0.5), (3, 2, 4, 1.0),
           (3, 2, 6, 0.5), (4, 2, 4, 0.5), (2, 5, 5, 0.25), (3, 3, 6, 0.5), (1, 3, 3, 0.5), (4, 1, 7, 0.25),
           (6, 1, 4, 0.5), (5, 3, 3, 0.5), (6, 2, 3, 0.5), (5, 4, 5, 0.5))]
    if env.thorough:
        js += [dict(d=d, k=k, T=T, r=0.5) for d in (2, 3, 4) for k in (1, 2, 3, 5) for T in (6, 8)]
    return js


@harness(_streams, la="uf", canon=True, paths=6, timeout=60, vtol=1e-2)
def recursion(w, d, k, T, r):
    """The whole estimate after any stream."""
    X = zoo.rows(w, "x", T, d)
    e = _cls(w)(k=k, r=w.real(r)).fit(X)
    m, var, V = _reference(w, X, k, w.real(r))
    C = _covariance(w, var, V)
    w.eq("mean", e.location_, m)
    w.eq("covariance", e.covariance_, (C + C.T) / 2, tol=1e-6)


@harness([dict(d=d, k=k, r=r) for d in (2, 3) for k in (1, 2) for r in (0.5, 0.25)], la="uf", canon=True, paths=8, timeout=60,
         vtol=1e-3)
def orthogonal_innovations(w, d, k, r):
    """An innovation at right angles to a direction turns it nowhere but fades it like any other."""
    x = w.arr("x", d)
    a, b, c = w.var("a", lo=0.1, hi=5), w.var("b", lo=0.1, hi=5), w.var("c", lo=0.1, hi=5)

    def move(m, i, t):
        return w.array([m[j] + (t if j == i else 0) for j in range(d)])
    X, e, m = [x], _cls(w)(k=k, r=w.real(r)), x
    e.partial_fit(x)
    for i, t in ((0, a), (1, b), (0, c), (1, a)):
        y = move(m, i, t)
        X.append(y)
        e.partial_fit(y)
        n = len(X)
        al = w.frac(1, n) if n <= min(k, d) + 1 else w.real(r)
        m = m + al * (y - m)
    m, var, V = _reference(w, X, k, w.real(r))
    C = _covariance(w, var, V)
    w.eq("mean", e.location_, m)
    w.eq("covariance", e.covariance_, (C + C.T) / 2, tol=1e-6)


def _stream(w, d, known, k, r):
    """A fixed history, then an observation with one arbitrary coordinate."""
    H = [[3, -1, 2, 0.5], [0.5, 2, 1, -1], [-2, 0.25, 1, 3], [1, -3, 0.5, 2], [0.25, 1.5, -2, 1], [4, 1, 3, -2]]
    rows = [[w.real(v) for v in h[:d]] for h in H[:known]]
    rows.append([w.var("x")] + [w.real(v) for v in (1, -0.5, 2)][:d - 1])
    return _cls(w)(k=k, r=w.real(r)).fit(w.array(rows)), rows


@harness([dict(d=d, known=n) for d, n in ((3, 1), (4, 1), (4, 2), (4, 3))], la="uf", canon=True, feas=True, fork_minmax=True,
         paths=8, timeout=60, required=False)
def one_factor_has_rank_one(w, d, known):
    """One factor: off the diagonal every 2 x 2 minor vanishes (the tetrads)."""
    e, _ = _stream(w, d, known, 1, 0.5)
    C = e.covariance_
    if d == 4:
        w.eq("tetrad", C[0, 1] * C[2, 3], C[0, 2] * C[1, 3], tol=1e-6)
        w.eq("tetrad", C[0, 1] * C[2, 3], C[0, 3] * C[1, 2], tol=1e-6)
    else:
        P = C[0, 1] * C[0, 2] * C[1, 2]
        w.le("triad", w.real(0), P)


def _state(w, d, k):
    e = zoo.havoc(w, _cls(w), {"k": k, "r": w.real(0.5)}, d, lo=k + 2)
    return e, e.get_state() if w.symbolic else None


@harness([dict(d=d, k=k) for d, k in ((1, 1), (2, 1), (3, 1), (2, 2), (3, 2), (4, 2), (3, 3), (4, 1))], la="uf",
         canon=True, feas=True, fork_minmax=True, paths=16, timeout=60, havoc=True, validate=False)
def diagonal_is_total_or_captured(w, d, k):
    """From any state each variance is the running variance, or what the directions capture where that is more."""
    e, s = _state(w, d, k)
    if not w.symbolic:
        return w.psd("covariance", e.covariance_)
    C, var = e.covariance_, w.array(s["var"])
    V = [w.array(v) for v in s["V"]]
    R = _covariance(w, var, V)
    for i in range(d):
        w.le("at least the total", var[i], C[i, i])
        w.eq("variance", C[i, i], R[i, i])
        for j in range(i):
            w.eq("covariance", C[i, j], R[i, j])


@harness([dict(d=d, k=k, T=T) for d in (1, 2, 3) for k in (1, 2) for T in (3, 6)], la="uf",
         paths=6, timeout=60, vtol=1e-2)
def more_factors_than_variables(w, d, k, T):
    """Asking for more factors than there are variables is asking for as many as there are, burn-in included."""
    X = zoo.rows(w, "x", T, d)
    a = _cls(w)(k=d, r=w.real(0.5)).fit(X)
    b = _cls(w)(k=d + k, r=w.real(0.5)).fit(X)
    zoo.same(w, "k", b, a)


@harness([dict(k=k, T=T) for k in (1, 2) for T in (2, 5)], la="uf", canon=True, paths=6, timeout=60, vtol=1e-2)
def default_is_two_factors(w, k, T):
    """The default is two factors at rate one in twenty."""
    X = zoo.rows(w, "x", T, 3)
    zoo.same(w, "default", _cls(w)().fit(X), _cls(w)(k=2, r=w.real(0.05)).fit(X))
    zoo.same(w, "k", _cls(w)(k).fit(X), _cls(w)(k=k).fit(X))
