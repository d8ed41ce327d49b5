"""Bounds: whole histories of 1..8 observations (quick; 1..14 thorough) in 1-3 dimensions, every real
observation symbolic, fed as rows, as one batch, or split at every point; plus one update from an
arbitrary state after any number n >= 0 of observations (dimension 1-3), which carries the law to
every stream length, under the stated invariant that the checkpoint holds the mean and covariance."""
from vx.api import harness
from props import zoo


def _jobs(env):
    N = 14 if env.thorough else 8
    return [dict(d=d, T=T) for d in (1, 2, 3) for T in (1, 2, 3, N)] + [dict(d=2, T=5), dict(d=4, T=4)]


@harness(_jobs, la="uf", canon=True)
def sample_moments(w, d, T):
    """location_ is the sample mean and covariance_ the population (1/n) covariance."""
    X = zoo.rows(w, "x", T, d)
    e = w.precise.EmpiricalCovariance()
    for t in range(T):
        e.partial_fit(X[t])
        n = t + 1
        if n not in (1, 2, T):
            continue
        m = [sum((X[i, j] for i in range(n)), w.real(0)) / w.num(n) for j in range(d)]
        w.eq(f"mean@{n}", e.location_, w.array(m))
        S = [[sum(((X[i, a] - m[a]) * (X[i, b] - m[b]) for i in range(n)), w.real(0)) / w.num(n)
              for b in range(d)] for a in range(d)]
        w.eq(f"covariance@{n}", e.covariance_, w.array(S))
        w.eq(f"n@{n}", e.n_samples_, n)
    w.eq("np.cov", e.covariance_, w.np.atleast_2d(w.np.cov(X, rowvar=False, bias=True)))
    w.eq("fit", w.precise.EmpiricalCovariance().fit(X).covariance_, e.covariance_)


@harness(lambda env: [dict(d=d, lo=lo) for d in (1, 2, 3) for lo in (1,)], la="uf", canon=True,
         havoc=True, validate=False)
def one_more_observation(w, d, lo):
    """From any state: the moments of n+1 observations in terms of the moments of n."""
    e = zoo.havoc(w, w.precise.EmpiricalCovariance, {}, d, lo=lo, psd=False)
    n, m, S = e.n_samples_, e.location_, e.covariance_
    x = w.arr("x", d)
    e.partial_fit(x)
    w.eq("n", e.n_samples_, n + 1)
    k = w.num(n + 1)
    for i in range(d):
        w.eq(f"mean[{i}]", e.location_[i] * k, m[i] * n + x[i])
        for j in range(d):
            w.eq(f"cov[{i}][{j}]", e.covariance_[i, j] * k * k,
                 S[i, j] * n * k + (x[i] - m[i]) * (x[j] - m[j]) * n)


@harness([dict(d=2, N=N) for N in (40, 130, 520, 1100, 2100, 5200)] + [dict(d=9, N=12), dict(d=17, N=5), dict(d=33, N=4)], la="uf",
         canon=True, paths=2, timeout=200)
def long_and_wide(w, d, N):
    """The same for long and for wide samples, of which three observations are arbitrary and the others fixed."""
    X = zoo.long_rows(w, "x", N, d)
    e = w.precise.EmpiricalCovariance()
    for t in range(N):
        e.partial_fit(X[t])
    n = w.num(N)
    m = [sum((X[i, j] for i in range(N)), w.real(0)) / n for j in range(d)]
    w.eq("mean", e.location_, w.array(m))
    pairs = [(a, b) for a in range(d) for b in range(d) if d < 4 or a in (0, d // 2, d - 1)]
    raw = {}
    for a, b in pairs:
        raw[a, b] = sum((X[i, a] * X[i, b] for i in range(N)), w.real(0)) / n - m[a] * m[b]
    C = e.covariance_
    for a, b in pairs:
        w.eq(f"covariance {a} {b}", C[a, b], raw[a, b])
    w.eq("count", e.n_samples_, N)
