"""Bounds: every registered estimator and variant, dimension 1-3 and 5, 4-9 levels, every single split of the stream,
row by row, a read between observations, and a checkpoint in the middle."""
from vx.api import harness
from props import zoo


def _jobs(env):
    js = []
    for c in zoo.configs(env, env.thorough):
        js += [dict(**c, d=2, T=8), dict(**c, d=5, T=4)]
        if env.thorough:
            js += [dict(**c, d=3, T=5), dict(**c, d=1, T=9)]
    return js


@harness(_jobs, la="uf", paths=4, timeout=90, vtol=1e-2)
def differences(w, est, v, d, T):
    """diff=True on levels gives what the plain estimator gives on consecutive differences."""
    cls, kw = zoo.build(w, est, v, sym=False)
    X = zoo.rows(w, "x", T, d)
    D = X[1:] - X[:-1]
    ref = cls(**kw).fit(D)
    one = cls(**kw, diff=True).partial_fit(X[0])
    w.eq("one level: n", one.n_samples_, 0)
    w.raises("one level: unfitted", ValueError, lambda: one.covariance_)
    row = cls(**kw, diff=True)
    for t in range(T):
        row.partial_fit(X[t])
        if t:
            step = cls(**kw).partial_fit(D[:t])
            w.eq(f"step {t}", row.covariance_, step.covariance_)
            w.eq(f"step {t} mean", row.location_, step.location_)
        w.eq(f"step {t} n", row.n_samples_, t)
    zoo.same(w, "rows", row, ref)
    zoo.same(w, "fit", cls(**kw, diff=True).fit(X), ref)
    for k in range(1, T):
        zoo.same(w, f"split{k}", zoo.feed(cls(**kw, diff=True), X, [k]), ref)
    e = cls(**kw, diff=True).partial_fit(X[::-1])
    zoo.same(w, "refit", e.fit(X), ref)
    a = cls(**kw, diff=True).partial_fit(X[:2])
    b = cls(**kw, diff=True).set_state(w.json(a.get_state()))
    zoo.same(w, "checkpoint", b.partial_fit(X[2:]), ref)
    zoo.same(w, "pickle", w.pickle(a).partial_fit(X[2:]), ref)


@harness(lambda env: zoo.configs(env), la="uf", paths=2, timeout=60, vtol=1e-2)
def differences_default_rate(w, est, v):
    """The same over the default-rate burn-in."""
    cls, kw = zoo.build(w, est, v, r=None, sym=False)
    X = zoo.rows(w, "x", 23, 2)
    ref = cls(**kw).fit(X[1:] - X[:-1])
    zoo.same(w, "fit", cls(**kw, diff=True).fit(X), ref)
    zoo.same(w, "split", zoo.feed(cls(**kw, diff=True), X, [1, 20, 21]), ref)


@harness(lambda env: [dict(est=e, N=N) for e in zoo.names(env) for N in (66, 131)], la="uf", paths=2, timeout=60, vtol=1e-2,
         max_decisions=2000)
def differences_of_long_streams(w, est, N):
    """The same over long streams, in one batch, in halves and in chunks of seven."""
    cls, kw = zoo.build(w, est, r=0.25, sym=False)
    X = zoo.long_rows(w, "x", N, 2)
    ref = cls(**kw).fit(X[1:] - X[:-1])
    zoo.same(w, "fit", cls(**kw, diff=True).fit(X), ref)
    zoo.same(w, "halves", zoo.feed(cls(**kw, diff=True), X, (N // 2,)), ref)
    zoo.same(w, "sevens", zoo.feed(cls(**kw, diff=True), X, range(7, N, 7)), ref)
