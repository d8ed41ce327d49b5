"""Bounds: every registered estimator and its structural variants, dimension 1-5, streams of up to 8
observations at rate 1/2 (all cut points) and of 24 at the default rate (cuts around the burn-in), levels and
first differences; restored into a fresh and into an already used instance."""
from vx.api import harness
from props import zoo


def _jobs(env):
    js = []
    for c in zoo.configs(env, env.thorough):
        js += [dict(**c, d=2, T=8, diff=False), dict(**c, d=3, T=5, diff=True), dict(**c, d=5, T=3, diff=False)]
        if env.thorough:
            js += [dict(**c, d=3, T=8, diff=False), dict(**c, d=1, T=8, diff=True), dict(**c, d=4, T=4, diff=False)]
    return js


def _used(w, cls, kw):
    e = cls(**kw)
    e.partial_fit(w.array([[w.real(1), w.real(2), w.real(3), w.real(5), w.real(1)],
                           [w.real(0), w.real(4), w.real(1), w.real(1), w.real(2)],
                           [w.real(2), w.real(1), w.real(7), w.real(0), w.real(3)]]))
    return e


def _resume(w, cls, kw, X, cuts):
    T = len(X)
    final = cls(**kw).fit(X)
    for k in cuts:
        a = cls(**kw)
        if k:
            a.partial_fit(X[:k])
        for dirty in (False, True):
            b = _used(w, cls, kw) if dirty else cls(**kw)
            back = b.set_state(w.json(a.get_state()))
            w.check(f"@{k}.self", back is b)
            w.eq(f"@{k}.n_samples", b.n_samples_, a.n_samples_)
            w.eq(f"@{k}.state", w.json(b.get_state()), w.json(a.get_state()))
            if a.n_samples_ > 0:
                zoo.same(w, f"@{k}", b, a)
            else:
                w.raises(f"@{k}.unfitted", ValueError, lambda: b.covariance_)
            if k < T:
                b.partial_fit(X[k:])
            if b.n_samples_ > 0:
                zoo.same(w, f"resumed@{k}", b, final)
            w.eq(f"resumed@{k}.state", w.json(b.get_state()), w.json(final.get_state()))


@harness(_jobs, la="uf", paths=4, timeout=90, vtol=1e-2)
def resume(w, est, v, d, T, diff):
    """JSON checkpoint at every point of the stream, restored elsewhere: same estimates from there on."""
    cls, kw = zoo.build(w, est, v, diff=diff, sym=False)
    _resume(w, cls, kw, zoo.rows(w, "x", T, d), range(T + 1) if d < 3 else (0, 1, 2, T))


@harness(lambda env: zoo.configs(env), la="uf", paths=2, timeout=60, vtol=1e-2, weight=3)
def resume_in_small_units(w, est, v):
    """The same with values a million times smaller: relative precision is kept."""
    cls, kw = zoo.build(w, est, v, sym=False)
    X = zoo.rows(w, "x", 4, 2) * w.frac(1, 10**6)
    a = cls(**kw).fit(X[:3])
    b = cls(**kw).set_state(w.json(a.get_state()))
    zoo.same(w, "restored", b, a, atol=0)
    zoo.same(w, "resumed", b.partial_fit(X[3:]), a.partial_fit(X[3:]), atol=0)


@harness(lambda env: zoo.configs(env), la="uf", paths=2, timeout=90, vtol=1e-2)
def resume_default_rate(w, est, v):
    """The same at the default rate, around the end of the twenty-observation burn-in."""
    cls, kw = zoo.build(w, est, v, r=None, sym=False)
    _resume(w, cls, kw, zoo.rows(w, "x", 23, 2), (3, 19, 20, 21))


@harness(lambda env: [dict(est=e, N=N, diff=f) for e in zoo.names(env) for N, f in ((70, False), (40, True))],
         la="uf", paths=2, timeout=60, vtol=1e-2, max_decisions=2000)
def resume_late(w, est, N, diff):
    """The same late in a long stream whose first, middle and last observations are arbitrary."""
    cls, kw = zoo.build(w, est, r=0.25, diff=diff, sym=False)
    _resume(w, cls, kw, zoo.long_rows(w, "x", N, 2), (N // 2 + 1, N - 1))


@harness(lambda env: [dict(**c, d=2) for c in zoo.configs(env)], la="uf", feas=True, paths=8, timeout=60, havoc=True,
         validate=False)
def resume_from_any_state(w, est, v, d):
    """From an arbitrary state after any number of observations: a checkpoint loses nothing."""
    cls, kw = zoo.build(w, est, v, sym=False)
    a = zoo.havoc(w, cls, kw, d, lo=1)
    b = cls(**kw).set_state(w.json(a.get_state()))
    x = w.arr("x", 2, d)
    a.partial_fit(x)
    b.partial_fit(x)
    zoo.same(w, "next", a, b)


@harness([dict(seen=n) for n in (0, 1, 4)], la="uf", paths=4, timeout=60, vtol=1e-2)
def composed_models_say_so(w, seen):
    """The composed estimator has no plain checkpoint and says so, whatever it has seen; asking for one, or offering one, changes nothing."""
    mod = w.mod("precise.conditional")
    X = zoo.rows(w, "x", 6, 2)
    e, ref = mod.ConditionalCovariance(), mod.ConditionalCovariance()
    for k in (e, ref):
        if seen:
            k.partial_fit(X[:seen])
    w.raises("get_state", NotImplementedError, lambda: e.get_state())
    w.raises("set_state", NotImplementedError, lambda: e.set_state({"n_dim": 2, "n_samples": 9, "mean": [0, 0], "var": [1, 1]}))
    w.eq("count", e.n_samples_, seen)
    if seen:
        zoo.same(w, "unchanged", e, ref)
    zoo.same(w, "still learns", e.partial_fit(X[seen:]), ref.partial_fit(X[seen:]))
