"""Bounds: every registered estimator, dimension 1-4, 3-8 observations (burn-in 5 plus 3), any real
observations, rates r=1/2 and symbolic r in [0.2,1]; every split point of the batch."""
from vx.api import harness
from props import zoo
from props.C03 import COMPOSED, _composed as composed


def _jobs(env):
    js = []
    for n in zoo.names(env):
        js += [dict(est=n, d=2, T=8, r=0.5), dict(est=n, d=4, T=3, r=0.5)]
        if env.thorough:
            js += [dict(est=n, d=3, T=8, r=0.5), dict(est=n, d=2, T=7, r="sym"), dict(est=n, d=1, T=8, r=0.5)]
    return js


@harness(_jobs, la="uf", feas=True, paths=6, timeout=60, vtol=1e-2)
def batch_equals_stream(w, est, d, T, r):
    """fit(X), partial_fit(X), row-by-row and any two-chunk split give the same estimate."""
    X = zoo.rows(w, "x", T, d)
    kw = zoo.kwargs(w, est, r=r)
    cls = w.mod("precise.registry").estimator_from_name(est)
    a = cls(**kw)
    for t in range(T):
        a.partial_fit(X[t])
    b = cls(**kw).fit(X)
    zoo.same(w, "fit", a, b)
    for k in range(1, T):
        c = cls(**kw)
        c.partial_fit(X[:k])
        c.partial_fit(X[k:])
        zoo.same(w, f"split{k}", a, c)
    Z = zoo.rows(w, "z", 2, d)
    e = cls(**kw).partial_fit(Z)
    e.fit(X)
    zoo.same(w, "refit", a, e)


SLOW = ("HuberCovariance", "PartialMomentsCovariance", "GeodesicEwaCovariance")


def _long(env):
    return [dict(est=e, N=33) for e in zoo.names(env)] + [dict(est=e, N=130, diff=f) for e in zoo.names(env) for f in (False, True)] \
        + [dict(est=e, N=257) for e in zoo.names(env) if e not in SLOW] + [dict(est=e, N=N) for e in ("EmpiricalCovariance", "DiagonalCovariance", "EwaCovariance", "BlockCovariance")
            for N in ((65, 514, 1025) + ((2050, 4100) if env.thorough else ()))]


@harness(_long, la="uf", paths=2, timeout=60, vtol=1e-2, required=True, max_decisions=2000)
def long_batches(w, est, N, diff=False):
    """The same for a long batch: three of its rows are arbitrary, the others fixed; fed row by row, in halves and in
    chunks of seven."""
    X = zoo.long_rows(w, "x", N, 2)
    cls, kw = zoo.build(w, est, r=0.25, diff=diff, sym=False)
    a = cls(**kw)
    for t in range(N):
        a.partial_fit(X[t])
    zoo.same(w, "fit", cls(**kw).fit(X), a)
    zoo.same(w, "halves", zoo.feed(cls(**kw), X, (N // 2,)), a)
    zoo.same(w, "sevens", zoo.feed(cls(**kw), X, range(7, N, 7)), a)


@harness(lambda env: [dict(**c, past=p, diff=f) for c in zoo.configs(env, env.thorough) for p in ("worn", "wider", "watched")
                      for f in (False, True)], la="uf", paths=3, timeout=60, vtol=1e-2, validate=False)
def whatever_was_read(w, est, v, past, diff):
    """The same for estimators that were asked for everything before a refit or between the rows."""
    cls, kw = zoo.build(w, est, v, diff=diff, sym=False)
    X = zoo.rows(w, "x", 4 if diff else 3, 2)
    a, b = cls(**kw).fit(X), cls(**kw)
    if past != "watched":
        wide = 2 + (past == "wider")
        zoo.read_all(w, b.fit(zoo.other(w, len(X), wide)), zoo.other(w, 2, wide))
        b.fit(X)
    else:
        for t in range(len(X)):
            b.partial_fit(X[t])
            if b.n_samples_ > 0:
                zoo.read_all(w, b, zoo.other(w, 2, 2))
    zoo.same(w, past, b, a)
    w.eq("correlation", b.correlation_, a.correlation_)
    w.eq("precision", b.precision_, a.precision_)


@harness([dict(which=c) for c in COMPOSED], la="uf", paths=4, timeout=60, vtol=1e-2)
def compositions(w, which):
    """The same for composed estimators: rows, batch, every split, and a refit after other data of the same or another width."""
    make = composed(w, which)
    X = zoo.rows(w, "x", 5, 2)
    a = make()
    for t in range(5):
        a.partial_fit(X[t])
    zoo.same(w, "fit", make().fit(X), a)
    for k in range(1, 5):
        zoo.same(w, f"split{k}", zoo.feed(make(), X, (k,)), a)
    for d in (2, 3):
        b = make().fit(zoo.other(w, 6, d))
        zoo.same(w, f"refit after {d} wide", b.fit(X), a)
