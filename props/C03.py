"""Bounds: pickle and deep copy of every registered estimator, its structural variants, compositions and keyed
adapters, at every point of streams of up to 7 observations (rate 1/2) and around the default burn-in."""
from vx.api import harness
from props import zoo


def _copies(w, e, both=True):
    return [("pickle", w.pickle(e)), ("deepcopy", w.deepcopy(e))] if both else [("deepcopy", w.deepcopy(e))]


def _run(w, make, X, cuts, both=True, read=None):
    read = read or (lambda e: [e.covariance_, e.location_, e.n_samples_, e.n_features_in_])
    final = make().fit(X)
    for k in cuts:
        a = make()
        if k:
            a.partial_fit(X[:k])
        for how, b in _copies(w, a, both):
            if b.n_samples_ > 0:
                w.eq(f"{how}@{k}.now", read(b), read(a))
            b.partial_fit(X[k:])
            w.eq(f"{how}@{k}.resumed", read(b), read(final))
            if a.n_samples_ > 0:
                frozen = make().partial_fit(X[:k])
                w.eq(f"{how}@{k}.original untouched", read(a), read(frozen))
            for name, value in a.get_params().items():
                if not hasattr(value, "get_params") and not callable(value):
                    w.eq(f"{how}@{k}.param {name}", b.get_params()[name], value)


def _jobs(env):
    js = []
    for c in zoo.configs(env, env.thorough):
        js += [dict(**c, d=2, T=7, diff=False), dict(**c, d=3, T=4, diff=True), dict(**c, d=5, T=3, diff=False)]
    return js


@harness(_jobs, la="uf", paths=3, timeout=90, vtol=1e-2)
def estimators(w, est, v, d, T, diff):
    """A pickled or copied estimator behaves as the original would have, from any point of the stream."""
    cls, kw = zoo.build(w, est, v, diff=diff, sym=False)
    _run(w, lambda: cls(**kw), zoo.rows(w, "x", T, d), range(T))


@harness(lambda env: zoo.configs(env), la="uf", paths=2, timeout=90, vtol=1e-2)
def default_rate(w, est, v):
    """The same at the default rate, around the end of the burn-in."""
    cls, kw = zoo.build(w, est, v, r=None, sym=False)
    _run(w, lambda: cls(**kw), zoo.rows(w, "x", 22, 2), (2, 19, 20, 21))


class Skater:
    """A stateful user volatility model: exponentially weighted mean and root mean square."""

    class D:
        def __init__(self, mean, std):
            self.mean, self.std = mean, std

    def __call__(self, y, state):
        m, v, n = state if state else (0, 1, 0)
        m2 = m + (y - m) / (n + 2)
        v2 = v + (abs(y) + 1 - v) / (n + 2)
        return [Skater.D(m2, v2), Skater.D(0, 1)], (m2, v2, n + 1)


COMPOSED = ["ewa+ewa", "empirical+tyler", "huber+factor", "skater+lw", "adaptive+shrunk"]


def _composed(w, which):
    P = w.precise
    r = w.real(0.5)
    vol = {"ewa": lambda: P.EwaCovariance(r=r), "empirical": P.EmpiricalCovariance,
           "huber": lambda: P.HuberCovariance(r=r), "skater": lambda: P.from_skater(Skater()),
           "adaptive": lambda: P.AdaptiveEwaCovariance(r=r)}
    cor = {"ewa": lambda: P.EwaCovariance(r=r), "tyler": lambda: P.TylerCovariance(r=r),
           "factor": lambda: P.FactorCovariance(k=1, r=r), "lw": lambda: P.LedoitWolfCovariance(r=r),
           "shrunk": lambda: P.ShrunkCovariance(r=r)}
    a, b = which.split("+")
    return lambda: P.ConditionalCovariance(vol=vol[a](), corr=cor[b]())


@harness([dict(which=c) for c in COMPOSED], la="uf", paths=4, timeout=90, vtol=1e-2)
def compositions(w, which):
    """Composed estimators carry all their sub-models through pickle and deep copy."""
    X = zoo.rows(w, "x", 5, 2)
    # the user's callable is not importable by name here: pickle it only inside the package's own factory
    _run(w, _composed(w, which), X, range(1, 5), both="skater" not in which)


@harness([dict(dynamic=b, how=h, wrap=k) for b in (False, True) for h in ("deepcopy", "pickle") for k in ("instance", "class")],
         la="uf", paths=4, timeout=60, vtol=1e-2)
def keyed_deepcopy(w, dynamic, how, wrap):
    """A deep-copied or pickled keyed estimator, wrapping a configured instance or a class, resumes like the original and does not
    disturb it."""
    P = w.precise
    x = w.arr("x", 5, 2)
    rows = [{"a": x[t, 0], "b": x[t, 1]} for t in range(5)]
    rows[2] = {"b": x[2, 1]}

    def make():
        if wrap == "class":
            return P.keyed(P.EwaCovariance, dynamic=dynamic, r=w.real(0.5))
        return P.keyed(P.EwaCovariance(r=w.real(0.5)), dynamic=dynamic)
    final = make().learn_many(rows)
    a = make().learn_many(rows[:3])
    before = a.get_cov(["a", "b"])
    b = getattr(w, how)(a)
    w.eq("copy", b.get_cov(["a", "b"]), before)
    b.learn_many(rows[3:])
    w.eq("resumed", b.get_cov(["a", "b"]), final.get_cov(["a", "b"]))
    w.eq("original untouched", a.get_cov(["a", "b"]), before)


def _sequence(x, names):
    return [{k: x[t, j] for j, k in enumerate("abc") if k in ks} for t, ks in enumerate(names)]


SEQUENCES = [("ab ab ab", "a ab"), ("ab a b", "a ab"), ("c ab ab ab ab", "abc abc"), ("ab c c c c", "ac bc ab"), ("a b c", "ab bc a"),
             ("abc abc", "b c abc"), ("ab", "c a")]


@harness([dict(kind=k, before=a, after=b, how=h) for a, b in SEQUENCES for k in ("dynamic", "tight", "ffill", "mean", "zero")
          for h in ("deepcopy", "pickle")],
         la="uf", paths=6, timeout=60, vtol=1e-2)
def keyed_copies(w, kind, before, after, how):
    """A deep copy or pickle carries every universe, its age and the last seen values: it treats names that come, go or are missing as the
    original does, under every option."""
    P = w.precise
    a, b = before.split(), after.split()
    x = w.arr("x", len(a) + len(b), 3)
    rows = _sequence(x, a + b)

    def make():
        r = w.real(0.5)
        if kind in ("dynamic", "tight"):
            return P.DynamicUniverse(P.EwaCovariance(r=r), **({} if kind == "dynamic" else dict(max_universes=2, max_staleness=2)))
        return P.FixedUniverse(P.EwaCovariance(r=r), keys=list("abc"), impute=kind)
    one = make().learn_many(rows[:len(a)])
    two = getattr(w, how)(one)
    for t in range(len(a), len(rows)):
        one.learn_one(rows[t])
        two.learn_one(rows[t])
        w.eq(f"names@{t}", two.cov_array()[1], one.cov_array()[1])
        w.eq(f"next@{t}", two.get_cov(), one.get_cov())
        if kind in ("dynamic", "tight"):
            w.eq(f"universes@{t}", len(two.states), len(one.states))
            w.eq(f"asked@{t}", two.get_cov(["a", "b"]), one.get_cov(["a", "b"]))
