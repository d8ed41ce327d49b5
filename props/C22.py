"""Bounds: streams of up to 8 observations over 1-6 names; every pattern of missing names over four observations of
two names and three of three; every order of the names; every ordered query; every value; six wrapped estimators."""
import itertools

from vx.api import harness
from props import zoo

NAMES = ["b", "a", "d", "c", "f", "e"]
WRAPPED = ["EwaCovariance", "EmpiricalCovariance", "LedoitWolfCovariance", "HuberCovariance", "BlockCovariance",
           "DCCCovariance"]


def _est(w, name, **k):
    cls = w.mod("precise.registry").estimator_from_name(name)
    return cls(**{**({"r": w.real(0.5)} if "r" in zoo.params_of(cls) else {}), **k})


def _fixed(w, name="EwaCovariance", **k):
    return w.mod("precise.keyed").FixedUniverse(_est(w, name), **k)


def _order(t, d):
    """A different order of the names at every observation."""
    ps = list(itertools.permutations(range(d)))
    return ps[(5 * t) % len(ps)]


def _agree(w, label, k, e, names):
    cov, keys = k.cov_array()
    w.eq(label + " names", list(keys), list(names))
    w.eq(label + " covariance", cov, e.covariance_)
    out = k.covariance_
    w.eq(label + " labels", sorted(out), sorted(names))
    C = e.covariance_
    for i, a in enumerate(names):
        for j, b in enumerate(names):
            w.eq(f"{label} [{a}][{b}]", out[a][b], C[i, j])


@harness([dict(est=e, d=d, T=T, given=g) for e in WRAPPED for d, T in ((1, 4), (2, 7), (3, 5), (6, 2)) for g in (False, True)],
         la="uf", canon=True, paths=4, timeout=60, vtol=1e-2)
def positional(w, est, d, T, given):
    """With every name present the adapter is the wrapped estimator on vectors in key order, whatever the order of the
    names in each observation."""
    X, names = zoo.rows(w, "x", T, d), NAMES[:d]
    k = _fixed(w, est, **({"keys": list(names)} if given else {}))
    e = _est(w, est)
    for t in range(T):
        order = range(d) if t == 0 and not given else _order(t + 1, d)
        k.update({names[i]: X[t, i] for i in order})
        e.partial_fit(X[t])
    _agree(w, "all present", k, e, names)


class _Impute:
    """What is fed to the wrapped estimator in place of missing names."""

    def __init__(self, w, mode, d):
        self.w, self.mode, self.last = w, mode, [w.real(0)] * d

    def row(self, seen, e):
        out = []
        for i, v in enumerate(seen):
            if v is not None:
                self.last[i] = v
                out.append(v)
            elif self.mode == "ffill":
                out.append(self.last[i])
            elif self.mode == "mean":
                out.append(e.location_[i] if e.n_samples_ else self.w.real(0))
            else:
                out.append(self.w.real(0))
        return self.w.array(out)


@harness([dict(mode=m, d=d, T=T, given=g) for m in ("ffill", "mean", "zero", None) for d, T in ((2, 4), (3, 3), (1, 5))
          for g in (False, True) if not (d == 1 and not g and T == 5)], la="uf", canon=True, feas=True, paths=600, max_decisions=60,
         timeout=90)
def imputation(w, mode, d, T, given):
    """Missing names are imputed by the last seen value, the running mean, or zero; which names are missing when is
    arbitrary.  Before anything was seen the last value is zero and there is no mean."""
    X, names = zoo.rows(w, "x", T, d), NAMES[:d]
    kw = {} if mode is None else {"impute": mode}
    k = _fixed(w, **kw, **({"keys": list(names)} if given else {}))
    e, imp = _est(w, "EwaCovariance"), _Impute(w, mode or "ffill", d)
    for t in range(T):
        seen = []
        for i in range(d):
            there = w.fork(w.var(f"there{t}{i}", lo=0, hi=1) > w.frac(1, 2)) or (t == 0 and not given)
            seen.append(X[t, i] if there else None)
        k.update({names[i]: seen[i] for i in (range(d) if t == 0 else reversed(range(d))) if seen[i] is not None})
        e.partial_fit(imp.row(seen, e))
    _agree(w, "imputed", k, e, names)
    w.eq("names", list(k.keys), names)


@harness([dict(mode=m, T=T) for m in ("ffill", "mean", "zero") for T in (6, 8)], la="uf", canon=True, paths=4, timeout=60)
def long_gaps(w, mode, T):
    """A name missing for a long time, across the end of the burn-in, and coming back."""
    X, names = zoo.rows(w, "x", T, 2), NAMES[:2]
    k, e, imp = _fixed(w, impute=mode), _est(w, "EwaCovariance"), _Impute(w, mode, 2)
    for t in range(T):
        seen = [X[t, 0] if t in (0, 1, T - 1) else None, X[t, 1] if t != 3 else None]
        k.learn_one({n: v for n, v in zip(names, seen) if v is not None})
        e.partial_fit(imp.row(seen, e))
        _agree(w, f"after {t}", k, e, names)


@harness([dict(mode=m, d=d) for m in ("ffill", "mean", "zero") for d in (4, 6)], la="uf", canon=True, paths=4, timeout=60)
def many_names_with_gaps(w, mode, d):
    """Four and six names, one after another missing, then half of them at once."""
    X, names = zoo.rows(w, "x", 4, d), NAMES[:d]
    k, e, imp = _fixed(w, impute=mode), _est(w, "EwaCovariance"), _Impute(w, mode, d)
    for t in range(4):
        gone = [(), (d - 1,), (0, 2), tuple(range(1, d, 2))][t]
        seen = [None if i in gone else X[t, i] for i in range(d)]
        k.update({names[i]: seen[i] for i in (range(d) if t == 0 else reversed(range(d))) if seen[i] is not None})
        e.partial_fit(imp.row(seen, e))
        _agree(w, f"after {t}", k, e, names)


@harness([dict(mode=m, given=g, T=T) for m in ("ffill", "mean", "zero") for g in (False, True) for T in (3, 6)],
         la="uf", canon=True, paths=4, timeout=60)
def new_names_are_ignored(w, mode, given, T):
    """Names outside the universe change nothing, wherever they stand in the observation."""
    X, names = zoo.rows(w, "x", T, 2), NAMES[:2]
    new = w.arr("new", T)
    kw = {"keys": list(names)} if given else {}
    a, b = _fixed(w, impute=mode, **kw), _fixed(w, impute=mode, **kw)
    for t in range(T):
        obs = {names[0]: X[t, 0], names[1]: X[t, 1]}
        if t == 2:
            obs.pop(names[1])
        more = dict(obs)
        if t or given:
            more = {"zz": new[t], **obs, "aa": new[t]}
        a.update(obs)
        b.update(more)
    w.eq("names", b.keys, a.keys)
    w.eq("covariance", b.get_cov(), a.get_cov())


@harness([dict(est=e, d=d, T=T) for e in ("EwaCovariance", "LedoitWolfCovariance") for d in (1, 2, 3) for T in (2, 6)]
         + [dict(est="EwaCovariance", d=4, T=3), dict(est="EwaCovariance", d=5, T=2)],
         la="uf", canon=True, paths=4, timeout=60)
def queries(w, est, d, T):
    """A query selects the rows and columns of the names asked for, in that order; an unknown name is an error, not a
    number."""
    X, names = zoo.rows(w, "x", T, d), NAMES[:d]
    k, e = _fixed(w, est), _est(w, est).fit(X) if T > 1 else None
    for t in range(T):
        k.update({names[i]: X[t, i] for i in range(d)})
    C = e.covariance_
    for m in range(1, d + 1):
        asked = list(itertools.permutations(range(d), m))
        if d > 4:
            asked = asked[::7] + asked[-1:]
        for q in asked:
            ask = [names[i] for i in q]
            cov, keys = k.cov_array(tuple(ask) if m == 2 else ask)
            w.eq(f"names {q}", list(keys), ask)
            w.eq(f"covariance {q}", cov, w.array([[C[i, j] for j in q] for i in q]))
            w.eq(f"get_cov {q}", k.get_cov(ask), cov)
    w.raises("unknown name", (KeyError, ValueError), lambda: k.cov_array([names[0], "nobody"]))
    w.raises("unknown name alone", (KeyError, ValueError), lambda: k.get_cov(["nobody"]))
    w.eq("still the same", k.get_cov(), C)


@harness([dict(given=g) for g in (False, True)], la="uf", paths=4, timeout=60)
def before_any_data(w, given):
    """Before any observation there is nothing to read."""
    k = _fixed(w, **({"keys": ["a", "b"]} if given else {}))
    for name, read in (("cov_array", lambda: k.cov_array()), ("get_cov", lambda: k.get_cov()),
                       ("covariance_", lambda: k.covariance_), ("correlation_", lambda: k.correlation_),
                       ("query", lambda: k.get_cov(["a"]))):
        w.raises(name, ValueError, read)


@harness([dict(T=T) for T in (2, 6)], la="uf", canon=True, paths=4, timeout=60)
def universe_is_fixed_by_the_first(w, T):
    """Without names given, the universe is that of the first observation, in its order, for good."""
    X = zoo.rows(w, "x", T, 3)
    k, e = _fixed(w), _est(w, "EwaCovariance")
    for t in range(T):
        obs = {"y": X[t, 1], "x": X[t, 0]} if t == 0 else {"x": X[t, 0], "n": X[t, 2], "y": X[t, 1]}
        k.update(obs)
        e.partial_fit(w.array([X[t, 1], X[t, 0]]))
    _agree(w, "first", k, e, ["y", "x"])
