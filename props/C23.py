"""Bounds: every sequence of non-empty key sets over three names and four observations (two names and six), every
value, maxima 1-3 and staleness limits 0-2 besides the defaults; ties between equally stale, equally old sub-estimators
are left open."""
from vx.api import harness
from props import zoo

NAMES = ["b", "a", "c"]


def _est(w, name="EwaCovariance"):
    cls = w.mod("precise.registry").estimator_from_name(name)
    return cls(**({"r": w.real(0.5)} if "r" in zoo.params_of(cls) else {}))


def _dyn(w, name="EwaCovariance", **k):
    return w.mod("precise.keyed").DynamicUniverse(_est(w, name), **k)


class Open(Exception):
    """The specification leaves the outcome open (a tie)."""


class _Model:
    """The documented behaviour, as plainly as possible."""

    def __init__(self, w, est, most, stale):
        self.w, self.est, self.most, self.stale, self.live = w, est, most, stale, []

    def see(self, x):
        names = frozenset(x)
        for u in self.live:
            if u["names"] <= names:
                u["est"].partial_fit(self.w.array([x[k] for k in u["order"]]))
                u["age"], u["idle"] = u["age"] + 1, 0
            else:
                u["idle"] += 1
        self.live = [u for u in self.live if u["idle"] <= self.stale]
        if all(u["names"] != names for u in self.live):
            new = {"names": names, "order": list(x), "est": _est(self.w, self.est), "age": 1, "idle": 0}
            new["est"].partial_fit(self.w.array([x[k] for k in x]))
            old = self.live
            if len(old) + 1 > max(1, self.most):
                worst = max(old, key=lambda u: (u["idle"], -u["age"]))
                if sum((u["idle"], u["age"]) == (worst["idle"], worst["age"]) for u in old) > 1:
                    raise Open
                old = [u for u in old if u is not worst]
            self.live = old + [new]

    def source(self, a, b):
        us = [u for u in self.live if a in u["names"] and b in u["names"]]
        if not us:
            return None
        best = max(us, key=lambda u: (u["age"], -u["idle"]))
        if sum((u["age"], u["idle"]) == (best["age"], best["idle"]) for u in us) > 1:
            raise Open
        return best

    def names(self):
        return sorted(set().union(*[u["names"] for u in self.live]))

    def matrix(self, keys):
        """Entries, with None for pairs never seen together."""
        out = []
        for a in keys:
            row = []
            for b in keys:
                u = self.source(a, b)
                row.append(None if u is None else
                           u["est"].covariance_[u["order"].index(a), u["order"].index(b)])
            out.append(row)
        return out


def _filled(w, M):
    n = len(M)
    off = [M[i][j] for i in range(n) for j in range(n) if i != j and M[i][j] is not None]
    fill = sum(off, w.real(0)) / len(off) if off else w.real(0)
    return w.array([[fill if M[i][j] is None else M[i][j] for j in range(n)] for i in range(n)])


def _read(w, label, k, model, keys=None):
    try:
        M = model.matrix(keys if keys is not None else list(k.x))
    except Open:
        return
    near = getattr(w.mod("precise._linalg"), "nearest_pos_def", None)
    cov, ks = k.cov_array(keys) if keys is not None else k.cov_array()
    if keys is not None:
        w.eq(label + " names", list(ks), list(keys))
    w.check(label + " shape", cov.shape == (len(ks), len(ks)))
    if near is None:
        return
    A = _filled(w, M)
    w.eq(label, cov, near((A + A.T) / 2), tol=1e-6)


def _subset(names, mask, t):
    """The names in the mask, in an order that depends on t."""
    s = [n for i, n in enumerate(names) if mask >> i & 1]
    return s if t % 2 == 0 else s[::-1]


def _choose(w, t, n):
    """An arbitrary non-empty subset of n names."""
    mask = sum(1 << i for i in range(n) if w.fork(w.var(f"in{t}_{i}", lo=0, hi=1) > w.frac(1, 2)))
    w.assume(mask != 0)
    return mask


LIMITS = [(10, 50), (1, 50), (2, 50), (3, 50), (10, 1), (10, 0), (2, 2), (2, 1), (0, 50)]


def _jobs(env):
    js = [dict(most=m, stale=s, first=f, d=3, T=4) for m, s in LIMITS for f in (1, 3, 5, 7)
          if env.thorough or f in (3, 7) or (m, s) in ((10, 50), (2, 50), (10, 1))]
    js += [dict(most=m, stale=s, first=f, d=2, T=5) for m, s in LIMITS for f in (1, 3)]
    if env.thorough:
        js += [dict(most=m, stale=s, first=f, d=3, T=5) for m, s in ((10, 50), (2, 2)) for f in (1, 3, 7)]
        js += [dict(most=m, stale=s, first=f, d=2, T=7) for m, s in LIMITS for f in (1, 3)]
    return js


@harness(_jobs, la="uf", canon=True, feas=True, paths=3000, abnormal=0, max_decisions=80, timeout=120, vtol=1e-2)
def every_history_of_key_sets(w, most, stale, first, d, T):
    """After every sequence of key sets: which sub-estimators are alive, what each has seen, and which one each pair is
    read from."""
    X, names = zoo.rows(w, "x", T, d), NAMES[:d]
    k = _dyn(w, max_universes=most, max_staleness=stale)
    model = _Model(w, "EwaCovariance", most, stale)
    for t in range(T):
        mask = first if t == 0 else _choose(w, t, d)
        obs = {n: X[t, names.index(n)] for n in _subset(names, mask, t)}
        try:
            model.see(obs)
        except Open:
            w.assume(False)
        k.update(obs)
        if hasattr(k, "states"):
            w.check("bounded", 1 <= len(k.states) <= max(1, most))
            w.eq("alive", len(k.states), len(model.live))
    w.eq("labels", sorted(k.cov_array()[1]), sorted(obs))
    _read(w, "last seen", k, model)
    _read(w, "everything alive", k, model, model.names())


@harness([dict(est=e, d=d, T=T) for e in ("EwaCovariance", "EmpiricalCovariance", "LedoitWolfCovariance",
                                          "DiagonalCovariance") for d, T in ((2, 3), (2, 6), (3, 4))],
         la="uf", canon=True, paths=8, abnormal=0, timeout=60, vtol=1e-2)
def all_present_is_positional(w, est, d, T):
    """While every name is always there, in whatever order, it is one positional estimator in the first order."""
    X, names = zoo.rows(w, "x", T, d), NAMES[:d]
    k, e = _dyn(w, est), _est(w, est)
    near = getattr(w.mod("precise._linalg"), "nearest_pos_def", None)
    for t in range(T):
        obs = {n: X[t, i] for i, n in enumerate(names)}
        k.update(obs if t % 2 == 0 else dict(reversed(list(obs.items()))))
        e.partial_fit(X[t])
    cov, keys = k.cov_array(list(names))
    w.eq("names", keys, names)
    if near is not None:
        w.eq("covariance", cov, near(e.covariance_), tol=1e-6)
    if hasattr(k, "states"):
        w.eq("one sub-estimator", len(k.states), 1)


@harness([dict(stale=s, gap=g) for s in (0, 1, 2, 3) for g in (1, 2, 3, 4)], la="uf", canon=True, paths=8, abnormal=0,
         timeout=60, vtol=1e-2)
def forgotten_exactly_when_stale(w, stale, gap):
    """A key set not seen for more than the limit starts afresh; one seen in time carries on."""
    X = zoo.rows(w, "x", gap + 3, 2)
    k, e = _dyn(w, max_staleness=stale), _est(w)
    for t in (0, 1):
        k.update({"a": X[t, 0], "b": X[t, 1]})
        e.partial_fit(X[t])
    for t in range(2, 2 + gap):
        k.update({"c": X[t, 0]})
    if gap > stale:
        e = _est(w)
    e.partial_fit(X[gap + 2])
    k.update({"a": X[gap + 2, 0], "b": X[gap + 2, 1]})
    near = getattr(w.mod("precise._linalg"), "nearest_pos_def", None)
    if near is not None:
        w.eq("pair", k.get_cov(["a", "b"]), near(e.covariance_), tol=1e-6)


@harness([dict(most=m, T=T) for m in (0, 1, 2, 3) for T in (3, 6)], la="uf", canon=True, paths=8, abnormal=0, timeout=60)
def the_newest_is_never_evicted(w, most, T):
    """With new names all the time there are never more than the maximum, and the last are always readable."""
    X = zoo.rows(w, "x", 2 * T, 2)
    k = _dyn(w, max_universes=most)
    for t in range(2 * T):
        k.update({f"n{t // 2}a": X[t, 0], f"n{t // 2}b": X[t, 1]})
        if hasattr(k, "states"):
            w.check("bounded", len(k.states) <= max(1, most))
    e = _est(w).partial_fit(X[-2]).partial_fit(X[-1])
    near = getattr(w.mod("precise._linalg"), "nearest_pos_def", None)
    if near is not None:
        w.eq("last", k.get_cov(), near(e.covariance_), tol=1e-6)


@harness([dict(est=e) for e in ("EwaCovariance", "LedoitWolfCovariance")], la="uf", paths=4, timeout=60)
def before_any_data(w, est):
    """Before any observation there is nothing to read."""
    k = _dyn(w, est)
    w.raises("cov_array", ValueError, lambda: k.cov_array())
    w.raises("covariance_", ValueError, lambda: k.covariance_)
    w.raises("get_corr", ValueError, lambda: k.get_corr())


SCHEDULES = [("ab", "bc", "cd"), ("abc", "da"), ("abc", "abc", "da", "da"), ("ab", "ab", "cd", "da"), ("abcd", "e"),
             ("abc", "cde", "cde"), ("ab", "c"), ("abc", "d", "abc")]


@harness([dict(sets=" ".join(s)) for s in SCHEDULES], la="uf", canon=True, paths=24, abnormal=0, timeout=90, vtol=1e-2)
def pairs_never_seen_together(w, sets):
    """A pair nobody saw together is filled with the plain mean of the co-variances of the pairs somebody did."""
    k, model = _dyn(w), _Model(w, "EwaCovariance", 10, 50)
    for rnd in range(2):
        for t, s in enumerate(sets.split()):
            x = zoo.rows(w, f"x{rnd}_{t}", 1, len(s))
            obs = {n: x[0, i] for i, n in enumerate(s)}
            try:
                model.see(obs)
            except Open:
                w.assume(False)
            k.update(obs)
    everyone = model.names()
    _read(w, "everyone", k, model, everyone)
    _read(w, "backwards", k, model, everyone[::-1])
    for drop in everyone:
        _read(w, f"without {drop}", k, model, [n for n in everyone if n != drop])
