"""Bounds: every registered estimator with every constructor parameter symbolic over its documented range, both
targets/interpolations, n_blocks/k in {1,2,7}; streams of 7 observations in dimension 2."""
from vx.api import harness
from props import zoo


def _jobs(env):
    return [dict(**c, diff=b) for c in zoo.configs(env, True) for b in (False, True)]


def _same_params(w, label, a, b):
    w.check(label + " names", list(a) == list(b))
    for k in a:
        if isinstance(a[k], (str, bool, type(None))):
            w.check(f"{label} {k}", a[k] == b[k] and type(a[k]) is type(b[k]))
        else:
            w.eq(f"{label} {k}", a[k], b[k])


@harness(_jobs, la="uf", feas=True, paths=4, timeout=90, vtol=1e-2)
def parameters_round_trip(w, est, v, diff):
    """get_params gives back exactly what the constructor got, before and after fitting; rebuilding from it gives
    the same estimator; set_params then fit equals constructing with those values."""
    heavy = est == "SchurConditionalCovariance"
    cls, kw = zoo.build(w, est, v, r=0.5 if heavy else "sym", diff=diff)
    X = zoo.rows(w, "x", 4 if heavy else 5, 2)
    e = cls(**kw)
    full = dict(e.get_params())
    for k in kw:
        if isinstance(kw[k], (str, bool, type(None))):
            w.check(f"{k} as given", full[k] == kw[k])
        else:
            w.eq(f"{k} as given", full[k], kw[k])
        w.check(f"{k} attribute", getattr(e, k) is full[k] or getattr(e, k) == full[k])
    w.check("all constructor parameters", sorted(full) == sorted(zoo.params_of(cls)))
    e.fit(X)
    e.covariance_
    _same_params(w, "after fit", e.get_params(), full)
    c = cls(**e.get_params())
    w.eq("clone is unfitted", c.n_samples_, 0)
    _same_params(w, "clone", c.get_params(), full)
    zoo.same(w, "clone learns the same", c.fit(X), e)
    other = cls()
    w.check("set_params returns self", other.set_params(**full) is other)
    _same_params(w, "set_params", other.get_params(), full)
    zoo.same(w, "set_params takes effect", other.fit(X), e)
    used = cls().fit(X[:2])
    used.set_params(**full)
    zoo.same(w, "set_params on a used estimator, then fit", used.fit(X), e)
    w.check("repr names the class", repr(e).startswith(cls.__name__ + "("))
    for k in full:
        w.check(f"repr shows {k}", f"{k}=" in repr(e))


@harness(lambda env: [dict(est=n) for n in zoo.names(env)], la="uf", paths=2, timeout=60)
def repr_rebuilds(w, est):
    """Evaluating repr(estimator) gives an estimator with equal parameters."""
    cls = w.mod("precise.registry").estimator_from_name(est)
    values = {"r": 0.25, "vol_r": 0.125, "gamma": 0.75, "delta": 0.375, "c": 1.5, "max_r": 0.875, "n_blocks": 3, "k": 4,
              "target": "identity", "interpolation": "geodesic", "diff": True}
    awkward = {"r": 0.123456789, "vol_r": 1 / 3, "gamma": 0.7071067811865476, "delta": 0.1 + 0.2, "c": 1.2345678901234567,
               "max_r": 0.8765432109876543, "n_blocks": 12345, "k": 11, "target": "constant_correlation",
               "interpolation": "linear", "diff": False}
    tiny = {"r": 1.25e-7, "vol_r": 3e-9, "gamma": 1e-12, "delta": 2.5e-11, "c": 1e9 + 0.125, "max_r": 1 - 1e-9}
    one = {p: values[p] for p in zoo.params_of(cls) if p in values}
    two = {p: awkward[p] for p in zoo.params_of(cls) if p in awkward}
    three = {p: tiny[p] for p in zoo.params_of(cls) if p in tiny}
    for e in (cls(**one), cls(**two), cls(**three), cls()):
        b = eval(repr(e), {cls.__name__: cls})
        _same_params(w, "repr", b.get_params(), e.get_params())


@harness([{}], la="uf", paths=4, timeout=60, vtol=1e-2)
def composed_parameters(w):
    """A composed estimator clones through get_params to an unfitted equal one."""
    P = w.precise
    r = w.real(0.5)
    e = P.ConditionalCovariance(vol=P.HuberCovariance(r=r), corr=P.OASCovariance(r=r))
    X = zoo.rows(w, "x", 4, 2)
    e.fit(X)
    p = e.get_params()
    w.check("names", sorted(p) == ["corr", "vol"])
    w.check("sub-models", type(p["vol"]) is P.HuberCovariance and type(p["corr"]) is P.OASCovariance)
    c = P.ConditionalCovariance(**p)
    w.eq("unfitted", c.n_samples_, 0)
    zoo.same(w, "clone learns the same", c.fit(X), e)
    for q in P.ConditionalCovariance().get_params().values():
        w.check("defaults", type(q) is P.EwaCovariance)


@harness(lambda env: [dict(est=n) for n in zoo.names(env)], la="uf", paths=3, timeout=90, vtol=1e-2)
def one_at_a_time(w, est):
    """Giving or setting one parameter leaves every other at its declared default, and setting it is the same as
    having constructed with it; a used estimator takes the new value at its next fit."""
    import inspect
    cls = w.mod("precise.registry").estimator_from_name(est)
    declared = {p: q.default for p, q in inspect.signature(cls.__init__).parameters.items() if p != "self"}
    values = {"r": 0.25, "vol_r": 0.125, "gamma": 0.75, "delta": 0.375, "c": 1.25, "max_r": 0.875, "n_blocks": 1, "k": 1,
              "target": "identity", "interpolation": "geodesic", "diff": True}
    X = zoo.rows(w, "x", 3, 2)
    base = {p: q for p, q in dict(r=w.real(0.5), max_r=w.real(0.75)).items() if p in declared}
    w.check("defaults", {k: _plain(v) for k, v in cls().get_params().items()} == {k: _plain(v) for k, v in declared.items()})
    for p, val in values.items():
        if p not in declared:
            continue
        val = w.real(val) if isinstance(val, float) else val
        for start in ({}, base):
            a, b = cls(**{**start, p: val}), cls(**start)
            b.set_params(**{p: val})
            want = {**declared, **start, p: val}
            _same_params(w, f"constructed with {p}", a.get_params(), want)
            _same_params(w, f"set {p}", b.get_params(), want)
        b.set_params(**{p: start.get(p, declared[p])})
        _same_params(w, f"set {p} back", b.get_params(), {**declared, **start})
        if p == "interpolation":
            continue
        ref = cls(**{**base, p: val}).fit(X)
        c = cls(**base).fit(X)
        c.covariance_
        c.set_params(**{p: val})
        zoo.same(w, f"used, then set {p}", c.fit(X), ref)
        zoo.same(w, f"set {p}", b.set_params(**{p: val}).fit(X), ref)
        w.eq(f"rebuilt after set {p}", cls(**c.get_params()).fit(X).covariance_, ref.covariance_)


def _plain(v):
    return float(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else v


@harness(lambda env: [dict(est=n) for n in zoo.names(env)], la="uf", paths=12, timeout=60)
def whatever_was_given(w, est):
    """Any number given for a numeric parameter, sensible or not, is what the parameters say: nothing is clipped, rounded or
    replaced when it is stored."""
    cls = w.mod("precise.registry").estimator_from_name(est)
    given = {p: w.var(p) for p in zoo.params_of(cls) if p not in ("diff", "target", "interpolation")}
    e = cls(**given)
    o = cls().set_params(**given)
    c = cls(**e.get_params())
    for p, v in given.items():
        w.eq(f"{p} as given", e.get_params()[p], v)
        w.eq(f"{p} as set", o.get_params()[p], v)
        w.eq(f"{p} cloned", c.get_params()[p], v)
        w.eq(f"{p} attribute", getattr(e, p), v)
