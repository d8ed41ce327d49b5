"""Bounds: every registered estimator and variant (plus compositions and keyed adapters), dimension 2-5, streams
of up to 7 observations at rate 1/2, levels and differences; all public reads and every array handed in or out."""
from vx.api import harness
from props import zoo


def _jobs(env):
    js = []
    for c in zoo.configs(env, env.thorough):
        js += [dict(**c, d=2, T=7, diff=False), dict(**c, d=2, T=4, diff=True), dict(**c, d=5, T=3, diff=False)]
        if env.thorough:
            js += [dict(**c, d=3, T=4, diff=True), dict(**c, d=3, T=6, diff=False)]
    return js


def _spoil(w, a):
    """Overwrite everything reachable from a value handed out by the library."""
    if isinstance(a, dict):
        for k in list(a):
            if isinstance(a[k], (dict, list)) or getattr(a[k], "ndim", 0):
                _spoil(w, a[k])
            else:
                a[k] = w.real(-77)
    elif isinstance(a, list):
        for i, x in enumerate(a):
            if isinstance(x, (dict, list)) or getattr(x, "ndim", 0):
                _spoil(w, x)
            else:
                a[i] = w.real(-77)
    elif getattr(a, "ndim", 0):
        try:
            a[...] = w.real(-77)
        except ValueError:      # handed out read-only: cannot be abused
            pass


@harness(_jobs, la="uf", paths=3, timeout=60, vtol=1e-2)
def nothing_is_shared(w, est, v, d, T, diff):
    """Writing into anything passed in or handed out, or reading at any time, never changes an estimate."""
    cls, kw = zoo.build(w, est, v, diff=diff, sym=False)
    X = zoo.rows(w, "x", T, d)
    ref = cls(**kw).fit(X)
    e = cls(**kw)
    for t in range(T):
        row = X[t].copy()
        e.partial_fit(row)
        w.eq(f"input row {t}", row, X[t])
        row[...] = w.real(55)                 # the caller reuses its buffer
        _spoil(w, e.get_state())
        if e.n_samples_ > 0:
            for value in (e.covariance_, e.location_, e.correlation_, e.get_params()):
                _spoil(w, value)
            e.mahalanobis(X[0])
    zoo.same(w, "reused row buffers", e, ref)
    B = X.copy()
    f = cls(**kw)
    f.partial_fit(B[:3])
    B[:3] = w.real(9)
    f.partial_fit(B[3:])
    w.eq("input batch", B[3:], X[3:])
    B[...] = w.real(8)
    zoo.same(w, "reused batch", f, ref)
    g = cls(**kw).partial_fit(X[:3])
    s = w.json(g.get_state())
    keep = w.json(s)
    h = cls(**kw).set_state(s)
    w.eq("checkpoint untouched by restore", s, keep)
    h.partial_fit(X[3:])
    w.eq("checkpoint untouched by resuming", s, keep)
    h2 = cls(**kw).set_state(s)
    _spoil(w, s)
    h2.partial_fit(X[3:])
    zoo.same(w, "restored from a shared checkpoint", h, ref)
    zoo.same(w, "checkpoint overwritten", h2, ref)
    m = X.copy()
    ref.mahalanobis(m)
    w.eq("scored data untouched", m, X)


@harness(_jobs, la="uf", paths=3, timeout=60, vtol=1e-2)
def instances_are_independent(w, est, v, d, T, diff):
    """Two estimators fed alternately give what each gives alone; reads repeat."""
    cls, kw = zoo.build(w, est, v, diff=diff, sym=False)
    X, Y = zoo.rows(w, "x", T, d), zoo.rows(w, "y", T, d + 1)
    a, b = cls(**kw), cls(**kw)
    for t in range(T):
        a.partial_fit(X[t])
        b.partial_fit(Y[t])
    zoo.same(w, "a", a, cls(**kw).fit(X))
    zoo.same(w, "b", b, cls(**kw).fit(Y))
    for name in ("covariance_", "location_", "correlation_"):
        w.eq(f"repeat {name}", getattr(a, name), getattr(a, name))


@harness([dict(kind=k) for k in ("conditional", "fixed", "dynamic")], la="uf", paths=4, timeout=60, vtol=1e-2)
def wrapped_estimators_are_cloned(w, kind):
    """The estimator given to a composition or keyed adapter is never fitted; adapters built from the same one
    are independent, and the caller's dicts and key lists stay the caller's."""
    P = w.precise
    X = zoo.rows(w, "x", 4, 2)
    proto = P.EwaCovariance(r=w.real(0.5))
    if kind == "conditional":
        a = P.ConditionalCovariance(vol=proto, corr=proto)
        b = P.ConditionalCovariance(vol=proto, corr=proto)
        for t in range(4):
            a.partial_fit(X[t])
            b.partial_fit(X[3 - t])
        c = P.ConditionalCovariance(vol=P.EwaCovariance(r=w.real(0.5)), corr=P.EwaCovariance(r=w.real(0.5))).fit(X)
        zoo.same(w, "a", a, c)
        _spoil(w, a.covariance_)
        _spoil(w, a.location_)
        zoo.same(w, "a after writes", a, c)
    else:
        keys = ["p", "q"]
        def make():
            return P.keyed(proto, dynamic=True) if kind == "dynamic" else P.keyed(proto, keys=keys)
        a, b, c = make(), make(), make()
        for t in range(4):
            row = {"p": X[t, 0], "q": X[t, 1]}
            a.learn_one(row)
            w.eq(f"row {t}", row, {"p": X[t, 0], "q": X[t, 1]})
            row["p"] = w.real(99)
            row["zz"] = w.real(1)
            b.learn_one({"p": X[3 - t, 0], "q": X[3 - t, 1]})
            _spoil(w, a.get_cov(["p", "q"]))
            _spoil(w, a.covariance_)
            _spoil(w, a.get_corr(["p", "q"]))
            ks = a.cov_array()[1]
            ks.append("junk")
        keys.append("r")
        for t in range(4):
            c.learn_one({"p": X[t, 0], "q": X[t, 1]})
        w.eq("a", a.get_cov(["p", "q"]), c.get_cov(["p", "q"]))
        w.eq("a keyed", a.covariance_, c.covariance_)
    w.eq("prototype unfitted", proto.n_samples_, 0)
    w.check("prototype state", proto.get_state() is None)


@harness(lambda env: [dict(**c, past=p, diff=f) for c in zoo.configs(env, env.thorough) for p in ("worn", "watched")
                      for f in (False, True)], la="uf", paths=3, timeout=60, vtol=1e-2, validate=False)
def reading_leaves_no_trace(w, est, v, past, diff):
    """An estimator asked for everything, after every observation or before a refit, ends up reporting exactly what
    one never asked reports."""
    cls, kw = zoo.build(w, est, v, diff=diff, sym=False)
    X, z = zoo.rows(w, "x", 4 if diff else 3, 2), zoo.other(w, 2, 2)
    ref = zoo.read_all(w, cls(**kw).fit(X), z)
    e = cls(**kw)
    if past == "worn":
        zoo.read_all(w, e.fit(zoo.other(w, *X.shape)), z)
        e.fit(X)
    else:
        for t in range(len(X)):
            e.partial_fit(X[t])
            if e.n_samples_ > 0:
                zoo.read_all(w, e, z)
    got = zoo.read_all(w, e, z)
    w.eq("all reads", got[:7] + got[10:], ref[:7] + ref[10:])
    w.eq("state", got[7], ref[7])
    w.eq("parameters", got[8], ref[8])
