"""Bounds: every registered estimator and variant plus the composed one; dimension 1-4; every kind of malformed
input listed; histories of up to 6 observations before the bad call; inputs as arrays, lists, tuples, integers,
strided and reversed views."""
from vx.api import harness
from props import zoo
from props.C03 import _composed


def _jobs(env):
    return [dict(**c, d=d) for c in zoo.configs(env, env.thorough) for d in ((1, 2, 3) if not env.thorough else (1, 2, 3, 4))
            if (c["est"], d) != ("PartialMomentsCovariance", 1)]


def _make(w, est, v, **k):
    if est == "conditional":
        return _composed(w, "ewa+ewa")
    cls, kw = zoo.build(w, est, v, sym=False, **k)
    return lambda: cls(**kw)


def _all(env):
    return _jobs(env) + [dict(est="conditional", v="", d=2)]


READS = ["covariance_", "correlation_", "precision_", "location_"]


@harness(_all, la="uf", paths=2, timeout=60, vtol=1e-2)
def before_any_data(w, est, v, d):
    """Every fitted quantity raises a not-fitted ValueError until there is data; counters read 0 / None."""
    make = _make(w, est, v)
    NotFitted = w.mod("precise.base").NotFittedError
    w.check("is a ValueError", issubclass(NotFitted, ValueError))
    e = make()
    for phase in ("new", "empty batch"):
        for name in READS:
            w.raises(f"{phase}.{name}", NotFitted, lambda: getattr(e, name))
        w.raises(f"{phase}.get_precision", NotFitted, lambda: e.get_precision())
        w.raises(f"{phase}.score", NotFitted, lambda: e.score(zoo_row(w, d)))
        w.raises(f"{phase}.mahalanobis", NotFitted, lambda: e.mahalanobis(zoo_row(w, d)))
        w.eq(f"{phase}.n_samples_", e.n_samples_, 0)
        w.eq(f"{phase}.n_features_in_", e.n_features_in_, None)
        if phase == "new":
            w.check("returns self", e.partial_fit(w.np.zeros((0, d))) is e)


def zoo_row(w, d):
    return w.array([[w.real(1)] * d])


@harness(_all, la="uf", paths=2, timeout=60, vtol=1e-2)
def counts_and_shapes(w, est, v, d):
    """n_samples_ counts observations, n_features_in_ is their width, estimates are d x d and d."""
    make = _make(w, est, v)
    X = zoo.rows(w, "x", 7, d)
    e, n = make(), 0
    for size in (1, 2, 0, 3, 1):
        w.check("returns self", e.partial_fit(X[n:n + size]) is e)
        n += size
        w.eq(f"n@{n}", e.n_samples_, n)
        w.eq(f"d@{n}", e.n_features_in_, d)
        w.check(f"cov shape@{n}", tuple(e.covariance_.shape) == (d, d))
        w.check(f"corr shape@{n}", tuple(e.correlation_.shape) == (d, d))
        w.check(f"mean shape@{n}", tuple(e.location_.shape) == (d,))
        w.check(f"mahalanobis shape@{n}", tuple(e.mahalanobis(X).shape) == (7,))
        w.check(f"mahalanobis of one row@{n}", tuple(e.mahalanobis(X[0]).shape) == (1,))


@harness(_all, la="uf", paths=2, timeout=60, vtol=1e-2)
def malformed_input(w, est, v, d):
    """Observations of another width, 0-d/3-d arrays and one-row fits are refused and leave the estimate alone."""
    make = _make(w, est, v)
    X = zoo.rows(w, "x", 6, d)
    for n in (1, 6):
        e, ref = make(), make()
        e.partial_fit(X[:n])
        ref.partial_fit(X[:n])
        for width in (d - 1, d + 1):
            if width == 0:
                continue
            bad = w.np.ones((2, width))
            w.raises(f"partial_fit width {width}", ValueError, lambda: e.partial_fit(bad))
            w.raises(f"partial_fit one row of width {width}", ValueError, lambda: e.partial_fit(bad[0]))
            w.raises(f"mahalanobis width {width}", ValueError, lambda: e.mahalanobis(bad))
            w.raises(f"score width {width}", ValueError, lambda: e.score(bad))
        w.raises("3-d", ValueError, lambda: e.partial_fit(w.np.ones((2, d, d))))
        w.raises("0-d", ValueError, lambda: e.partial_fit(w.real(3)))
        w.raises("fit of one row", ValueError, lambda: e.fit(X[0]))
        w.raises("fit 3-d", ValueError, lambda: e.fit(w.np.ones((2, d, d))))
        zoo.same(w, f"after refusals@{n}", e, ref)
        e.partial_fit(X[n:])
        ref.partial_fit(X[n:])
        zoo.same(w, f"still learns@{n}", e, ref)
    other = zoo.rows(w, "o", 2, d + 1)
    w.eq("refit to another width", e.fit(other).n_features_in_, d + 1)
    zoo.same(w, "refit", e, make().fit(other))


@harness(lambda env: [j for j in _jobs(env) if j["d"] < 4], la="uf", paths=2, timeout=60, vtol=1e-2)
def differences_contract(w, est, v, d):
    """The same width contract holds between two levels of a differenced stream."""
    make = _make(w, est, v, diff=True)
    X = zoo.rows(w, "x", 3, d)
    e = make().partial_fit(X[0])
    w.raises("second level of another width", ValueError, lambda: e.partial_fit(w.np.ones(d + 1)))
    w.eq("n", e.n_samples_, 0)
    e.partial_fit(X[1:])
    zoo.same(w, "after refusal", e, make().fit(X))


@harness(_all, la="uf", paths=2, timeout=60, vtol=1e-2)
def kinds_of_input(w, est, v, d):
    """Lists, tuples, integers and strided views mean the same observations as a contiguous float array."""
    make = _make(w, est, v)
    X = zoo.rows(w, "x", 4, d)
    ref = make().fit(X)
    zoo.same(w, "list of lists", make().fit([[X[i, j] for j in range(d)] for i in range(4)]), ref)
    zoo.same(w, "tuples", make().partial_fit(tuple(tuple(X[i, j] for j in range(d)) for i in range(4))), ref)
    e = make()
    for i in range(4):
        e.partial_fit([X[i, j] for j in range(d)])
    zoo.same(w, "list rows", e, ref)
    wide = w.np.zeros((8, 2 * d)) + w.real(1)
    wide[::2, ::2] = X
    zoo.same(w, "strided view", make().fit(wide[::2, ::2]), ref)
    zoo.same(w, "reversed view", make().fit(X[::-1][::-1]), ref)
    zoo.same(w, "column-major", make().fit(w.np.asfortranarray(X)), ref)
    ints = [[(3 * i + 5 * j * j) % 7 - 2 for j in range(d)] for i in range(4)]
    floats = w.array([[w.real(t) for t in row] for row in ints])
    zoo.same(w, "integers", make().fit(ints), make().fit(floats))
    zoo.same(w, "integer array", make().fit(w.np.array(ints, dtype=int)), make().fit(floats))
    zoo.same(w, "view of a column-major array", make().fit(w.array([[X[i, j] for i in range(4)] for j in range(d)]).T), ref)
    e, f = make(), make()
    for i in range(4):
        e.partial_fit(w.np.array([ints[i][j] + 40000 * (1 + i % 2) for j in range(d)]))
        f.partial_fit(w.array([w.real(ints[i][j] + 40000 * (1 + i % 2)) for j in range(d)]))
    zoo.same(w, "large integers one at a time", e, f)
    # the second argument of fit and partial_fit is there for pipelines and means nothing
    zoo.same(w, "with targets", make().fit(X, w.np.zeros(4)), ref)
    zoo.same(w, "with any targets", make().partial_fit(X[:2], None).partial_fit(X[2:], y=w.np.ones(7)), ref)


@harness(lambda env: [dict(**c) for c in zoo.configs(env, env.thorough)] + [dict(est="conditional", v="")], la="uf",
         paths=2, timeout=60, vtol=1e-2, max_decisions=1000)
def malformed_from_the_start(w, est, v):
    """Numbers and 3-d arrays are refused by an estimator that has seen nothing, or one variable, whatever their size;
    afterwards it is as good as new."""
    make = _make(w, est, v)
    np = w.np
    for d in (None, 2) if "Partial" in est else (None, 1, 2):
        X = zoo.rows(w, f"x{d}", 1 if "Partial" in est else 3, d or 2)
        if "Partial" in est:                # a sign pattern per pair: one symbolic row
            X = w.array([[X[0, j] for j in range(d or 2)], [w.real(1)] * (d or 2)])
        e = make()
        if d:
            e.partial_fit(X[:1])
        k = d or 2
        for name, bad in (("number", w.real(3)), ("python number", 3), ("0-d array", w.array(w.real(3))),
                          ("1 x 1 x 1", np.ones((1, 1, 1))), ("1 x 1 x d", np.ones((1, 1, k))),
                          ("n x d x 1", np.ones((2, k, 1))), ("4-d", np.ones((1, 1, 1, k)))):
            w.raises(f"partial_fit {name}", ValueError, lambda: e.partial_fit(bad))
            w.raises(f"fit {name}", ValueError, lambda: make().fit(bad))
        w.eq("nothing counted", e.n_samples_, 1 if d else 0)
        w.eq("no width assumed", e.n_features_in_, d)
        zoo.same(w, f"{d}: as good as new", e.partial_fit(X[1 if d else 0:]), make().fit(X))
