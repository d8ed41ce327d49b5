"""Bounds: 1-4 names, 1-25 observations, every value, both adapters, wrapped estimators of five kinds, every ordered
query over three names.  The data-frame form is read through pandas' own constructor on the real code and through a
recording stand-in symbolically."""
import itertools
import sys
import types

from vx.api import harness
from props import zoo

NAMES = ["b", "a", "c"]
WRAPPED = ["EwaCovariance", "EmpiricalCovariance", "LedoitWolfCovariance", "DiagonalCovariance", "HuberCovariance"]


class _Frame:
    """What is asked of pandas, recorded."""

    def __init__(self, data=None, index=None, columns=None):
        self.data, self.index, self.columns = data, list(index), list(columns)
        self.shape = (len(self.index), len(self.columns))

    def to_numpy(self):
        return self.data


def _pandas():
    try:
        import pandas  # noqa: F401
    except ImportError:
        m = types.ModuleType("pandas")
        m.DataFrame = _Frame
        sys.modules["pandas"] = m


def _est(w, name="EwaCovariance", **k):
    cls = w.mod("precise.registry").estimator_from_name(name)
    return cls(**{**({"r": w.real(0.5)} if "r" in zoo.params_of(cls) else {}), **k})


def _adapter(w, kind, name="EwaCovariance", **k):
    return getattr(w.mod("precise.keyed"), kind)(_est(w, name), **k)


def _stream(w, k, names, X):
    for x in X:
        k.update({n: x[i] for i, n in enumerate(names)})
    return k


ALL = [dict(kind=k, est=e, d=d, T=T) for k in ("FixedUniverse", "DynamicUniverse") for e in WRAPPED
       for d, T in ((1, 3), (2, 3), (3, 3), (2, 7)) if not (k == "DynamicUniverse" and d == 1)]


@harness(ALL, la="uf", canon=True, paths=6, abnormal=0, timeout=90, vtol=1e-2)
def every_form_has_the_same_numbers(w, kind, est, d, T):
    """Dictionary, alias, array and data frame hold the same numbers under the same labels, and the labels are those of
    the observations."""
    _pandas()
    names = NAMES[:d]
    k = _stream(w, _adapter(w, kind, est), names, zoo.rows(w, "x", T, d))
    M, keys = k.cov_array()
    w.eq("labels", list(keys), names)
    w.check("shape", tuple(M.shape) == (d, d))
    out, alias = k.covariance_, k.covariance
    w.eq("rows", list(out), names)
    w.eq("alias rows", list(alias), names)
    G = k.get_cov()
    F = k.to_frame()
    w.eq("frame rows", list(F.index), names)
    w.eq("frame columns", list(F.columns), names)
    FM = F.to_numpy()
    for i, a in enumerate(names):
        w.eq(f"columns of {a}", list(out[a]), names)
        for j, b in enumerate(names):
            w.eq(f"dict [{a}][{b}]", out[a][b], M[i, j])
            w.eq(f"alias [{a}][{b}]", alias[a][b], M[i, j])
            w.eq(f"array [{a}][{b}]", G[i, j], M[i, j])
            w.eq(f"frame [{a}][{b}]", FM[i, j], M[i, j])
            w.eq(f"symmetric [{a}][{b}]", out[a][b], out[b][a])


@harness([dict(kind=k, est=e, d=d, T=T) for k in ("FixedUniverse", "DynamicUniverse") for e in WRAPPED
          for d, T in ((2, 3), (3, 3), (2, 6)) if not (e == "HuberCovariance" and k == "DynamicUniverse")],
         la="uf", canon=True, paths=12, abnormal=0, timeout=90, vtol=1e-2)
def correlation_is_the_normalised_covariance(w, kind, est, d, T):
    """Unit diagonal; off it, the covariance divided by the two standard deviations (zero for one without variance)."""
    names = NAMES[:d]
    X = zoo.rows(w, "x", T, d)
    k = _stream(w, _adapter(w, kind, est), names, X)
    M = k.get_cov()
    out, C = k.correlation_, k.get_corr()
    w.eq("rows", list(out), names)
    for i, a in enumerate(names):
        w.eq(f"columns of {a}", list(out[a]), names)
        w.eq(f"unit [{a}]", out[a][a], w.real(1))
        w.eq(f"unit array [{a}]", C[i, i], w.real(1))
        for j, b in enumerate(names):
            if i == j:
                continue
            den = w.np.sqrt(M[i, i]) * w.np.sqrt(M[j, j])
            if den > 0:
                w.eq(f"[{a}][{b}]", out[a][b], M[i, j] / den)
                w.eq(f"array [{a}][{b}]", C[i, j], M[i, j] / den)
            else:
                w.eq(f"no variance [{a}][{b}]", out[a][b], w.real(0))
                w.eq(f"no variance, array [{a}][{b}]", C[i, j], w.real(0))


@harness([dict(kind=k, est=e, flat=f) for k in ("FixedUniverse",) for e in ("EwaCovariance", "EmpiricalCovariance")
          for f in (0, 1)], la="uf", canon=True, paths=6, timeout=60)
def correlation_of_a_constant_name(w, kind, est, flat):
    """A name that never moves has unit self-correlation and zero correlation with the others."""
    X, names = zoo.rows(w, "x", 3, 2), NAMES[:2]
    X[1, flat] = X[2, flat] = X[0, flat]
    k = _stream(w, _adapter(w, kind, est), names, X)
    out = k.correlation_
    for i, a in enumerate(names):
        for j, b in enumerate(names):
            w.eq(f"[{a}][{b}]", out[a][b], w.real(1 if i == j else 0))


@harness([dict(kind=k, q="".join(map(str, q))) for k in ("FixedUniverse", "DynamicUniverse")
          for m in (2, 3) for q in itertools.permutations(range(3), m)], la="uf", canon=True, paths=6, abnormal=0, timeout=60,
         vtol=1e-2)
def queries_are_labelled_as_asked(w, kind, q):
    """Array, correlation and frame of a subset: the names asked for, in the order asked for."""
    _pandas()
    k = _stream(w, _adapter(w, kind), NAMES, zoo.rows(w, "x", 3, 3))
    ask = [NAMES[int(i)] for i in q]
    M, keys = k.cov_array(ask)
    w.eq("labels", list(keys), ask)
    w.eq("get_cov", k.get_cov(ask), M)
    F = k.to_frame(ask)
    w.eq("frame rows", list(F.index), ask)
    w.eq("frame columns", list(F.columns), ask)
    w.eq("frame", F.to_numpy(), M)
    C = k.get_corr(ask)
    for i in range(len(ask)):
        w.eq(f"unit {i}", C[i, i], w.real(1))
        for j in range(i):
            den = w.np.sqrt(M[i, i]) * w.np.sqrt(M[j, j])
            if den > 0:
                w.eq(f"corr {i}{j}", C[i, j], M[i, j] / den)
                w.eq(f"corr {j}{i}", C[j, i], M[j, i] / den)
    if kind == "FixedUniverse":
        full = k.get_cov()
        ix = [int(i) for i in q]
        w.eq("same numbers as the whole", M, w.array([[full[i, j] for j in ix] for i in ix]))


@harness([dict(q=q, est=e) for q in ("ac", "bc", "cb", "ab", "abc", "cba", "acb", "d", "da", "adc") for e in ("EmpiricalCovariance", "EwaCovariance")],
         la="uf", canon=True, paths=6, abnormal=0, timeout=90, vtol=1e-6)
def correlation_of_names_seldom_seen_together(w, q, est):
    """Names observed together to different extents: the correlation asked for is that of the covariance asked for."""
    k = _adapter(w, "DynamicUniverse", est)
    for t in range(12):
        u, v, s = ((3 * t + 1) * (t + 2) % 11 - 5, (5 * t + 2) % 7 - 3, (t * t + 4 * t) % 9 - 4)
        k.update({"a": w.real(u), "b": w.real(u + v / 8)})
        k.update({"b": w.real(u), "c": w.real(-u + s / 4)})
    k.update({"a": w.real(1), "b": w.real(0.5), "c": w.real(0.25), "d": w.real(2)})
    k.update({"a": w.real(1.5), "b": w.real(0.5), "c": w.var("x", lo=0, hi=1), "d": w.real(1)})
    ask = list(q)
    M, C = k.get_cov(ask), k.get_corr(ask)
    for i in range(len(ask)):
        w.eq(f"unit {i}", C[i, i], w.real(1))
        for j in range(len(ask)):
            den = w.np.sqrt(M[i, i]) * w.np.sqrt(M[j, j])
            if i != j and den > 0:
                w.eq(f"corr {i}{j}", C[i, j], M[i, j] / den)


@harness([dict(kind=k, est=e, T=T, cut=c) for k in ("FixedUniverse", "DynamicUniverse")
          for e in ("EwaCovariance", "LedoitWolfCovariance") for T in (3, 6) for c in (0, 1, 2)],
         la="uf", canon=True, paths=6, abnormal=0, timeout=60, vtol=1e-2)
def learning_is_learning(w, kind, est, T, cut):
    """``update``, ``learn_one`` and ``learn_many`` do the same, return the adapter, and batches of any size, generators
    included, add up."""
    X, names = zoo.rows(w, "x", T, 2), NAMES[:2]
    obs = [{n: X[t, i] for i, n in enumerate(names)} for t in range(T)]
    a, b, c = (_adapter(w, kind, est) for _ in range(3))
    for o in obs:
        w.check("update returns the adapter", a.update(dict(o)) is a)
    for o in obs:
        w.check("learn_one returns the adapter", b.learn_one(dict(o)) is b)
    w.check("learn_many returns the adapter", c.learn_many([dict(o) for o in obs[:cut]]) is c)
    c.learn_many(dict(o) for o in obs[cut:])
    w.eq("learn_one", b.get_cov(), a.get_cov())
    w.eq("learn_many", c.get_cov(), a.get_cov())
    w.eq("labels", list(c.covariance_), list(a.covariance_))


GAPS = [("ba", "b", "ba", "a"), ("ba", "a", "b", "b", "ba"), ("b", "a", "b"), ("ba", "ab", "ba")]


@harness([dict(kind=k, impute=i, gaps="_".join(g), cut=c) for k in ("FixedUniverse", "DynamicUniverse")
          for i in ("last", "mean", "zero") for g in GAPS for c in (0, 2)
          if k == "FixedUniverse" or i == "last"], la="uf", canon=True, paths=6, abnormal=0, timeout=60, vtol=1e-2)
def learning_with_gaps_is_learning(w, kind, impute, gaps, cut):
    """The same when observations miss names: a batch adds nothing to what its observations say."""
    opts = dict(impute=impute, keys=["b", "a"]) if kind == "FixedUniverse" else {}
    obs = []
    for t, s in enumerate(gaps.split("_")):
        x = zoo.rows(w, f"x{t}", 1, len(s))
        obs.append({n: x[0, i] for i, n in enumerate(s)})
    a, b, c = (getattr(w.mod("precise.keyed"), kind)(_est(w), **opts) for _ in range(3))
    given = [dict(o) for o in obs]
    for o in obs:
        a.update(dict(o))
        b.learn_one(dict(o))
    c.learn_many(given[:cut])
    c.learn_many(o for o in given[cut:])
    for t, (o, g) in enumerate(zip(obs, given)):
        w.eq(f"observation names {t}", list(g), list(o))
        for n in o:
            w.eq(f"observation {t} {n}", g[n], o[n])
    w.eq("learn_one", b.get_cov(["b", "a"]), a.get_cov(["b", "a"]))
    w.eq("learn_many", c.get_cov(["b", "a"]), a.get_cov(["b", "a"]))


def _read(k, names):
    _pandas()
    out = [k.covariance_, k.covariance, k.correlation_, k.cov_array(), k.get_cov(), k.get_corr(), k.to_frame(),
           k.get_cov(list(reversed(names))), k.get_corr(names[:2]), repr(k)]
    for r in (out[3][0], out[4], out[5], out[7], out[8]):    # what is handed out may be written to
        try:
            r *= 0
            r += 7
        except ValueError:
            pass
    return out


@harness([dict(kind=k, est=e, T=T) for k in ("FixedUniverse", "DynamicUniverse")
          for e in ("EwaCovariance", "LedoitWolfCovariance", "DiagonalCovariance") for T in (3, 6)],
         la="uf", canon=True, paths=6, abnormal=0, timeout=60, vtol=1e-2)
def reading_changes_nothing(w, kind, est, T):
    """Reading in any form between observations, and writing into what was read, leaves what is learned alone; nor is the
    observation handed in changed."""
    X, names = zoo.rows(w, "x", T, 3), NAMES[:3]
    a, b = _adapter(w, kind, est), _adapter(w, kind, est)
    for t in range(T):
        o = {n: X[t, i] for i, n in enumerate(names)}
        p = dict(o)
        a.update(o)
        w.eq(f"observation names {t}", list(o), list(p))
        for n in names:
            w.eq(f"observation {t} {n}", o[n], p[n])
        b.update(dict(p))
        if t:
            o[names[0]] = w.real(99)      # the caller's dictionary is the caller's
            o["new"] = w.real(1)
            _read(a, names)
    w.eq("covariance", a.get_cov(), b.get_cov())
    w.eq("labels", list(a.covariance_), list(b.covariance_))
    M = a.get_cov()
    _read(a, names)
    w.eq("again", a.get_cov(), b.get_cov())
    w.eq("numbers handed out before", M, b.get_cov())


def _forms(w):
    kd = w.mod("precise.keyed")
    cls = w.mod("precise.registry").estimator_from_name
    E, L, S = cls("EwaCovariance"), cls("LedoitWolfCovariance"), cls("ShrunkCovariance")
    h = w.real(0.25)
    return {
        "default": (lambda: kd.keyed(), "FixedUniverse", lambda: E()),
        "default dynamic": (lambda: kd.keyed(dynamic=True), "DynamicUniverse", lambda: E()),
        "bare fixed": (lambda: kd.FixedUniverse(), "FixedUniverse", lambda: E()),
        "bare dynamic": (lambda: kd.DynamicUniverse(), "DynamicUniverse", lambda: E()),
        "instance": (lambda: kd.keyed(E(r=h)), "FixedUniverse", lambda: E(r=h)),
        "instance dynamic": (lambda: kd.keyed(E(r=h), dynamic=True), "DynamicUniverse", lambda: E(r=h)),
        "class": (lambda: kd.keyed(L), "FixedUniverse", lambda: L()),
        "class with options": (lambda: kd.keyed(E, r=h), "FixedUniverse", lambda: E(r=h)),
        "class with options, dynamic": (lambda: kd.keyed(S, dynamic=True, delta=h), "DynamicUniverse",
                                        lambda: S(delta=h)),
        "class with both": (lambda: kd.keyed(E, r=h, impute="zero", keys=["b", "a"]), "FixedUniverse", lambda: E(r=h)),
        "class with both, dynamic": (lambda: kd.keyed(E, dynamic=True, r=h, max_universes=2, max_staleness=1),
                                     "DynamicUniverse", lambda: E(r=h)),
    }


FORMS = ["default", "default dynamic", "bare fixed", "bare dynamic", "instance", "instance dynamic", "class",
         "class with options", "class with options, dynamic", "class with both", "class with both, dynamic"]


@harness([dict(form=f, T=T) for f in FORMS for T in (3, 6)], la="uf", canon=True, paths=6, abnormal=0, timeout=60, vtol=1e-2)
def front_door(w, form, T):
    """Every way of asking builds the adapter asked for around the estimator asked for."""
    make, kind, est = _forms(w)[form]
    k, e = make(), est()
    w.check("kind", isinstance(k, getattr(w.mod("precise.keyed"), kind)))
    X, names = zoo.rows(w, "x", T, 2), NAMES[:2]
    _stream(w, k, names, X)
    for x in X:
        e.partial_fit(x)
    C = e.covariance_
    if kind == "DynamicUniverse":
        near = getattr(w.mod("precise._linalg"), "nearest_pos_def", None)
        if near is None:
            return
        C = near(C)
    w.eq("covariance", k.get_cov(names), C, tol=1e-6)


@harness([dict(dynamic=d) for d in (False, True)], la="uf", canon=True, paths=6, abnormal=0, timeout=60, vtol=1e-2)
def the_instance_is_a_pattern(w, dynamic):
    """A configured instance is copied, fitted or not: it is never changed, what it has seen is not used, and two adapters
    around it do not share anything."""
    X, Y, names = zoo.rows(w, "x", 3, 2), zoo.rows(w, "y", 3, 2), NAMES[:2]
    e, fresh = _est(w, r=w.real(0.25)), _est(w, r=w.real(0.25))
    for x in Y:
        e.partial_fit(x)
    before = [e.n_samples_, e.location_.copy(), e.covariance_.copy()]
    k1 = w.mod("precise.keyed").keyed(e, dynamic=dynamic)
    k2 = w.mod("precise.keyed").keyed(e, dynamic=dynamic)
    for x, y in zip(X, Y):
        fresh.partial_fit(x)
        k1.update({n: x[i] for i, n in enumerate(names)})
        k2.update({n: y[i] for i, n in enumerate(names)})
    w.eq("n", e.n_samples_, before[0])
    w.eq("mean", e.location_, before[1])
    w.eq("covariance", e.covariance_, before[2])
    C = fresh.covariance_
    if dynamic:
        near = getattr(w.mod("precise._linalg"), "nearest_pos_def", None)
        if near is None:
            return
        C = near(C)
    w.eq("adapter", k1.get_cov(names), C, tol=1e-6)


@harness([dict()], paths=4, timeout=60)
def options_of_an_instance_are_refused(w):
    """Estimator options next to a configured instance are an error, not silently dropped."""
    kd = w.mod("precise.keyed")
    for dyn in (False, True):
        w.raises(f"instance {dyn}", (ValueError, TypeError), lambda: kd.keyed(_est(w), dynamic=dyn, r=w.real(0.1)))
        w.raises(f"default {dyn}", (ValueError, TypeError), lambda: kd.keyed(dynamic=dyn, r=w.real(0.1)))
    w.raises("dynamic option, fixed", (ValueError, TypeError), lambda: kd.keyed(_est(w), max_universes=3))
    w.raises("fixed option, dynamic", (ValueError, TypeError), lambda: kd.keyed(_est(w), dynamic=True, impute="zero"))


@harness([dict(m=m, s=s) for m in (1, 2, 10) for s in (0, 1, 50)], paths=4, timeout=60)
def limits_arrive(w, m, s):
    """The limits given to the front door are the adapter's."""
    k = w.mod("precise.keyed").keyed(_est(w), dynamic=True, max_universes=m, max_staleness=s)
    w.eq("universes", k.max_universes, m)
    w.eq("staleness", k.max_staleness, s)
