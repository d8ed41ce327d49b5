"""Bounds: every registered class; the name is a solver-chosen integer over the registered names, their near misses
(case, prefix, suffix, whitespace, the other registry's names, the empty string) and one string equal to none of them;
estimators are used on one symbolic row and assessors on a symbolic sample of two rows."""
from vx.api import harness
from props import zoo

OPTS = dict(la="uf", paths=6000, timeout=120, abnormal=0, required=True)


class _Other(str):
    """A string equal to none of those it could be compared with."""

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    __hash__ = str.__hash__


def _near(names, extra=()):
    out = []
    for n in list(names) + list(extra):
        for m in (n, n.lower(), n.upper(), n.swapcase(), n[:-1], n[1:], n[:3], n[-3:], n + " ", " " + n, n + "s", n + "\n",
                  n.replace("Covariance", ""), n + "Covariance", n.replace("Likelihood", ""), "precise." + n,
                  n.replace("Ewa", "EWA"), n.title()):
            if m not in names and m not in out:
                out.append(m)
    for m in ("", "None", "EmpiricalCovariance()", "*", "covariance", "Covariance"):
        if m not in names and m not in out:
            out.append(m)
    return out


def _choose(w, name, table):
    """An arbitrary member of the table, chosen by the solver (bisection)."""
    i = w.var(name, lo=0, hi=len(table) - 1, integer=True)
    lo, hi = 0, len(table) - 1
    while lo < hi:
        mid = (lo + hi) // 2
        if w.fork(i <= mid):
            hi = mid
        else:
            lo = mid + 1
    return table[lo]


def _registry(w, which):
    if which == "estimators":
        P = w.mod("precise")
        return P, {c.__name__: c for c in P.all_estimators()}, P.estimator_from_name
    P = w.mod("precise.assessment")
    return P, {a.name: a for a in P.all_assessors()}, P.assessor_from_name


WHICH = [dict(which=k) for k in ("estimators", "assessors")]


@harness(WHICH, **OPTS)
def registered_names(w, which):
    """Names are distinct and non-empty; every member is found by its own name."""
    P, reg, find = _registry(w, which)
    many = P.all_estimators() if which == "estimators" else P.all_assessors()
    w.eq("distinct", len(reg), len(many))
    n = _choose(w, "member", sorted(reg))
    got = find(n)
    if which == "estimators":
        w.check("the class itself", got is reg[n])
        w.eq("named", got.__name__, n)
        w.eq("the names", list(P.estimator_names()), [c.__name__ for c in many])
    else:
        w.check("same class", type(got) is type(reg[n]))
        w.eq("named", got.name, n)
        w.eq("same parameters", sorted(got.__dict__), sorted(reg[n].__dict__))


@harness(WHICH, **OPTS)
def unknown_names(w, which):
    """Any other name raises a KeyError."""
    P, reg, find = _registry(w, which)
    other = [c.__name__ for c in w.mod("precise").all_estimators()] + [a.name for a in w.mod("precise").all_assessors()]
    other += ["BaseOnlineCovariance", "Assessor", "ConditionalCovariance", "FixedUniverse", "ewa", "auto"]
    n = _choose(w, "name", _near(reg, other))
    w.raises("unknown", (KeyError,), lambda: find(n))
    w.raises("equal to none", (KeyError,), lambda: find(_Other("something else")))


@harness(WHICH, **OPTS)
def listed_is_public(w, which):
    """Every member is public under its own name, and every public name exists."""
    P, reg, find = _registry(w, which)
    for x in P.__all__:
        w.check("public name " + x, hasattr(P, x))
    w.eq("public names distinct", len(set(P.__all__)), len(list(P.__all__)))
    T = w.mod("precise")
    for x in T.__all__:
        w.check("public name " + x, hasattr(T, x))
    if which == "estimators":
        n = _choose(w, "member", sorted(reg))
        w.check("public", n in P.__all__ and getattr(P, n) is reg[n])
        w.check("an estimator", issubclass(reg[n], P.BaseOnlineCovariance))
        pub = [getattr(P, x) for x in P.__all__]
        for c in pub:        # every public positional estimator is registered (composites take estimators)
            if isinstance(c, type) and issubclass(c, P.BaseOnlineCovariance) and \
                    c not in (P.BaseOnlineCovariance, P.ConditionalCovariance):
                w.check("registered " + c.__name__, c.__name__ in reg)
    else:
        n = _choose(w, "member", sorted(reg))
        c = type(reg[n])
        w.check("public", c.__name__ in P.__all__ and getattr(P, c.__name__) is c)
        w.check("an assessor", isinstance(reg[n], P.Assessor))
        for x in P.__all__:
            c = getattr(P, x)
            if isinstance(c, type) and c is not P.Assessor and issubclass(c, P.Assessor):
                w.check("registered " + x, c in [type(a) for a in P.all_assessors()])


@harness(WHICH, **OPTS)
def lists_are_copies(w, which):
    """What a caller does to a returned list or assessor changes nothing for the next caller."""
    P, reg, find = _registry(w, which)
    names = sorted(reg)
    n = _choose(w, "member", names)
    what = _choose(w, "what", ["clear", "append", "reverse", "drop", "set"])
    lists = [P.all_estimators(), P.estimator_names()] if which == "estimators" else [P.all_assessors()]
    before = [list(v) for v in lists]
    for v in lists:
        if what == "clear":
            v.clear()
        elif what == "append":
            v.append("x")
        elif what == "reverse":
            v.reverse()
        elif what == "drop":
            v.pop()
        else:
            v[0] = None
    if which == "estimators":
        w.eq("estimators", [c.__name__ for c in P.all_estimators()], [c.__name__ for c in before[0]])
        w.eq("names", list(P.estimator_names()), before[1])
        w.check("found", find(n) is reg[n])
    else:
        w.eq("assessors", [a.name for a in P.all_assessors()], [a.name for a in before[0]])
        a = find(n)
        keep = dict(a.__dict__)
        for k in list(a.__dict__):
            setattr(a, k, None)
        w.eq("assessor is fresh", find(n).__dict__, keep)
        w.eq("assessor listed is fresh", [v.__dict__ for v in P.all_assessors() if v.name == n][0], keep)


@harness(WHICH, **OPTS)
def defaults_are_usable(w, which):
    """Every member works as constructed by default."""
    P, reg, find = _registry(w, which)
    n = _choose(w, "member", sorted(reg))
    if which == "estimators":
        e = find(n)()
        X = zoo.rows(w, "x", 1, 2)
        w.check("fluent", e.partial_fit(X) is e)
        C = e.covariance_
        w.eq("shape", C.shape, (2, 2))
        w.finite("covariance", C)
        w.eq("symmetric", C[0, 1], C[1, 0])
        w.eq("features", e.n_features_in_, 2)
        w.eq("samples", e.n_samples_, 1)
    else:
        a = find(n)
        T = [[w.real(2), w.frac(1, 2)], [w.frac(1, 2), w.real(1)]]
        S = w.array([[w.var("a", lo=0, strict=True), w.real(0)], [w.real(0), w.var("b", lo=0, strict=True)]])
        X = zoo.rows(w, "x", 2, 2)
        for data, truth in ((True, True), (True, False), (False, True)):
            if not a.usable(have_data=data, have_truth=truth):
                continue
            s = a.score(S, X_test=X if data else None, true_cov=w.array(T) if truth else None)
            w.finite("score", s)


@harness([dict(name=n) for n in ("precise.skaters", "precise.skaters.covariance", "precise.skaters.covariance.ewapm",
                                 "precise.skaters.portfoliostatic", "precise.skaters.managers.schurmanagers")], **OPTS)
def removed_interface(w, name):
    """The functional interface fails on import, naming its replacement, and keeps failing."""
    w.mod("precise")
    for _ in range(2):
        try:
            w.mod(name)
            msg = None
        except ImportError as e:
            msg = str(e)
        w.check("fails", msg is not None)
        for word in ("removed", "precise 1.0", "MIGRATING.md", "partial_fit", "from precise import EwaCovariance"):
            w.check("says " + word, msg is not None and word in msg)
        if msg is not None:
            named = [t.strip("(),.") for t in msg.replace("(", " ").split()]
            w.check("the replacement exists", "EwaCovariance" in named and hasattr(w.mod("precise"), "EwaCovariance"))
    w.check("the package survives", "EwaCovariance" in w.mod("precise").estimator_names())
