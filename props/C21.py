"""Bounds: whole streams of 1-8 observations, dimension 1-3, rates 1/2, 1/4 and 1; one step from any state after any
number of observations; every data value."""
from vx.api import harness
from props import zoo


def _cls(w, name):
    return w.mod("precise.registry").estimator_from_name(name)


def _small(w):
    return w.frac(1, 10 ** 8)


@harness([dict(d=d, T=T, r=r) for d in (1, 2, 3, 7) for T, r in ((1, 0.5), (5, 0.5), (5, 1.0), (4, 0.25), (7, 0.125)) if d < 7 or T < 6],
         la="uf", canon=True, paths=4, timeout=60)
def geodesic_burn_in(w, d, T, r):
    """Up to the end of the burn-in the geodesic estimator is the plain average."""
    X = zoo.rows(w, "x", T, d)
    zoo.same(w, "burn-in", _cls(w, "GeodesicEwaCovariance")(r=w.real(r)).fit(X),
             _cls(w, "EmpiricalCovariance")().fit(X))


@harness([dict(d=d, T=T, r=r) for d in (1, 2, 3) for T, r in ((6, 0.5), (8, 0.5), (7, 0.25), (6, 1.0), (7, 1.0))],
         la="uf", canon=True, paths=6, abnormal=0, timeout=60, vtol=1e-2)
def geodesic_steps(w, d, T, r):
    """Afterwards each observation moves the estimate a fraction r along the geodesic to the outer product of the
    innovation, and the mean is exponentially weighted."""
    X, burn = zoo.rows(w, "x", T, d), zoo.burn(r)
    e = _cls(w, "GeodesicEwaCovariance")(r=w.real(r))
    for t in range(T):
        if t < burn:
            e.partial_fit(X[t])
            continue
        S, m = e.covariance_, e.location_
        e.partial_fit(X[t])
        v = X[t] - m
        w.eq(f"mean {t}", e.location_, m + w.real(r) * v)
        w.eq(f"covariance {t}", e.covariance_, zoo.geodesic(w, S, w.np.outer(v, v), w.real(r)), tol=1e-5)


@harness([dict(r=r) for r in (0.5, 0.25, 1.0)], la="exact", la_n=1, canon=True, feas=True, fork_minmax=True,
         paths=8, timeout=60, havoc=True, validate=False)
def geodesic_of_one_variable(w, r):
    """In one dimension the step is the weighted geometric mean S^(1-r) (v^2)^r, both floored at 1e-8."""
    e = zoo.havoc(w, _cls(w, "GeodesicEwaCovariance"), {"r": w.real(r)}, 1, lo=zoo.burn(r))
    S, m = e.covariance_[0, 0], e.location_[0]
    x = w.var("x")
    v2 = (x - m) * (x - m)
    S = S if w.fork(S >= _small(w)) else _small(w)
    v2 = v2 if w.fork(v2 >= _small(w)) else _small(w)
    e.partial_fit(w.array([x]))
    C = e.covariance_[0, 0]
    w.le("positive", w.real(0), C)
    if r == 1.0:
        w.eq("step", C, v2, tol=1e-6)
    elif r == 0.5:
        w.eq("step squared", C * C, S * v2, tol=1e-6)
    else:
        w.eq("fourth power", C * C * C * C, S * S * S * v2, tol=1e-6)


def _scatter(w, X, r):
    """Exponentially weighted scatter of the innovations (plain average in the burn-in)."""
    m, S = X[0], w.np.zeros((len(X[0]), len(X[0])))
    for t in range(1, len(X)):
        a = w.frac(1, t + 1) if t + 1 <= zoo.burn(r) else w.real(r)
        v = X[t] - m
        m, S = m + a * v, S + a * (w.np.outer(v, v) - S)
    return m, S


@harness([dict(d=d, T=T, r=r, zero=z) for z in (False, True) for d in (2, 3) for T, r in ((2, 0.5), (4, 0.5), (6, 0.5), (7, 0.25), (6, 1.0))],
         la="uf", canon=True, feas=True, fork_minmax=True, paths=16, abnormal=0, timeout=60, vtol=1e-2)
def quadrants_add_up(w, d, T, r, zero):
    """The partial moments of all four sign quadrants add up to the exponentially weighted scatter, of which the
    estimate is the nearest positive-definite matrix.  A fixed history, then any observation."""
    H = [[3, -1, 2], [0.5, 2, 1], [-2, 0.25, 1], [1, -3, 0.5], [0.25, 1.5, -2], [4, 1, 3]][:T - 1]
    X = w.array([[w.real(v) for v in h[:d]] for h in H] + [[w.var(f"x{i}") for i in range(d)]])
    m, _ = _scatter(w, X[:-1], r)
    for i in range(d):
        if zero and i == 0:
            X[-1][0] = m[0]
        elif not w.fork(X[-1][i] > m[i]):
            w.assume(X[-1][i] < m[i])
    e = _cls(w, "PartialMomentsCovariance")(r=w.real(r)).fit(X)
    m, S = _scatter(w, X, r)
    near = getattr(w.mod("precise._linalg"), "nearest_pos_def", None)
    w.eq("mean", e.location_, m)
    if near is not None:
        N = near((S + S.T) / 2)
        w.eq("covariance", e.covariance_, (N + N.T) / 2, tol=1e-6)


@harness([dict(d=d, T=T, r=r, free=f) for d, f in ((5, 4), (8, 0), (8, 6)) for T, r in ((2, 0.5), (4, 0.5), (7, 0.5), (7, 0.25))],
         la="uf", canon=True, feas=True, fork_minmax=True, paths=16, abnormal=0, timeout=60, vtol=1e-2)
def quadrants_of_many_variables(w, d, T, r, free):
    """The same for many variables: a fixed history, then an observation with an arbitrary value in one coordinate."""
    X = zoo.broad(w, d, T - 1, free)
    m, _ = _scatter(w, X[:-1], r)
    if not w.fork(X[-1][free] > m[free]):
        w.assume(X[-1][free] < m[free])
    e = _cls(w, "PartialMomentsCovariance")(r=w.real(r)).fit(w.array([list(x) for x in X]))
    m, S = _scatter(w, X, r)
    near = getattr(w.mod("precise._linalg"), "nearest_pos_def", None)
    w.eq("mean", e.location_, m)
    if near is not None:
        N = near((S + S.T) / 2)
        w.eq("covariance", e.covariance_, (N + N.T) / 2, tol=1e-6)


@harness([dict(T=T, r=r) for T, r in ((2, 0.5), (5, 0.5), (6, 0.5), (7, 0.25), (6, 1.0))], la="exact", la_n=2,
         canon=True, feas=True, fork_minmax=True, paths=16, timeout=60)
def partial_moments_of_one_variable(w, T, r):
    """In one dimension upside and downside together are the whole variance.  A fixed history, then any
    observation."""
    H = [3, 0.5, -2, 1, 0.25, 4, -1, 2][:T - 1]
    X = w.array([[w.real(v)] for v in H] + [[w.var("x")]])
    e = _cls(w, "PartialMomentsCovariance")(r=w.real(r)).fit(X)
    m, S = _scatter(w, X, r)
    w.assume(S[0, 0] > w.frac(1, 10 ** 6))
    w.eq("mean", e.location_, m)
    w.eq("variance", e.covariance_, S, tol=1e-6)


@harness([dict(d=d, r=r, phase=p) for d in (1, 2) for r in (0.5, 0.25) for p in ("burn", "run")], la="uf", canon=True,
         feas=True, fork_minmax=True, paths=16, timeout=60, havoc=True, validate=False)
def each_pair_in_one_quadrant(w, d, r, phase):
    """From any state an observation adds each pair of innovations to exactly one quadrant's partial moment, with its
    own sign, and only the forgetting touches the other three."""
    e = zoo.havoc(w, _cls(w, "PartialMomentsCovariance"), {"r": w.real(r)}, d, lo=zoo.burn(r) if phase == "run" else 1,
                  hi=None if phase == "run" else zoo.burn(r) - 1)
    q0 = (e.get_state() or {}).get("quadrants")
    if q0 is None or len(q0) != 4:
        return w.eq("nothing to observe", w.real(0), w.real(0))
    q0, m, n = w.array(q0), e.location_, e.n_samples_
    x = w.arr("x", d)
    v = x - m
    e.partial_fit(x)
    q1 = w.array(e.get_state()["quadrants"])
    for i in range(d):
        for j in range(d):
            inc = []
            for q in range(4):
                if phase == "run":
                    inc.append(q1[q, i, j] - (1 - w.real(r)) * q0[q, i, j])
                else:
                    inc.append(q1[q, i, j] * (n + 1) - n * q0[q, i, j])
            scale = w.real(r) if phase == "run" else w.real(1)
            w.eq(f"whole {i}{j}", inc[0] + inc[1] + inc[2] + inc[3], scale * v[i] * v[j])
            for a in range(4):
                for b in range(a):
                    w.eq(f"one {i}{j}", inc[a] * inc[b], w.real(0))
