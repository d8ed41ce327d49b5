"""Bounds: dimension 1-6, 9 and 10, 1-7 requested blocks (more than the dimension included), 1-9 observations, default rate over
22; diff and plain streams."""
from vx.api import harness
from props import zoo

_SHAPES = [(1, 1), (1, 4), (2, 1), (2, 2), (2, 5), (3, 2), (3, 3), (3, 7), (4, 2), (4, 3), (4, 4), (5, 2), (5, 4),
           (5, 5), (6, 3), (6, 4), (9, 2), (9, 4), (10, 3)]


def _cls(w, name):
    return w.mod("precise.registry").estimator_from_name(name)


@harness([dict(d=d, nb=nb, T=T, r=r, diff=df) for d, nb in _SHAPES
          for T, r, df in ((1, 0.5, False), (4, 0.5, False), (8, 0.5, False), (7, 1.0, False), (9, 0.25, False),
                           (8, 0.5, True))], la="uf", canon=True, paths=4, timeout=60, vtol=1e-2)
def blocks_are_independent(w, d, nb, T, r, diff):
    """Each contiguous block is the (floored) EWA of its own columns; everything across blocks is zero."""
    X = zoo.rows(w, "x", T, d)
    kw = {"r": w.real(r), "diff": diff}
    e = _cls(w, "BlockCovariance")(n_blocks=nb, **kw).fit(X)
    if diff and T < 2:
        return
    C, m = e.covariance_, e.location_
    bl, bid = zoo.blocks(d, nb), zoo.block_of(d, nb)
    for i in range(d):
        for j in range(d):
            if bid[i] != bid[j]:
                w.eq("across blocks", C[i, j], w.real(0))
    for a, b in bl:
        f = _cls(w, "EwaCovariance")(**kw).fit(X[:, a:b])
        w.eq("block", C[a:b, a:b], zoo.floor(w, f.covariance_), tol=1e-6)
        w.eq("mean", m[a:b], f.location_)
    w.eq("n", e.n_samples_, T - 1 if diff else T)


@harness([dict(d=d, nb=nb, T=T, r=r) for d, nb in _SHAPES for T, r in ((3, 0.5), (8, 0.5), (22, None))
          if T < 10 or d <= 2], la="exact", la_n=1, canon=True, paths=4, timeout=60, vtol=1e-2)
def equals_schur_without_coupling(w, d, nb, T, r):
    """The block-diagonal estimator is the Schur estimator with gamma = 0, block by block."""
    X = zoo.rows(w, "x", T, d)
    kw = {} if r is None else {"r": w.real(r)}
    e = _cls(w, "BlockCovariance")(n_blocks=nb, **kw).fit(X)
    s = _cls(w, "SchurCovariance")(n_blocks=nb, gamma=w.real(0), **kw).fit(X)
    w.eq("mean", e.location_, s.location_)
    C, S, bl = e.covariance_, s.covariance_, zoo.blocks(d, nb)
    if not w.symbolic:
        w.eq("covariance", C, S, tol=1e-5, atol=2e-8)
    if len(bl) == 1:
        w.eq("covariance", C, S)
    for a, b in bl:
        if b - a == 1:
            w.le("variance", w.frac(1, 10 ** 8), C[a, a])


@harness([dict(d=d, nb=nb, T=T) for d, nb in _SHAPES for T in (2, 7)], la="uf", canon=True, paths=4, abnormal=0,
         timeout=60, vtol=1e-2)
def blockwise_precision(w, d, nb, T):
    """The precision is zero across blocks and inverts each block on its own."""
    X = zoo.rows(w, "x", T, d)
    e = _cls(w, "BlockCovariance")(n_blocks=nb, r=w.real(0.5)).fit(X)
    C, P = e.covariance_, e.precision_
    bl, bid = zoo.blocks(d, nb), zoo.block_of(d, nb)
    w.eq("shape", list(P.shape), [d, d])
    for i in range(d):
        for j in range(d):
            if bid[i] != bid[j]:
                w.eq("across blocks", P[i, j], w.real(0))
    for a, b in bl:
        w.eq("inverse", P[a:b, a:b], w.np.linalg.inv(C[a:b, a:b]), tol=1e-3)


@harness([dict(d=d, nb=nb) for d, nb in _SHAPES], la="uf", canon=True, feas=True, paths=4, timeout=60, havoc=True,
         validate=False)
def one_more_observation(w, d, nb):
    """From any state, one observation moves each block as an EWA of its columns would move."""
    r = w.real(0.5)
    e = zoo.havoc(w, _cls(w, "BlockCovariance"), {"n_blocks": nb, "r": r}, d, lo=1)
    st = e.get_state()
    x = w.arr("x", d)
    bl = zoo.blocks(d, nb)
    if "block_covs" not in st or [tuple(s) for s in st["slices"]] != bl:
        return
    subs = []
    for (a, b), m, c in zip(bl, st["block_means"], st["block_covs"]):
        f = _cls(w, "EwaCovariance")(r=r).partial_fit(w.np.zeros((2, b - a)))
        t = f.get_state()
        t.update(n_samples=st["n_samples"], mean=m, cov=c)
        subs.append(f.set_state(t).partial_fit(x[a:b]))
    e.partial_fit(x)
    C = e.covariance_
    for (a, b), f in zip(bl, subs):
        w.eq("block", C[a:b, a:b], zoo.floor(w, f.covariance_), tol=1e-6)
        w.eq("mean", e.location_[a:b], f.location_)


@harness([dict(power=k, nb=nb, T=T) for k in (-10, 0, 17) for nb, T in ((1, 3), (1, 7), (2, 4))], la="exact", la_n=2,
         canon=True, feas=True, fork_minmax=True, paths=8, timeout=60)
def the_floor_has_no_units(w, power, nb, T):
    """A block in which two variables are the same is singular; it is floored by next to nothing however large the
    units, and its variances stay what they were.  A fixed history, then any observation."""
    k = w.real(2.0 ** power)
    v = [w.real(t) * k for t in (3, -1, 2, 5, -2, 0.5, 4)][:T - 1] + [w.var("x", lo=-8, hi=8) * k]
    X = w.array([[a, a] + ([a * a / k, a * a / k] if nb == 2 else []) for a in v])
    e = _cls(w, "BlockCovariance")(r=w.real(0.5), n_blocks=nb).fit(X)
    s = _cls(w, "EwaCovariance")(r=w.real(0.5)).fit(X)
    C, S = e.covariance_, s.covariance_
    tiny = w.frac(1, 10 ** 4)
    w.assume(S[0, 0] >= w.frac(1, 10 ** 6))
    w.le("gap", C[0, 0] - C[0, 1], tiny)
    w.le("variance above", C[0, 0] - S[0, 0], tiny)
    w.le("variance below", S[0, 0] - C[0, 0], tiny)
