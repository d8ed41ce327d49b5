"""Bounds: every registered estimator and variant, compositions and keyed adapters; streams of up to 12
observations at rate 1/2 and 23 at the default rate, dimension 1-6; everything reachable from the object counted."""
from vx.api import harness
from props import zoo
from props.C03 import COMPOSED, _composed


def size(obj, seen=None):
    """Scalars stored anywhere in an object (arrays, containers, attributes), each shared object once."""
    seen = set() if seen is None else seen
    if obj is None or isinstance(obj, (bool, int, float, str, type)) or callable(obj) and not hasattr(obj, "__dict__"):
        return 1
    if getattr(obj, "ndim", None) is not None and hasattr(obj, "size"):
        return int(obj.size) if obj.ndim else 1
    if id(obj) in seen:
        return 0
    seen.add(id(obj))
    if isinstance(obj, dict):
        return sum(1 + size(v, seen) for v in obj.values())
    if isinstance(obj, (list, tuple, set, frozenset)):
        return sum(size(v, seen) for v in obj)
    if type(obj).__module__.startswith("vx"):
        return 1
    if hasattr(obj, "__closure__"):
        return 1
    if hasattr(obj, "__dict__"):
        return sum(1 + size(v, seen) for v in vars(obj).values())
    if hasattr(obj, "__len__"):
        return len(obj)
    return 1


SLACK = 6        # flags or cached scalars; one number per observation would exceed it


def _jobs(env):
    js = []
    for c in zoo.configs(env, True):
        js += [dict(**c, d=2, T=12, rate=0.5, diff=False), dict(**c, d=3, T=9, rate=0.5, diff=True)]
        js += [dict(**c, d=2, T=23, rate=None, diff=False)]
        if env.thorough:
            js += [dict(**c, d=4, T=10, rate=0.5, diff=False)]
    return js


@harness(_jobs, la="uf", paths=3, timeout=60, validate=False)
def constant_state(w, est, v, d, T, rate, diff):
    """Nothing an estimator holds grows with the number of observations: no window, no history."""
    cls, kw = zoo.build(w, est, v, r=rate, diff=diff, sym=False)
    X = zoo.rows(w, "x", T, d)
    e = cls(**kw)
    first = None
    for t in range(T):
        e.partial_fit(X[t])
        e.partial_fit(X[t:t])
        if e.n_samples_ > 0:
            e.covariance_
            now = (size(e), size(e.get_state()))
            if first is None:
                first = now
            w.check(f"objects@{t}: {now[0]} vs {first[0]}", now[0] <= first[0] + SLACK)
            w.check(f"checkpoint@{t}: {now[1]} vs {first[1]}", now[1] <= first[1] + SLACK)
    c = cls(**kw)
    c.partial_fit(X)
    c.covariance_
    w.check("one batch", size(c) <= first[0] + SLACK)


@harness(lambda env: [dict(est=e, N=N) for e in zoo.names(env) for N in (130,)], la="uf", paths=2, timeout=60, validate=False,
         max_decisions=2000)
def constant_over_long_streams(w, est, N):
    """The same over a long stream whose first, middle and last observations are arbitrary."""
    cls, kw = zoo.build(w, est, r=0.25, sym=False)
    X = zoo.long_rows(w, "x", N, 2)
    e, first = cls(**kw), None
    for t in range(N):
        e.partial_fit(X[t])
        if t >= 6:
            e.location_
            now = (size(e), size(e.get_state()))
            first = first or now
            if max(now[0] - first[0], now[1] - first[1]) > SLACK or t == N - 1:
                w.check(f"objects@{t}: {now[0]} vs {first[0]}", now[0] <= first[0] + SLACK)
                w.check(f"checkpoint@{t}: {now[1]} vs {first[1]}", now[1] <= first[1] + SLACK)
                return


@harness([dict(which=c) for c in COMPOSED], la="uf", paths=3, timeout=60, validate=False)
def constant_composed_state(w, which):
    """The same for compositions of per-series and correlation models."""
    X = zoo.rows(w, "x", 8, 2)
    e, sizes = _composed(w, which)(), []
    for t in range(8):
        e.partial_fit(X[t])
        e.covariance_
        sizes.append(size(e))
    w.check(f"sizes {sizes}", max(sizes) <= sizes[1] + 4)


@harness([dict(dynamic=b, d=d) for b in (False, True) for d in (2, 3)], la="uf", paths=3, timeout=60, validate=False)
def constant_keyed_state(w, dynamic, d):
    """A keyed estimator over unchanging names holds a constant amount."""
    P = w.precise
    X = zoo.rows(w, "x", 8, d)
    e = P.keyed(P.EwaCovariance(r=w.real(0.5)), dynamic=dynamic)
    sizes = []
    for t in range(8):
        e.learn_one({f"k{j}": X[t, j] for j in range(d)})
        sizes.append(size(e))
    w.check(f"sizes {sizes}", max(sizes) <= sizes[0] + 4)


@harness([dict(d=d, nb=nb) for d, nb in ((4, 2), (6, 2), (6, 3), (6, 6), (5, 2), (3, 7))], la="uf", paths=2, timeout=60, abnormal=0,
         validate=False)
def block_state_is_small(w, d, nb):
    """The block-diagonal estimator stores only its blocks: fewer numbers than a d x d matrix."""
    X = zoo.rows(w, "x", 7, d)
    e = w.precise.BlockCovariance(r=w.real(0.5), n_blocks=nb).fit(X)
    k = min(nb, d)
    sizes = [d // k + (1 if i < d % k else 0) for i in range(k)]
    numbers = sum(b * b + b for b in sizes)
    w.le("stored numbers", size(e.get_state()), numbers + 12 * k + 20)
    s = e.get_state()
    w.check("largest stored matrix", _widest(s) <= max(sizes[0] ** 2, d, k * 2))
    w.check("largest live matrix", _widest(_held(e)) <= max(sizes[0] ** 2, d, k * 2))


def _held(e):
    e.covariance_, e.precision_, e.correlation_
    return {k: v for k, v in vars(e).items()}


def _widest(o):
    if isinstance(o, dict):
        return max([_widest(x) for x in o.values()] or [0])
    if getattr(o, "ndim", 0):
        return int(o.size)
    if isinstance(o, (list, tuple)):
        return max([_widest(x) for x in o] + [_flat(o)])
    return 1


def _flat(o):
    if isinstance(o, (list, tuple)) and o and isinstance(o[0], (list, tuple)) and \
            all(isinstance(r, (list, tuple)) and not any(isinstance(x, (list, tuple, dict)) for x in r) for r in o):
        return sum(len(r) for r in o)
    return len(o)


@harness([dict(d=d, k=k) for d, k in ((4, 1), (6, 1), (6, 2), (3, 5))], la="uf", paths=2, abnormal=0, timeout=60, validate=False)
def factor_state_is_small(w, d, k):
    """The factor estimator stores k directions and two vectors, never a d x d matrix."""
    X = zoo.rows(w, "x", 6, d)
    e = w.precise.FactorCovariance(k=k, r=w.real(0.5)).fit(X)
    kk = min(k, d)
    w.le("stored numbers", size(e.get_state()), kk * d + 2 * d + 14)
    w.check("largest stored array", _widest(e.get_state()) <= max(kk, 1) * d)
    w.check("largest live array", _widest(_held(e)) <= max(kk, 1) * d)
