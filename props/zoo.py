"""Shared construction of estimator configurations for the harnesses (both worlds)."""
import inspect

ALL = ["EmpiricalCovariance", "DiagonalCovariance", "BlockCovariance", "EwaCovariance",
       "AdaptiveEwaCovariance", "LedoitWolfCovariance", "OASCovariance", "ShrunkCovariance",
       "SchurCovariance", "SchurConditionalCovariance", "SchurLedoitWolfCovariance",
       "PartialMomentsCovariance", "HuberCovariance", "TylerCovariance", "GeodesicEwaCovariance",
       "DCCCovariance", "FactorCovariance"]


def names(env):
    """Every registered estimator (also ones added after this file was written)."""
    return list(env.estimators) or ALL


def params_of(cls):
    return [p for p in inspect.signature(cls.__init__).parameters if p != "self"]


def kwargs(w, name, tag="", sym=True, r=None, nb=2, k=1, **over):
    """Constructor arguments: rates, intensities and cutoffs symbolic over their documented ranges."""
    cls = w.mod("precise.registry").estimator_from_name(name)
    out = {}
    for p in params_of(cls):
        if p in over:
            out[p] = over[p]
        elif p == "r":
            if r == "sym":
                out[p] = w.var("r" + tag, lo=0.2, hi=1)
            else:
                out[p] = w.real(r if r is not None else 0.5)
        elif p == "vol_r":
            out[p] = w.var("vol_r" + tag, lo=0.2, hi=1) if r == "sym" else None
        elif p == "gamma":
            out[p] = w.var("gamma" + tag, lo=0, hi=1) if sym else w.real(0.5)
        elif p == "delta":
            out[p] = w.var("delta" + tag, lo=0, hi=1) if sym else w.real(0.25)
        elif p == "c":
            out[p] = w.var("c" + tag, lo=0.1, hi=4) if sym else w.real(1.5)
        elif p == "max_r":
            out[p] = w.var("max_r" + tag, lo=0.5, hi=1) if sym else w.real(0.75)
        elif p == "n_blocks":
            out[p] = nb
        elif p == "k":
            out[p] = k
    for p, v in over.items():
        if p in params_of(cls):
            out[p] = v
    return out


def make(w, name, tag="", **kw):
    cls = w.mod("precise.registry").estimator_from_name(name)
    return cls(**kwargs(w, name, tag, **kw))


def rows(w, name, n, d, **kw):
    return w.arr(name, n, d, **kw)


def observe(est):
    """Everything a user can read from an estimator."""
    return [est.covariance_, est.location_, est.n_samples_]


def same(w, label, a, b, **tol):
    w.eq(label + ".covariance_", a.covariance_, b.covariance_, **tol)
    w.eq(label + ".location_", a.location_, b.location_, **tol)
    w.eq(label + ".n_samples_", a.n_samples_, b.n_samples_)
    w.eq(label + ".n_features_in_", a.n_features_in_, b.n_features_in_)


WIDE = [[3, -1, 0.5, 2, -1, 1], [0.5, 2, -1, 1, 3, -2], [-2, 0.25, 3, -1, 0.5, 1.5], [1, -3, 1.5, 0.25, -2, -1],
        [0.25, 1.5, -2, -3, 1, 2.5], [4, 1, 1, 0.5, 2, -0.5], [-1, -2.5, 0.5, 1.5, -0.75, 3], [2, 0.5, -0.25, -2, 1, -3],
        [-0.5, 1, 2, 3, -1.5, 0.25]]


def wide(w, d, free):
    """A fixed history of up to six variables, then one observation with an arbitrary value in one coordinate."""
    H = [[w.real(v) for v in row[:d]] for row in WIDE]
    H.append([w.var("x") if j == free else w.real((-1) ** j * (j + 1)) for j in range(d)])
    return [w.array(row) for row in H]


def broad(w, d, rows, free, name="x"):
    """A fixed history of any number of variables, then one observation with an arbitrary value in one coordinate."""
    H = [[w.real((((7 * i + 3) * (5 * j + 2) + i * i + 3 * j * i * i) % 17 - 8) / 4) for j in range(d)] for i in range(rows)]
    H.append([w.var(name) if j == free else w.real((-1) ** j * ((j * 5) % 7 + 1) / 2) for j in range(d)])
    return [w.array(row) for row in H]


def quad_inv(w, S, v):
    """v^T S^-1 v by elimination (meant for concrete S)."""
    n = len(v)
    A = [[S[i, j] for j in range(n)] + [v[i]] for i in range(n)]
    out = w.real(0)
    for i in range(n):
        out = out + A[i][n] * A[i][n] / A[i][i]
        for k in range(i + 1, n):
            f = A[k][i] / A[i][i]
            A[k] = [a - f * b for a, b in zip(A[k], A[i])]
    return out


# --------------------------------------------------------------------------- arbitrary reachable states
KEEP = {"n_dim", "n_burn", "k", "slices", "r", "vol_r", "max_r", "prev_x"}
PSD = {"cov", "Q", "C"}
NONNEG = {"var", "h", "pi_bar", "pi_cross", "sbar"}


FACTOR = {}


def _psd(w, name, n, pd=False):
    """An arbitrary positive semi-definite matrix L D L^T (L unit lower triangular, D >= 0)."""
    L = [[w.real(1) if i == j else w.var(f"{name}L_{i}_{j}") if j < i else w.real(0)
          for j in range(n)] for i in range(n)]
    D = [w.var(f"{name}D_{i}", lo=0, strict=pd) for i in range(n)]
    FACTOR[id(w)] = L
    return [[sum((L[i][k] * D[k] * L[j][k] for k in range(min(i, j) + 1)), w.real(0)) for j in range(n)]
            for i in range(n)]


def next_row(w, e, d, name="x"):
    """An arbitrary observation, written as the current mean plus L v so that the solver's polynomials stay
    small (L is invertible: every observation is of this form)."""
    if not w.symbolic:
        return w.arr(name, d)
    v = w.arr(name, d)
    L = FACTOR.get(id(w))
    if L is None or len(L) != d:
        return v
    m = e.location_
    return [m[i] + sum((L[i][k] * v[k] for k in range(i + 1)), w.real(0)) for i in range(d)]


def _symm(w, name, n):
    a = w.symm(name, n)
    return [[a[i, j] for j in range(n)] for i in range(n)]


def _free(w, v, name, lo):
    if isinstance(v, (list, tuple)):
        return [_free(w, x, f"{name}_{i}", lo) for i, x in enumerate(v)]
    return w.var(name, lo=lo)


def arbitrary_state(w, template, n, tag="", psd=True, pd=False):
    """An arbitrary value of the estimator's checkpoint: every number a fresh symbol, subject to the
    invariants named above (covariances symmetric positive semi-definite, variances >= 0)."""
    out = {}
    for k, v in template.items():
        if k == "n_samples":
            out[k] = n
        elif k in KEEP or isinstance(v, (str, type(None))):
            out[k] = v
        elif k in PSD:
            out[k] = _psd(w, f"s{tag}.{k}", len(v), pd) if psd else _symm(w, f"s{tag}.{k}", len(v))
        elif k == "block_covs":
            out[k] = [(_psd if psd else _symm)(w, f"s{tag}.{k}{i}", len(b)) for i, b in enumerate(v)]
        elif isinstance(v, (bool, int)):
            out[k] = v
        else:
            out[k] = _free(w, v, f"s{tag}.{k}", 0 if k in NONNEG else None)
    return out


def history(w, n, d):
    """A real history for the concrete world: random, correlated, not centred; sometimes quiet (in all variables or
    all but one), centred, or with one variable much larger than the rest, so that what follows stands out."""
    import numpy as np
    g = np.random.default_rng(w.rng.getrandbits(32))
    A = g.normal(size=(d, d)) + np.eye(d)
    scale, centre = np.full(d, np.exp(g.normal())), g.normal(size=d) * 2
    kind, i = g.integers(6), g.integers(d)
    if kind == 1:
        scale *= 0.05
    elif kind == 2:
        scale[i] *= 0.05
    elif kind == 3:
        scale *= 0.1
        scale[i] *= 30
    elif kind == 4:
        centre *= 0
    elif kind == 5:
        A, centre = np.eye(d), centre * 0.1
    return g.normal(size=(n, d)) @ A.T * scale + centre


def havoc(w, cls, kw, d, lo=5, hi=None, tag="", psd=True):
    """An estimator after an arbitrary history of n >= lo observations."""
    return twin(w, cls, kw, d, None, None, lo, hi, tag, psd)[0]


def twin(w, cls, kw, d, fx, fstate, lo=5, hi=None, tag="", psd=True, kwb=None, pd=False):
    """Two estimators after related arbitrary histories: the symbolic world starts both from an
    arbitrary checkpoint S and fstate(S); the concrete world feeds H and fx(H)."""
    n = w.var("n" + tag, lo=lo, hi=hi, integer=True)
    a = cls(**kw)
    b = cls(**(kwb or kw)) if fx is not None else None
    if w.symbolic:
        t = cls(**kw).partial_fit(w.arr("tpl" + tag, 2, d)).get_state()
        s = arbitrary_state(w, t, n, tag, psd, pd)
        a.set_state(s)
        if b is not None:
            b.set_state(fstate(s))
    else:
        for i in range(2):
            for j in range(d):
                w.var(f"tpl{tag}_{i}_{j}")
        if n > 3000:        # n observations of zero, as the documented checkpoint records them
            s = cls(**kw).partial_fit([[0.0] * d] * 300).get_state()
            w.assume(set(s) <= {"n_dim", "n_samples", "mean", "cov", "r", "n_burn"})
            s["n_samples"] = n
            a.set_state(s)
            if b is not None:
                b.set_state(fstate(s))
            return a, b
        H = history(w, n, d)
        a.partial_fit(H)
        if b is not None:
            b.partial_fit(fx(H))
    return a, b


# --------------------------------------------------------------------------- configurations
VARIANTS = {
    "BlockCovariance": ["n_blocks=1", "n_blocks=2", "n_blocks=3", "n_blocks=5"],
    "SchurCovariance": ["n_blocks=1", "n_blocks=2", "n_blocks=3", "n_blocks=2;interpolation=geodesic"],
    "SchurConditionalCovariance": ["n_blocks=1", "n_blocks=2", "n_blocks=3"],
    "SchurLedoitWolfCovariance": ["n_blocks=1", "n_blocks=2", "n_blocks=3"],
    "ShrunkCovariance": ["", "target=identity"],
    "FactorCovariance": ["k=1", "k=2", "k=4"],
    "DCCCovariance": ["", "vol_r=0.25"],
}


def variant(text):
    out = {}
    for part in filter(None, text.split(";")):
        k, v = part.split("=")
        out[k] = int(v) if v.lstrip("-").isdigit() else v
    return out


def configs(env, full=False):
    """(estimator, variant) pairs; full=False keeps one variant per estimator plus the structural ones."""
    out = []
    for n in names(env):
        vs = VARIANTS.get(n, [""])
        for v in vs if full else vs[:2]:
            out.append(dict(est=n, v=v))
    return out


def build(w, est, v="", tag="", r=0.5, diff=False, sym=True, **over):
    """(class, constructor arguments) of a configuration, rates etc. as requested."""
    cls = w.mod("precise.registry").estimator_from_name(est)
    var = variant(v)
    for k in ("vol_r", "gamma", "delta", "c", "max_r"):
        if k in var:
            var[k] = w.real(float(var[k]))
    kw = kwargs(w, est, tag, sym=sym, r=r, **{**var, **over})
    if diff:
        kw["diff"] = True
    if r is None and "r" in kw:
        kw.pop("r")
    return cls, kw


def feed(est, X, cuts=()):
    """partial_fit in chunks that end at the given positions."""
    prev = 0
    for c in list(cuts) + [len(X)]:
        if c > prev:
            est.partial_fit(X[prev:c])
        prev = c
    return est


def related(w, specs, d, lo=5, hi=None, tag="", psd=True, pd=False, fixed=None, exact_n=None):
    """Estimators (class, kwargs) that have seen the same arbitrary history of n observations: the symbolic world
    gives every checkpoint entry of the same name the same arbitrary value; the concrete world feeds them all the
    same rows.  `fixed` pins checkpoint entries whose value after such a history is known."""
    n = w.real(0) if False else (exact_n if exact_n is not None else w.var("n" + tag, lo=lo, hi=hi, integer=True))
    es = [cls(**kw) for cls, kw in specs]
    if w.symbolic:
        tpl = w.arr("tpl" + tag, 2, d)
        shared = {}
        for e, (cls, kw) in zip(es, specs):
            t = cls(**kw).partial_fit(tpl).get_state()
            st = arbitrary_state(w, {k: v for k, v in t.items() if k not in shared}, n, tag, psd, pd)
            for k, v in (fixed or {}).items():
                if k in st:
                    st[k] = v
            for k, v in st.items():
                if k not in KEEP and k != "n_samples" and not isinstance(v, (str, type(None))):
                    shared[k] = v
            e.set_state({k: (st[k] if k in st else shared[k]) for k in t})
    else:
        for i in range(2):
            for j in range(d):
                w.var(f"tpl{tag}_{i}_{j}")
        H = history(w, n, d)
        for e in es:
            e.partial_fit(H)
    return es


def floor(w, A, eps=1e-8):
    """Reference spectral floor: eigenvalues of the symmetric matrix A raised to at least eps."""
    np = w.np
    A = (A + A.T) / 2
    lam, V = np.linalg.eigh(A)
    F = (V * np.clip(lam, eps, None)) @ V.T
    return (F + F.T) / 2


def blocks(p, nb):
    """Contiguous blocks, the first ones one longer when p is not a multiple of nb."""
    nb = min(max(1, nb), p)
    q, m = divmod(p, nb)
    out, a = [], 0
    for i in range(nb):
        b = a + q + (1 if i < m else 0)
        out.append((a, b))
        a = b
    return out


def block_of(p, nb):
    return [i for i, (a, b) in enumerate(blocks(p, nb)) for _ in range(a, b)]


def geodesic(w, A, B, t):
    """Reference affine-invariant geodesic A^(1/2) (A^(-1/2) B A^(-1/2))^t A^(1/2)."""
    np = w.np
    A, B = floor(w, A), floor(w, B)
    lam, V = np.linalg.eigh(A)
    lam = np.clip(lam, w.frac(1, 10 ** 12), None)
    root, inv = (V * np.sqrt(lam)) @ V.T, (V * (1 / np.sqrt(lam))) @ V.T
    M = inv @ B @ inv
    mu, U = np.linalg.eigh((M + M.T) / 2)
    out = root @ ((U * np.clip(mu, w.real(0), None) ** t) @ U.T) @ root
    return (out + out.T) / 2


def burn(*rates):
    """Documented burn-in: clamp(ceil(1/r), 5, 250)."""
    import math
    return int(min(250, max(5, math.ceil(1 / min(rates)))))


# --------------------------------------------------------------------------- estimators with a past
def read_all(w, e, z=None):
    """Everything a user can ask of a fitted estimator."""
    out = [e.covariance_, e.location_, e.correlation_, e.precision_, e.get_precision(), e.n_samples_,
           e.n_features_in_, e.get_state(), e.get_params(), repr(e) if not w.symbolic else None]
    if z is not None:
        out += [e.mahalanobis(z), e.score(z)]
    return out


def other(w, T, d):
    """Some fixed correlated data without ties."""
    return w.array([[w.frac((7 * t * t + 3 * j * t + 5 * j + 2) % 11 + t % 2 * (j + 1), 3) for j in range(d)] for t in range(T)])


def long_rows(w, name, N, d, at=None):
    """N rows: the first, the middle and the last one arbitrary, the others small fixed numbers without a pattern."""
    at = (0, N // 2, N - 1) if at is None else at
    free = {t: w.arr(f"{name}{k}", d) for k, t in enumerate(at)}
    return w.array([[free[t][j] if t in free else w.real((7 * t * t + 3 * j * t + 5 * j + t % 13) % 17 - 8) for j in range(d)]
                    for t in range(N)])


def worn(w, cls, kw, X, z=None):
    """An estimator that was fitted on other data of the same shape and asked for everything, then refitted on X."""
    e = cls(**kw).fit(other(w, *X.shape))
    read_all(w, e, z)
    return e.fit(X)


def watched(w, cls, kw, X, z=None):
    """An estimator fed row by row and asked for everything after each row."""
    e = cls(**kw)
    for t in range(len(X)):
        e.partial_fit(X[t])
        read_all(w, e, z)
    return e


def restored(w, cls, kw, X, z=None):
    """A used estimator given the checkpoint of one fitted on X."""
    e = cls(**kw).fit(other(w, *X.shape))
    read_all(w, e, z)
    return e.set_state(w.json(cls(**kw).fit(X).get_state()))


PASTS = {"worn": worn, "watched": watched, "restored": restored}


class Stub(__import__("types").ModuleType):
    """A module standing in for one that is not run; anything it was not given says so when it is used."""

    def __init__(self, name, **attrs):
        super().__init__(name)
        self.__dict__.update(attrs)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def missing(*a, **k):
            raise AttributeError(f"stand-in without {name}", name="_" + name.lstrip("_"))
        return missing
