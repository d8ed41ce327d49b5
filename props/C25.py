"""Bounds: every positive-definite covariance of size 1-3 (block sizes and coupling: up to 4, with blocks inverted
opaquely), every sample of 1-3 rows, every gamma in [0,1]; the published formulas are written here from determinants and
adjugates, independently of any numerical library."""
from vx.api import harness
from props import zoo


def _judge(w, name, **k):
    return getattr(w.mod("precise.assessment"), name)(**k)


def _det(A):
    n = len(A)
    if n == 1:
        return A[0][0]
    return sum((A[0][j] * _det([r[:j] + r[j + 1:] for r in A[1:]]) * (-1) ** j for j in range(1, n)),
               A[0][0] * _det([r[1:] for r in A[1:]]))


def _inv(A):
    n, D = len(A), _det(A)
    if n == 1:
        return [[1 / D]]

    def minor(i, j):
        return [r[:j] + r[j + 1:] for k, r in enumerate(A) if k != i]
    return [[(_det(minor(j, i)) if (i + j) % 2 == 0 else -_det(minor(j, i))) / D for j in range(n)] for i in range(n)]


def _quad(P, x):
    n = len(P)
    return sum((P[i][j] * x[i] * x[j] for i in range(n) for j in range(n)), 0 * x[0])


def _gauss(w, A, X):
    """Mean log-density of the rows of X under N(0, A)."""
    n, p, P = len(X), len(A), _inv(A)
    q = sum((_quad(P, x) for x in X), w.real(0)) / n
    return -(w.np.log(_det(A)) + q + p * w.np.log(2 * w.np.pi)) / 2


def _pick(A, ix):
    return [[A[i][j] for j in ix] for i in ix]


def _data(w, n, p, name="x"):
    X = zoo.rows(w, name, n, p) if n <= 6 else zoo.long_rows(w, name, n, p)
    return X, [[X[t, i] for i in range(p)] for t in range(n)]


def _cov(w, p, kind="full"):
    """An arbitrary positive-definite matrix."""
    if kind == "diagonal":
        return [[w.var(f"v{i}", lo=0, strict=True) if i == j else w.real(0) for j in range(p)] for i in range(p)]
    return zoo._psd(w, "S", p, pd=True)


def _eq(w, label, got, ref):
    w.eq(label, got, ref, tol=1e-6)
    w.record(label, [got])


SIZES = [dict(p=p, n=n, kind=k) for p in (1, 2, 3) for n in (1, 2, 3) for k in ("full", "diagonal")
         if not (p == 1 and k == "diagonal") and not (p == 3 and k == "full")]
OPTS = dict(la="exact", la_n=3, paths=12, timeout=90, vtol=1e-3, abnormal=0)


@harness(SIZES, **OPTS)
def likelihood(w, p, n, kind):
    """The mean Gaussian log-density."""
    A, (X, xs) = _cov(w, p, kind), _data(w, n, p)
    _eq(w, "score", _judge(w, "LogLikelihood").score(w.array(A), X_test=X), _gauss(w, A, xs))
    _eq(w, "from lists", _judge(w, "LogLikelihood").score(A, X_test=X, true_cov=None), _gauss(w, A, xs))


@harness([dict(p=p, n=n) for p in (3, 4, 6) for n in (1, 2, 4)] + [dict(p=2, n=n) for n in (33, 70, 260, 1030)] + [dict(p=9, n=12), dict(p=12, n=40)], la="uf", paths=6, timeout=60, abnormal=0)
def larger_estimates(w, p, n):
    """Likelihood and portfolio variance in terms of the inverse and the determinant, whatever those are."""
    A, (X, xs) = _cov(w, p), _data(w, n, p)
    B = w.array(A)
    P, ld = w.np.linalg.inv(B), w.np.linalg.slogdet(B)[1]
    q = sum((_quad(P, x) for x in xs), w.real(0)) / n
    _eq(w, "likelihood", _judge(w, "LogLikelihood").score(B, X_test=X), -(ld + q + p * w.np.log(2 * w.np.pi)) / 2)
    w1 = [sum((P[i, j] for j in range(p)), w.real(0)) for i in range(p)]
    tot = sum(w1, w.real(0))
    ref = sum((sum((x[i] * (w1[i] / tot) for i in range(p)), w.real(0)) ** 2 for x in xs), w.real(0)) / n
    _eq(w, "portfolio", _judge(w, "GMVVariance").score(B, X_test=X), -ref)


@harness([dict(p=p, n=n) for p, n in ((2, 3), (2, 4), (3, 5), (4, 6), (2, 33), (2, 70), (2, 260), (6, 40))], la="uf", paths=6, timeout=60, abnormal=0)
def larger_stein(w, p, n):
    """Stein's loss in terms of the inverse and the determinant, whatever those are."""
    A, (X, xs) = _cov(w, p), _data(w, n, p)
    m = [sum((x[i] for x in xs), w.real(0)) / n for i in range(p)]
    S = w.array([[sum(((x[i] - m[i]) * (x[j] - m[j]) for x in xs), w.real(0)) / n for j in range(p)] for i in range(p)])
    M = w.np.linalg.inv(w.array(A)) @ S
    tr = sum((M[i, i] for i in range(p)), w.real(0))
    _eq(w, "score", _judge(w, "SteinLoss").score(w.array(A), X_test=X), -(tr - w.np.linalg.slogdet(M)[1] - p))


@harness([dict(p=p, n=n, b=b) for p in (1, 2, 3) for n in (1, 2) for b in (1, 2, 3, 10) if not (p == 3 and b > 2)],
         **OPTS)
def block_likelihood(w, p, n, b):
    """The sum of the likelihoods of consecutive blocks of the given size, the last one possibly smaller."""
    A, (X, xs) = _cov(w, p), _data(w, n, p)
    ref = w.real(0)
    for s in range(0, p, b):
        ix = list(range(s, min(s + b, p)))
        ref = ref + _gauss(w, _pick(A, ix), [[x[i] for i in ix] for x in xs])
    _eq(w, "score", _judge(w, "BlockPseudoLikelihood", block_size=b).score(w.array(A), X_test=X), ref)


@harness([dict(p=p, b=b) for p, b in ((4, 1), (4, 2), (4, 3), (5, 2), (7, 3), (11, None), (12, 5), (21, None), (40, 16))], la="uf", paths=6,
         timeout=60, abnormal=0, validate=False)
def blocks_of_large_matrices(w, p, b):
    """Which variables share a block, for larger matrices; ten by default."""
    A, (X, _) = w.symm("S", p), _data(w, 2, p)
    size = 10 if b is None else b
    J = _judge(w, "BlockPseudoLikelihood") if b is None else _judge(w, "BlockPseudoLikelihood", block_size=b)
    full, ref = _judge(w, "LogLikelihood"), w.real(0)
    for s in range(0, p, size):
        ix = list(range(s, min(s + size, p)))
        ref = ref + full.score(w.array([[A[i, j] for j in ix] for i in ix]), X_test=w.array([[X[t, i] for i in ix]
                                                                                           for t in range(2)]))
    _eq(w, "score", J.score(w.array(A), X_test=X), ref)


def _split(p, nb):
    """Contiguous blocks as even as possible, larger ones first; never more blocks than variables."""
    nb = min(nb, p)
    out, s = [], 0
    for b in range(nb):
        m = p // nb + (1 if b < p % nb else 0)
        out.append(list(range(s, s + m)))
        s += m
    return out


def _coupled(w, A, p, nb, g):
    where = {i: b for b, ix in enumerate(_split(p, nb)) for i in ix}
    return w.array([[A[i][j] * (1 if where[i] == where[j] else g) for j in range(p)] for i in range(p)])


@harness([dict(p=p, nb=nb) for p in (1, 2, 3, 4, 5, 6) for nb in (None, 1, 2, 3, 4, 7)] + [dict(p=11, nb=4)], la="uf",
         paths=6, timeout=60, abnormal=0)
def schur_likelihood(w, p, nb):
    """The likelihood of the estimate with the coupling between blocks multiplied by gamma, after the documented floor
    on its eigenvalues.  Four blocks and one half by default."""
    floor = getattr(w.mod("precise._linalg"), "make_pos_def", None)
    if floor is None:
        return
    A, (X, _) = zoo._psd(w, "S", p, pd=True), _data(w, 2, p)
    g = w.real(0.5) if nb is None else w.var("gamma", lo=0, hi=1)
    J = _judge(w, "SchurLikelihood") if nb is None else _judge(w, "SchurLikelihood", gamma=g, n_blocks=nb)
    full = _judge(w, "LogLikelihood")
    B = w.array(A)
    _eq(w, "score", J.score(B, X_test=X), full.score(floor(_coupled(w, A, p, nb or 4, g)), X_test=X))
    w.eq("the estimate is left alone", B, w.array(A))


@harness([dict(p=p, nb=nb) for p in (2, 3, 4, 5) for nb in (1, 2, 3)], la="uf", paths=6, timeout=60, abnormal=0)
def schur_limits(w, p, nb):
    """Uncoupled it is the sum of the blocks' likelihoods, fully coupled or in one block the likelihood (the floor on the
    eigenvalues, which leaves a positive-definite matrix alone, is checked on its own)."""
    asm = w.mod("precise.assessment.assessors")
    if not hasattr(asm, "make_pos_def"):
        return
    A, (X, _) = zoo._psd(w, "S", p, pd=True), _data(w, 2, p)
    full, B = _judge(w, "LogLikelihood"), w.array(A)
    keep, asm.make_pos_def = asm.make_pos_def, lambda a, *k, **kw: w.array(a)
    try:
        for name in ("linear", "geodesic"):
            if name == "geodesic" and nb > 1:
                continue
            g = w.real(1) if nb > 1 else w.var("gamma" + name, lo=0, hi=1)
            if name == "linear":
                _eq(w, "coupled " + name, _judge(w, "SchurLikelihood", gamma=g, n_blocks=nb, interpolation=name).score(
                    B, X_test=X), full.score(B, X_test=X))
        ref = w.real(0)
        for ix in _split(p, nb):
            ref = ref + full.score(w.array(_pick(A, ix)), X_test=w.array([[X[t, i] for i in ix] for t in range(2)]))
        _eq(w, "uncoupled", _judge(w, "SchurLikelihood", gamma=w.real(0), n_blocks=nb).score(B, X_test=X), ref)
    finally:
        asm.make_pos_def = keep


@harness([dict(p=p, nb=nb) for p in (2, 3, 4, 5) for nb in (2, 3, 4)], la="uf", paths=6, timeout=60, abnormal=0)
def schur_geodesic(w, p, nb):
    """The geodesic form moves a fraction gamma along the geodesic from the block-diagonal part to the whole."""
    la = w.mod("precise._linalg")
    floor, step = getattr(la, "make_pos_def", None), getattr(la, "geodesic_step", None)
    if floor is None or step is None:
        return
    A, (X, _) = zoo._psd(w, "S", p, pd=True), _data(w, 2, p)
    g = w.var("gamma", lo=0, hi=1)
    B = w.array(A)
    J = _judge(w, "SchurLikelihood", gamma=g, n_blocks=nb, interpolation="geodesic")
    at = step(floor(_coupled(w, A, p, nb, w.real(0))), floor(w.array(A)), g)
    _eq(w, "score", J.score(B, X_test=X), _judge(w, "LogLikelihood").score(floor(at), X_test=X))
    w.eq("the estimate is left alone", B, w.array(A))


@harness(SIZES, **OPTS)
def frobenius(w, p, n, kind):
    """Minus the distance to the truth relative to the truth."""
    A, B = _cov(w, p, kind), w.symm("T", p)
    num = sum(((A[i][j] - B[i, j]) ** 2 for i in range(p) for j in range(p)), w.real(0))
    den = sum((B[i, j] ** 2 for i in range(p) for j in range(p)), w.real(0))
    w.assume(den > 0)
    got = _judge(w, "FrobeniusToTruth").score(w.array(A), true_cov=w.array(B))
    _eq(w, "score", got * w.np.sqrt(den), -w.np.sqrt(num))


@harness(SIZES, **OPTS)
def gmv(w, p, n, kind):
    """Minus the mean squared return of the fully invested minimum-variance portfolio of the estimate."""
    A, (X, xs) = _cov(w, p, kind), _data(w, n, p)
    P = _inv(A)
    w1 = [sum(r, w.real(0)) for r in P]
    tot = sum(w1, w.real(0))
    ref = sum((sum((w1[i] * x[i] for i in range(p)), w.real(0)) ** 2 for x in xs), w.real(0)) / n
    got = _judge(w, "GMVVariance").score(w.array(A), X_test=X)
    _eq(w, "score", got * tot ** 2, -ref)


@harness([dict(p=1, n=n, kind="full") for n in (2, 3)] + [dict(p=2, n=3, kind="diagonal")], **OPTS)
def stein(w, p, n, kind):
    """Minus (tr M - log det M - p), M the estimate's inverse times the sample covariance about the sample mean."""
    A, (X, xs) = _cov(w, p, kind), _data(w, n, p)
    m = [sum((x[i] for x in xs), w.real(0)) / n for i in range(p)]
    S = [[sum(((x[i] - m[i]) * (x[j] - m[j]) for x in xs), w.real(0)) / n for j in range(p)] for i in range(p)]
    w.assume(_det(S) > 0)
    P = _inv(A)
    tr = sum((P[i][j] * S[j][i] for i in range(p) for j in range(p)), w.real(0))
    ref = -(tr - w.np.log(_det(S) / _det(A)) - p)
    _eq(w, "score", _judge(w, "SteinLoss").score(w.array(A), X_test=X), ref)


@harness([dict(p=p, n=n, kind=k) for p in (1, 2, 3) for n in (1, 2, 3) for k in ("full", "diagonal")
          if (p, n, k) != (3, 3, "full")] + [dict(p=2, n=n, kind="diagonal") for n in (33, 130, 530)]
         + [dict(p=p, n=2, kind="diagonal") for p in (6, 11)], **OPTS)
def variogram(w, p, n, kind):
    """Minus the mean over samples of the squared gaps between absolute differences and their Gaussian expectations
    sqrt(2/pi var(difference)), over all ordered pairs."""
    A, (X, xs) = _cov(w, p, kind), _data(w, n, p)
    tot = w.real(0)
    for x in xs:
        for i in range(p):
            for j in range(p):
                if i != j:
                    v = A[i][i] + A[j][j] - A[i][j] - A[j][i]
                    v = (v if p < 4 else w.np.maximum(v, w.real(0))) * 2 / w.np.pi        # never negative
                    tot = tot + (abs(x[i] - x[j]) - w.np.sqrt(v)) ** 2
    _eq(w, "score", _judge(w, "VariogramScore").score(w.array(A), X_test=X), -tot / n)


@harness([dict(p=p, n=n, kind=k) for p in (2, 3) for n in (1, 2) for k in ("equal", "negative", "mixed")], **OPTS)
def variogram_of_flat_differences(w, p, n, kind):
    """A pair whose difference has no variance under the estimate (or a negative one, which counts as none) is expected
    not to differ at all; it is still scored."""
    a = w.var("a", lo=0, strict=True)
    X, xs = _data(w, n, p)
    c = a if kind != "negative" else 2 * a
    A = [[a if i == j else c for j in range(p)] for i in range(p)]
    if kind == "mixed":             # the first two variables move together, the last has its own variance
        A[p - 1][p - 1] = w.var("b", lo=0, strict=True)
        for i in range(p - 1):
            A[i][p - 1] = A[p - 1][i] = w.real(0)
    tot = w.real(0)
    for x in xs:
        for i in range(p):
            for j in range(p):
                v = A[i][i] + A[j][j] - 2 * A[i][j]
                v = w.np.maximum(v, w.real(0)) * 2 / w.np.pi
                tot = tot + (abs(x[i] - x[j]) - w.np.sqrt(v)) ** 2
    _eq(w, "score", _judge(w, "VariogramScore").score(w.array(A), X_test=X), -tot / n)


@harness([dict(lean=k) for k in (0.75, 0.9, 1.1, 1.45, 2.0, 3.0)], **OPTS)
def gmv_with_short_positions(w, lean):
    """However far the minimum-variance portfolio is levered."""
    a = w.var("a", lo=0, strict=True)
    X, xs = _data(w, 2, 2)
    k = w.real(lean)
    A = [[a, k * a], [k * a, (k * k + w.frac(1, 100)) * a]]
    P = _inv(A)
    w1 = [sum(r, w.real(0)) for r in P]
    tot = sum(w1, w.real(0))
    ref = sum((sum((w1[i] * x[i] for i in range(2)), w.real(0)) ** 2 for x in xs), w.real(0)) / 2
    _eq(w, "score", _judge(w, "GMVVariance").score(w.array(A), X_test=X), -ref / tot ** 2)


@harness([dict(name=n) for n in ("BlockPseudoLikelihood", "SchurLikelihood")], la="uf", paths=4, timeout=60)
def judges_describe_themselves(w, name):
    """A judge's representation is the call that makes it: it names the class and every parameter as given, before and after scoring."""
    import inspect
    cls = getattr(w.mod("precise.assessment"), name, None)
    w.assume(cls is not None)
    ps = [p for p in inspect.signature(cls.__init__).parameters if p != "self" and inspect.signature(cls.__init__).parameters[p].kind
          == inspect.Parameter.POSITIONAL_OR_KEYWORD]
    for k in range(2):
        kw = {p: {"block_size": (1, 7), "gamma": (0.125, 1.0), "n_blocks": (2, 9), "interpolation": ("linear", "geodesic")}[p][k] for p in ps
              if p in ("block_size", "gamma", "n_blocks", "interpolation")}
        j = cls(**kw)
        for phase in ("new", "used"):
            text = repr(j)
            w.check(f"{phase}: class", text.startswith(name + "("))
            for p, v in kw.items():
                w.check(f"{phase}: {p}", f"{p}={v!r}" in text)
                w.eq(f"{phase}: {p} kept", getattr(j, p), v)
            w.check(f"{phase}: name", isinstance(j.name(), str) if callable(j.name) else isinstance(j.name, str))
            if phase == "new":
                j.score(w.array([[w.real(2), w.real(1)], [w.real(1), w.real(2)]]), X_test=w.array([[w.real(1), w.real(0)], [w.real(3), w.real(-1)]]))
