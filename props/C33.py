"""Bounds: two trials, test sizes from one to three (in any listed order), two judges with arbitrary scores, dimension 2-4,
every draw of the generator, every pair of divergences; projections onto subspaces of dimension 1-2 of up to 3."""
from vx.api import harness
from props import zoo
from props.C25 import _det, _inv
from props.C32 import _Patched, _Rng

OPTS = dict(la="uf", paths=300, timeout=150, abnormal=0, vtol=1e-5)


def _m(w):
    return w.mod("research.metric_power")


class _Np:
    """The module's numpy with a generator whose every draw is arbitrary."""

    def __init__(self, np, rng):
        self._np, self._rng = np, rng
        self.random = self

    def default_rng(self, *a, **k):
        return self._rng

    def __getattr__(self, k):
        return getattr(self._np, k)


class _Draws(_Rng):
    """Arbitrary samples, ordinary fixed directions (only their being the same for both sides matters)."""

    def standard_normal(self, size):
        shape = size if isinstance(size, tuple) else (size,)
        self.n += 1
        n = 1
        for k in shape:
            n *= k
        return self.w.array([self.w.real((3 * i * i + 5 * i + self.n) % 7 + 1) for i in range(n)]).reshape(*shape)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self.standard_normal(size) * scale + loc

    def permutation(self, n):
        return self.w.np.array(list(range(n))[::-1])


class _Trials:
    """Stand-ins for the truth, the pair of estimates and their divergences from it, all arbitrary."""

    def __init__(self, w, p):
        self.w, self.p, self.truths, self.pairs, self.kl, self.seen = w, p, [], [], {}, []

    def eye(self, k):
        return self.w.array([[self.w.real(k if i == j else 0) for j in range(self.p)] for i in range(self.p)])

    def truth(self, p, *a, **k):
        self.truths.append(self.eye(10 * (len(self.truths) + 1)))
        return self.truths[-1]

    def perturb(self, cov, eps, rng):
        e = self.eye(100 + len(self.pairs))
        self.pairs.append((e, eps, cov))
        return e

    def which(self, cov):
        k = self.among(cov)
        if len(k) != 1:
            self.w.assume(False)        # the experiment works on something derived from the pair: not modelled
        return k[0]

    def among(self, cov):
        return [i for i, (e, _, _) in enumerate(self.pairs) if bool(e[0, 0] == cov[0, 0])]

    def divergence(self, true, est):
        if not self.among(est) and self.among(true):        # the other way round is another number altogether
            return self.w.var(f"reversed{self.which(true)}", lo=0, hi=5)
        i = self.which(est)
        if i not in self.kl:
            self.kl[i] = self.w.var(f"kl{i}", lo=0, hi=5)
        return self.kl[i]

    def judge(self, name):
        def score(cov, X, *rest):
            s = self.w.var(f"s{len(self.seen)}", lo=-9, hi=9)
            self.seen.append((name, self.which(cov), X, rest, s))
            return s
        return score


@harness([dict(grid=g, trials=t) for g in ("1", "2,1", "1,3") for t in (1, 2) if (g, t) != ("1,3", 2)], **OPTS)
def power_of_the_metrics(w, grid, trials):
    """Power by test size is the share of the counted trials in which the judge strictly prefers the estimate of lower divergence;
    both estimates meet the same first n rows of one sample of the truth; near-ties are not counted."""
    m, T, rng = _m(w), _Trials(w, 2), _Draws(w)
    ns = [int(k) for k in grid.split(",")]
    gap = w.var("gap", lo=0, hi=1)
    with _Patched(m, np=_Np(w.np, rng), _spd_factor=T.truth, _perturb=T.perturb, _kl=T.divergence,
                  METRICS={"one": T.judge("one"), "two": T.judge("two")}):
        kl = [w.var(f"kl{i}", lo=0, hi=5) for i in range(2 * trials)]
        T.kl = dict(enumerate(kl))
        counts = [bool(w.fork(abs(kl[2 * t] - kl[2 * t + 1]) >= gap)) for t in range(trials)]
        w.assume(any(counts))
        power, mean_gap, out = m.run(p=2, eps_good=w.real(0.1), eps_bad=w.real(0.3), n_grid=tuple(ns), trials=trials,
                                     n_dirs=1, min_gap=gap, seed=0)
    w.assume(len(T.pairs) > 0)          # else the experiment no longer goes through the functions stood in for
    w.assume(len(T.seen) > 0)
    w.eq("grid", list(out), ns)
    w.eq("judges", sorted(power), ["one", "two"])
    counted = [t for t in range(trials) if counts[t]]
    w.eq("one pair a trial", len(T.pairs), 2 * trials)
    w.eq("one sample a counted trial", len(rng.normal), len(counted))
    for t, (mean, cov) in zip(counted, rng.normal):
        w.eq("sample of the truth", cov, T.truths[t])
        w.eq("centred", list(mean), [0, 0])
    w.eq("mean gap", mean_gap, sum((abs(kl[2 * t] - kl[2 * t + 1]) for t in counted), w.real(0)) / len(counted))
    for name in ("one", "two"):
        for n in ns:
            right = w.real(0)
            for k, t in enumerate(counted):
                calls = [c for c in T.seen if c[0] == name and c[1] // 2 == t and len(c[2]) == n]
                w.eq("each estimate once", sorted(c[1] - 2 * t for c in calls), [0, 1])
                w.eq("same rows", calls[0][2], calls[1][2])
                w.eq("same directions", calls[0][3][0], calls[1][3][0])
                s = {c[1] - 2 * t: c[4] for c in calls}
                better = w.np.where(kl[2 * t] <= kl[2 * t + 1], s[0] > s[1], s[1] > s[0])
                right = right + w.np.where(better, w.real(1), w.real(0))
            w.eq(f"power {name} {n}", power[name][n] * len(counted), right)
    for t in counted:
        rows = sorted((c for c in T.seen if c[1] // 2 == t), key=lambda c: len(c[2]))
        for c in rows:
            w.eq("nested samples", c[2], rows[-1][2][:len(c[2])])


@harness([dict(k="1,None"), dict(k="2")], **OPTS)
def power_of_projections(w, k):
    """The same for projected likelihoods: both estimates meet the same sample and the same subspaces, of the dimension asked for and
    within the budget of directions."""
    m, T, rng = _m(w), _Trials(w, 3), _Draws(w)
    ks = [None if x == "None" else int(x) for x in k.split(",")]
    kl = [w.var(f"kl{i}", lo=0, hi=5) for i in range(2)]
    T.kl = dict(enumerate(kl))
    w.assume(abs(kl[0] - kl[1]) >= w.real(0.005))
    subs, made = [], []

    def subspaces(p, kk, n, r):
        made.append((p, kk, n))
        subs.append([("subspace", len(subs))] * n)
        return subs[-1]
    with _Patched(m, np=_Np(w.np, rng), _spd_factor=T.truth, _perturb=T.perturb, _kl=T.divergence, _random_subspaces=subspaces,
                  _kproj_loglik=T.judge("k")):
        power, gap = m.projection_power(p=3, k_list=tuple(ks), total_dirs=5, n_test=2, trials=1)
    w.assume(len(T.seen) > 0 and len(made) > 0)
    w.eq("mean gap", gap, abs(kl[0] - kl[1]))
    w.eq("keys", len(power), len(ks))
    w.eq("dimensions", made, [(3, 3 if x is None else x, max(1, 5 // (3 if x is None else x))) for x in ks])
    for i, x in enumerate(ks):
        a, b = T.seen[2 * i], T.seen[2 * i + 1]
        w.eq("each estimate once", sorted((a[1], b[1])), [0, 1])
        w.eq("same subspaces", (list(a[3][0]), list(b[3][0])), (subs[i], subs[i]))
        w.eq("same rows", a[2], b[2])
        s = {a[1]: a[4], b[1]: b[4]}
        better = w.np.where(kl[0] <= kl[1], s[0] > s[1], s[1] > s[0])
        w.eq("power", power[x], w.np.where(better, w.real(1), w.real(0)))


@harness([dict(k="1", trials=2), dict(k="2,None", trials=2)], **OPTS)
def power_counts_the_pairs_told_apart(w, k, trials):
    """Pairs whose divergences are too close are left out of the projected power altogether."""
    m, T = _m(w), _Trials(w, 3)
    ks = [None if x == "None" else int(x) for x in k.split(",")]
    kl = [w.var(f"kl{i}", lo=0, hi=5) for i in range(2 * trials)]
    T.kl = dict(enumerate(kl))
    gap = w.var("gap", lo=0, hi=1)
    counts = [bool(w.fork(abs(kl[2 * t] - kl[2 * t + 1]) >= gap)) for t in range(trials)]
    w.assume(any(counts))
    with _Patched(m, np=_Np(w.np, _Draws(w)), _spd_factor=T.truth, _perturb=T.perturb, _kl=T.divergence,
                  _random_subspaces=lambda p, kk, n, r: [None] * n, _kproj_loglik=T.judge("k")):
        power, mean_gap = m.projection_power(p=3, k_list=tuple(ks), total_dirs=5, n_test=2, trials=trials, min_gap=gap)
    counted = [t for t in range(trials) if counts[t]]
    w.assume(len(T.seen) == 2 * len(ks) * len(counted))
    w.eq("mean gap", mean_gap, sum((abs(kl[2 * t] - kl[2 * t + 1]) for t in counted), w.real(0)) / len(counted))
    for i, x in enumerate(ks):
        right = w.real(0)
        for j, t in enumerate(counted):
            calls = T.seen[2 * (j * len(ks) + i):][:2]
            w.eq("each estimate once", sorted(c[1] - 2 * t for c in calls), [0, 1])
            s = {c[1] - 2 * t: c[4] for c in calls}
            better = w.np.where(kl[2 * t] <= kl[2 * t + 1], s[0] > s[1], s[1] > s[0])
            right = right + w.np.where(better, w.real(1), w.real(0))
        w.eq("power", power[x] * len(counted), right)


@harness([dict(n=2, means="12"), dict(n=3, means="213"), dict(n=3, means="any")], **OPTS)
def report_orders_by_mean_power(w, n, means):
    """The summary lists the judges by mean power, the most powerful first."""
    m = _m(w)
    v = {f"judge{i}": {5: w.var(f"a{i}", lo=0, hi=1), 9: w.var(f"b{i}", lo=0, hi=1)} for i in range(n)}
    mean = {k: (x[5] + x[9]) / 2 for k, x in v.items()}
    ks = list(mean)
    for i in range(n):
        for j in range(i):
            w.assume(abs(mean[ks[i]] - mean[ks[j]]) > w.real(0.001))
    rank = sorted(ks, key=lambda k: sum(1 for j in ks if w.fork(mean[j] > mean[k])))
    text = _report(w, m, v, n)
    w.eq("order", [line.split()[0] for line in text.splitlines() if line.startswith("judge")], rank)


def _report(w, m, v, n):
    if not w.symbolic:
        return m.report(v, 0.1, [5, 9])
    from vx import core
    keep = core.Sym.__format__ if "__format__" in vars(core.Sym) else None
    core.Sym.__format__ = lambda s, spec: "?"
    try:
        return m.report(v, 0.1, [5, 9])
    finally:
        if keep is None:
            del core.Sym.__format__
        else:
            core.Sym.__format__ = keep


@harness([dict(p=p, k=k, n=n) for p, k, n in ((2, 1, 1), (2, 1, 2), (3, 1, 1), (3, 2, 1), (2, 2, 1), (3, 2, 3))], **OPTS)
def projected_likelihood(w, p, k, n):
    """The projected likelihood is the mean, over subspaces, of the Gaussian log-density (without its constant) of the projected
    sample under the projected covariance."""
    m = _m(w)
    A, X = zoo._psd(w, "A", p, pd=True), zoo.rows(w, "x", 2, p)
    W = [w.arr(f"w{j}", k, p) for j in range(n)]
    ref = w.real(0)
    for V in W:
        C = [[sum((V[a, i] * A[i][j] * V[b, j] for i in range(p) for j in range(p)), w.real(0)) for b in range(k)] for a in range(k)]
        w.assume(_det(C) > w.real(0.01))
        P = w.np.linalg.inv(w.array(C))
        ld = w.np.linalg.slogdet(P)[1]
        for t in range(2):
            z = [sum((X[t, i] * V[a, i] for i in range(p)), w.real(0)) for a in range(k)]
            q = sum((z[a] * P[a, b] * z[b] for a in range(k) for b in range(k)), w.real(0))
            ref = ref + (ld - q) / 2 / (2 * n)
    w.eq("score", m._kproj_loglik(w.array(A), X, W), ref, tol=1e-6)


@harness([dict(p=p, g=g, b=b) for p, b in ((2, "01"), (3, "001"), (3, "010"), (4, "0011")) for g in ("any", "1")], **OPTS)
def damped_likelihood(w, p, g, b):
    """The damped likelihood multiplies the entries between blocks by gamma and keeps the others; with gamma one it is the likelihood (of
    the estimate with its spectrum floored).  The estimate is left alone."""
    m = _m(w)
    A, X = w.array(zoo._psd(w, "A", p, pd=True)), zoo.rows(w, "x", 2, p)
    gamma = w.real(1) if g == "1" else w.var("gamma", lo=0, hi=1)
    ids = [int(c) for c in b]
    A0 = A.copy()
    got = m._schur_loglik(A, X, w.np.array(ids), gamma)
    w.eq("estimate", A, A0)
    B = w.array([[A0[i, j] * (1 if ids[i] == ids[j] else gamma) for j in range(p)] for i in range(p)])
    w.eq("score", got, m._loglik(m._project_pd(B), X), tol=1e-6)


@harness([dict(p=p, b=b) for p, b in ((2, 1), (2, 2), (3, 1), (3, 2), (3, 5), (5, 2))], **OPTS)
def composite_likelihood(w, p, b):
    """The block composite likelihood is the sum over consecutive blocks of the Gaussian log-density of each block alone."""
    m = _m(w)
    A, X = zoo._psd(w, "A", p, pd=True), zoo.rows(w, "x", 2, p)
    ref = w.real(0)
    for s in range(0, p, b):
        ix = list(range(s, min(s + b, p)))
        C = w.array([[A[i][j] for j in ix] for i in ix])
        ref = ref + m.block_pseudo_loglik(C, w.array([[X[t, i] for i in ix] for t in range(2)]), len(ix))
        if s == 0 and b >= p:
            F = m._project_pd(C)
            ref = m._loglik(F, X) - w.num(p) * w.np.log(2 * w.np.pi) / 2
    w.eq("score", m.block_pseudo_loglik(w.array(A), X, b), ref, tol=1e-6)


@harness([dict(p=p) for p in (1, 2)], **{**OPTS, "la": "exact", "la_n": 2, "eig": "closed"})
def floored_spectrum(w, p):
    """Projection floors the spectrum at a thousandth of the largest eigenvalue: the result is symmetric, it leaves a well-conditioned
    matrix alone and raises no eigenvalue above the largest."""
    m = _m(w)
    A = zoo._psd(w, "A", p, pd=True)
    M = w.array(A)
    F = m._project_pd(M)
    for i in range(p):
        for j in range(i):
            w.eq("symmetric", F[i, j], F[j, i], tol=1e-7)
    if p == 1:
        w.eq("itself", F, M, tol=1e-7)
    w.eq("left alone", M, w.array(A))


@harness([dict(p=2, g=2, gammas="1,0"), dict(p=4, g=2, gammas="0.5")], **OPTS)
def power_of_damped_judges(w, p, g, gammas):
    """Damped likelihoods are asked for the estimate with the more accurate correlation within groups and for the other one, on the same
    sample; power is the share of trials that prefer the former."""
    m, rng = _m(w), _Draws(w)
    gs = [w.real(float(x)) for x in gammas.split(",")]
    seen = []

    def judge(kind):
        def score(cov, X, *rest):
            s = w.var(f"s{len(seen)}", lo=-9, hi=9)
            seen.append((kind, cov, X, rest, s))
            return s
        return score
    with _Patched(m, np=_Np(w.np, rng), _project_pd=lambda c, *a: c, _loglik=judge("full"), _schur_loglik=judge("damped")):
        power = m.schur_power(p=p, g=g, rho=w.real(0.6), err_good=w.real(0.05), err_bad=w.real(0.2), sig_cross=w.real(0.18),
                              gammas=tuple(gs), n_test=2, trials=1)
    w.assume(len(seen) > 0)
    w.eq("calls", len(seen), 2 * (1 + len(gs)))
    keys = list(power)
    w.eq("keys", len(keys), 1 + len(gs))
    for i, k in enumerate(keys):
        a, b = seen[2 * i], seen[2 * i + 1]
        w.eq("same rows", a[2], b[2])
        w.eq("one pair", a[1], seen[0][1])
        w.eq("one pair", b[1], seen[1][1])
        if i:
            w.eq("its gamma", a[3][1], gs[i - 1])
            w.eq("its gamma", b[3][1], gs[i - 1])
            w.eq("blocks", [int(v) for v in a[3][0]], [j // (p // g) for j in range(p)])
        w.eq("power", power[k], w.np.where(a[4] > b[4], w.real(1), w.real(0)))
    if p > g:
        within = [(i, j) for i in range(p) for j in range(p) if i != j and i // (p // g) == j // (p // g)]
        for i, j in within:
            w.eq("the better one is nearer", abs(seen[0][1][i, j] - w.real(0.6)), w.real(0.05), tol=1e-9)
            w.eq("the worse one is farther", abs(seen[1][1][i, j] - w.real(0.6)), w.real(0.2), tol=1e-9)


@harness([dict(p=2, b="1,None"), dict(p=3, b="2")], **OPTS)
def power_of_composite_judges(w, p, b):
    """Composite likelihoods, clean regime: the estimate of lower divergence is the better one, every judge meets the same sample, and power
    is the share of trials in which it is strictly preferred."""
    m, T, rng = _m(w), _Trials(w, p), _Draws(w)
    kl = [w.var(f"kl{i}", lo=0, hi=5) for i in range(2)]
    T.kl = dict(enumerate(kl))
    bs = [None if x == "None" else int(x) for x in b.split(",")]
    with _Patched(m, np=_Np(w.np, rng), _spd_factor=T.truth, _perturb=T.perturb, _kl=T.divergence, _frobenius=T.judge("frobenius"),
                  _loglik=T.judge("full_loglik"), block_pseudo_loglik=T.judge("pll")):
        power = m.pseudo_likelihood_power(regime="clean", block_sizes=tuple(bs), p=p, bulk=1, n_test=2, trials=1)
    w.assume(len(T.seen) == 2 * (2 + len(bs)))
    names = ["frobenius", "full_loglik"] + [f"pll_b{p if x is None else x}" for x in bs]
    w.eq("judges", sorted(power), sorted(names))
    for i, name in enumerate(names):
        a, c = T.seen[2 * i], T.seen[2 * i + 1]
        w.eq("each estimate once", sorted((a[1], c[1])), [0, 1])
        w.eq("same rows", a[2], c[2])
        if i > 1:
            w.eq("block size", (a[3][0], c[3][0]), (int(name[5:]),) * 2)
        s = {a[1]: a[4], c[1]: c[4]}
        better = w.np.where(kl[0] <= kl[1], s[0] > s[1], s[1] > s[0])
        w.eq("power " + name, power[name], w.np.where(better, w.real(1), w.real(0)))


class _Linalg:
    """numpy.linalg whose orthogonal factor is the identity (any orthogonal frame is as good as another)."""

    def __init__(self, w):
        self._w = w

    def qr(self, a, *k, **kw):
        return self._w.np.eye(len(a)), a

    def __getattr__(self, k):
        return getattr(self._w.np.linalg, k)


class _Errors(_Rng):
    """Arbitrary relative errors of the informative directions, fixed ones elsewhere."""

    def __init__(self, w):
        super().__init__(w)
        del self.__dict__["normal"]
        self.normal_of = []

    def multivariate_normal(self, mean, cov, size=None):
        self.normal_of.append((mean, cov))
        return self.w.arr(self._next(), size, len(cov))

    def normal(self, loc=0.0, scale=1.0, size=None):
        n = size[0] if isinstance(size, tuple) else size
        return self.w.array([self.w.var(self._next(), lo=-3, hi=3) for _ in range(n)]) * scale + loc

    def standard_normal(self, size):
        shape = size if isinstance(size, tuple) else (size,)
        return self.w.np.zeros(shape) + self.w.real(1)


def _scores(w, seen):
    def judge(name):
        def score(cov, X, *rest):
            s = w.var(f"s{len(seen)}", lo=-9, hi=9)
            seen.append((name, cov, X, rest, s))
            return s
        return score
    return judge


def _by_judge(w, seen, names, truth, X, got, bulk, rows):
    """Every judge compared both estimates of the pair once, on the same sample; the share it got right."""
    w.eq("calls", len(seen), 2 * len(names))
    first = seen[0][1], seen[1][1]
    w.eq("judges", list(got), names)
    err = []
    for c in first:
        err.append(sum(((c[i, i] - truth[i]) ** 2 for i in range(bulk)), w.real(0)))
    w.assume(abs(err[0] - err[1]) > w.real(0.001))
    for k, name in enumerate(names):
        a, b = seen[2 * k], seen[2 * k + 1]
        w.eq(f"{name}: the pair", (a[1], b[1]), first)
        w.eq(f"{name}: same rows", a[2], b[2])
        w.eq(f"{name}: all rows", len(a[2]), rows)
        w.eq(f"{name}: the sample", a[2], X[-1])
        w.eq(f"{name}: power", got[name], w.np.where(w.np.where(err[0] < err[1], a[4] > b[4], b[4] > a[4]), w.real(1), w.real(0)))


class _Sampled(_Errors):
    def __init__(self, w):
        super().__init__(w)
        self.samples, self.lam = [], []

    def uniform(self, lo=0.0, hi=1.0, size=None):
        v = super().uniform(lo, hi, size)
        self.lam.append(v)
        return v

    def multivariate_normal(self, mean, cov, size=None):
        self.samples.append(super().multivariate_normal(mean, cov, size))
        return self.samples[-1]


@harness([dict(p=2, bulk=1), dict(p=3, bulk=2), dict(p=3, bulk=1)], **OPTS)
def power_with_a_noisy_tail(w, p, bulk):
    """High-dimensional experiment: the better estimate is the one nearer to the truth in the informative directions, whatever the noisy
    tail says; every judge meets the same pair and the same sample of the truth."""
    m, rng, seen = _m(w), _Sampled(w), []
    judge = _scores(w, seen)
    np = _Np(w.np, rng)
    np.linalg = _Linalg(w)
    subs = []

    def subspaces(p_, k, n, r):
        subs.append((p_, k, n))
        return [("subspace", len(subs))] * n
    with _Patched(m, np=np, _random_subspaces=subspaces, _kproj_loglik=judge("k"), _loglik=judge("loglik"), _stein=judge("stein"),
                  _frobenius=judge("frobenius")):
        got = m.proof_high_dim(p=p, bulk=bulk, k_list=(1, None), n_test=2, trials=1, sig_tail=w.real(0), sig_bulk_good=w.frac(1, 10),
                               sig_bulk_bad=w.frac(1, 5))
    w.assume(len(seen) > 1 and len(rng.samples) == 1 and len(rng.lam) == 1)
    lam = rng.lam[0]
    w.eq("truth", rng.normal_of[0][1],
         [[(lam[i] if i < bulk else w.frac(1, 20)) if i == j else w.real(0) for j in range(p)] for i in range(p)])
    _by_judge(w, seen, ["loglik", "stein", "frobenius", "proj_k1", f"proj_k{p}"], lam, rng.samples, got, bulk, 2)
    w.eq("subspaces", subs, [(p, 1, 60), (p, p, 60 // p)])
    for k in (3, 4):
        w.eq("same subspaces", seen[2 * k][3], seen[2 * k + 1][3])


@harness([dict(p=2, bulk=1), dict(p=3, bulk=2)], **OPTS)
def composite_power_with_a_noisy_tail(w, p, bulk):
    """The same for composite likelihoods."""
    m, rng, seen = _m(w), _Sampled(w), []
    judge = _scores(w, seen)
    np = _Np(w.np, rng)
    np.linalg = _Linalg(w)
    with _Patched(m, np=np, _loglik=judge("full"), _frobenius=judge("frobenius"), block_pseudo_loglik=judge("pll")):
        got = m.pseudo_likelihood_power(regime="noisy_tail", block_sizes=(1, None), p=p, bulk=bulk, n_test=2, trials=1,
                                        sig_tail=w.real(0), sig_good=w.frac(1, 10), sig_bad=w.frac(1, 5))
    w.assume(len(seen) > 1 and len(rng.samples) == 1 and len(rng.lam) == 1)
    lam = rng.lam[0]
    w.eq("truth", rng.normal_of[0][1],
         [[(lam[i] if i < bulk else w.frac(1, 20)) if i == j else w.real(0) for j in range(p)] for i in range(p)])
    _by_judge(w, seen, ["frobenius", "full_loglik", "pll_b1", f"pll_b{p}"], lam, rng.samples, got, bulk, 2)
    for k, b in ((2, 1), (3, p)):
        w.eq("block size", (seen[2 * k][3][0], seen[2 * k + 1][3][0]), (b, b))


def _god(w):
    return w.mod("research.schur_godambe")


class _Operators:
    """Stand-in for the damped-likelihood operator: an arbitrary diagonal operator and log-determinant per call."""

    def __init__(self, w):
        self.w, self.calls = w, []

    def __call__(self, cov, sizes, gamma):
        p, k = len(cov), len(self.calls)
        W = self.w.array([[self.w.var(f"W{k}_{i}", lo=-3, hi=3) if i == j else self.w.real(0) for j in range(p)] for i in range(p)])
        L = self.w.var(f"L{k}", lo=-9, hi=9)
        self.calls.append((cov, list(sizes), gamma, W, L))
        return W, L


@harness([dict(gammas="1"), dict(gammas="0.5,0")], **OPTS)
def power_of_the_operators(w, gammas):
    """The damped operators are asked for the estimate with the more accurate correlation within groups and for the other one, on one sample
    of the truth; power is the share of trials in which the former scores strictly higher."""
    m, rng, op = _god(w), _Sampled(w), _Operators(w)
    gs = [w.real(float(x)) for x in gammas.split(",")]
    with _Patched(m, np=_Np(w.np, rng), schur_operator=op, _project_pd=lambda c, *a: c):
        power = m.structured_power_over_draws(p=4, g=2, rho=w.real(0.6), err_good=w.real(0.05), err_bad=w.real(0.2),
                                              sig_cross=w.real(0.18), gammas=tuple(gs), n_test=2, trials=1)
    w.assume(len(op.calls) == 2 * len(gs) and len(rng.samples) == 1)
    w.eq("truth", rng.normal_of[0][1], [[w.real(1 if i == j else 0.6 if i // 2 == j // 2 else 0) for j in range(4)] for i in range(4)], tol=1e-12)
    X = rng.samples[0]

    def score(c):
        q = sum((X[t, i] * X[t, i] * c[3][i, i] for t in range(2) for i in range(4)), w.real(0)) / 2
        return -(c[4] + q) / 2
    for k, g in enumerate(gs):
        a, b = op.calls[2 * k:2 * k + 2]
        for c, err in ((a, 0.05), (b, 0.2)):
            w.eq("blocks", c[1], [2, 2])
            w.eq("its gamma", c[2], g)
            for i, j in ((0, 1), (2, 3)):
                w.eq("error within groups", abs(c[0][i, j] - w.real(0.6)), w.real(err), tol=1e-9)
            w.eq("noise between groups", c[0][0, 2], w.real(0.18), tol=1e-9)
        w.eq("power", power[g], w.np.where(score(a) > score(b), w.real(1), w.real(0)))


@harness([dict(draws=1, skip="none"), dict(draws=2, skip="none"), dict(draws=2, skip="first")], **OPTS)
def power_over_training_draws(w, draws, skip):
    """Mean, spread, signal-to-noise ratio and power are those of the expected score gaps over the training draws that gave two
    positive-definite estimates; divergences are averaged over the same draws."""
    m, rng, op = _god(w), _Sampled(w), _Operators(w)
    gs = (w.real(1), w.real(0.5))
    T = w.array([[w.real(2 + i if i == j else 0) for j in range(4)] for i in range(4)])
    kl, spd = [], []

    def divergence(est, true):
        kl.append((est, true, w.var(f"kl{len(kl)}", lo=0, hi=5)))
        return kl[-1][2]

    def is_spd(M, *a):
        spd.append(M)
        return not (skip == "first" and len(spd) == 1)
    with _Patched(m, np=_Np(w.np, rng), schur_operator=op, _spiked=lambda p, *a, **k: (T, None, None), _kl=divergence, _is_spd=is_spd):
        out, ka, kb = m.discrimination_power_over_draws(4, 3, gs, n_draws=draws)
    counted = [X for t, X in enumerate(rng.samples) if not (skip == "first" and t == 0)]
    w.assume(len(op.calls) == 4 * len(counted) and len(counted) > 0)
    w.eq("samples of the truth", [c for _, c in rng.normal_of], [T] * draws)
    w.eq("rows", [len(X) for X in rng.samples], [3] * draws)
    D = {0: [], 1: []}
    for t, X in enumerate(counted):
        mean = [sum((X[r, i] for r in range(3)), w.real(0)) / 3 for i in range(4)]
        S = [[sum(((X[r, i] - mean[i]) * (X[r, j] - mean[j]) for r in range(3)), w.real(0)) / 3 for j in range(4)] for i in range(4)]
        tr = sum((S[i][i] for i in range(4)), w.real(0)) / 4
        A = [[S[i][j] / 2 + (tr / 2 if i == j else 0) for j in range(4)] for i in range(4)]
        B = [[S[i][j] + (w.frac(2, 100) * (2 + 3 + 4 + 5) / 4 if i == j else 0) for j in range(4)] for i in range(4)]
        for g in (0, 1):
            a, b = op.calls[4 * t + 2 * g:4 * t + 2 * g + 2]
            w.eq("shrunk estimate", a[0], w.array(A))
            w.eq("ridged estimate", b[0], w.array(B))
            w.eq("its gamma", (a[2], b[2]), (gs[g], gs[g]))
            w.eq("blocks", (a[1], b[1]), ([4], [4]))
            gap = a[4] - b[4] + sum(((a[3][i, i] - b[3][i, i]) * T[i, i] for i in range(4)), w.real(0))
            D[g].append(-gap / 2)
    n = len(counted)
    w.eq("divergences", (ka, kb), (sum((k[2] for k in kl[0::2]), w.real(0)) / n, sum((k[2] for k in kl[1::2]), w.real(0)) / n))
    for g in (0, 1):
        o, d = out[gs[g]], D[g]
        mu = sum(d, w.real(0)) / n
        var = sum(((x - mu) * (x - mu) for x in d), w.real(0)) / n
        w.eq("mean", o["mean"], mu)
        w.eq("spread", o["sd"] * o["sd"], var)
        w.le("spread not negative", w.real(0), o["sd"])
        if n > 1:
            w.assume(var > w.real(0.001))
            w.eq("ratio", o["snr"] * o["sd"], o["mean"])
        else:
            w.check("ratio", o["snr"] == float("inf"))
        w.eq("power", o["power"] * n, sum((w.np.where(x > 0, w.real(1), w.real(0)) for x in d), w.real(0)))


@harness([dict(which=k) for k in ("frobenius", "stein")] , **{**OPTS, "la": "exact", "la_n": 2})
def empirical_judges(w, which):
    """The Frobenius and Stein judges compare the estimate with the sample covariance: minus the distance, and minus Stein's loss."""
    m = _m(w)
    for n in (1, 2) if which == "frobenius" else (2,):
        A, X = zoo._psd(w, f"A{n}", n, pd=True), zoo.rows(w, f"x{n}", 3, n)
        mean = [sum((X[r, i] for r in range(3)), w.real(0)) / 3 for i in range(n)]
        S = [[sum(((X[r, i] - mean[i]) * (X[r, j] - mean[j]) for r in range(3)), w.real(0)) / 3 for j in range(n)] for i in range(n)]
        if which == "frobenius":
            if n == 1:
                continue            # a sample of one variable has a scalar covariance
            got = m._frobenius(w.array(A), X)
            w.eq("squared", got * got, sum(((A[i][j] - S[i][j]) ** 2 for i in range(n) for j in range(n)), w.real(0)), tol=1e-6)
            w.le("sign", got, w.real(0))
        else:
            P = _inv(A)
            w.assume(_det(S) > w.real(0.001))
            M = [[sum((P[i][k] * S[k][j] for k in range(n)), w.real(0)) for j in range(n)] for i in range(n)]
            w.eq("loss", m._stein(w.array(A), X), -(M[0][0] + M[1][1] - w.np.log(_det(M)) - n), tol=1e-5)


@harness([dict(n=n) for n in (2, 3)], **OPTS)
def perturbed_estimates(w, n):
    """A perturbed estimate is symmetric and lies at the relative Frobenius distance asked for (before its spectrum is floored)."""
    m = _m(w)
    C = w.symm("c", n)
    eps = w.var("eps", lo=0, hi=1)
    g = w.arr("g", n, n)

    class R:
        def standard_normal(self, size):
            return g
    with _Patched(m, _project_pd=lambda c, *a: c):
        P = m._perturb(C, eps, R())
    E = [[(g[i, j] + g[j, i]) / 2 for j in range(n)] for i in range(n)]
    ne, nc = sum((E[i][j] ** 2 for i in range(n) for j in range(n)), w.real(0)), sum((C[i, j] ** 2 for i in range(n) for j in range(n)), w.real(0))
    w.assume(ne > w.real(0.01))
    for i in range(n):
        for j in range(n):
            w.eq("symmetric", P[i, j], P[j, i])
            d = P[i, j] - C[i, j]
            w.eq("direction and size", d * w.np.sqrt(ne), eps * E[i][j] * w.np.sqrt(nc), tol=1e-6)
