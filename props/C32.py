"""Bounds: every return matrix of 5-8 rows and 2 assets, every window length and step that fits; two or three estimators with
arbitrary covariances and scores (failures included), every choice the generator and the recommender can make; two or
three generative families, up to two trials each."""
import sys
import types

from vx.api import harness
from props import zoo

OPTS = dict(la="exact", la_n=2, paths=400, timeout=150, abnormal=0, vtol=1e-5)


class _Patched:
    """Module attributes replaced for a while."""

    def __init__(self, mod, **kw):
        self.mod, self.kw, self.old = mod, kw, {}

    def __enter__(self):
        for k, v in self.kw.items():
            self.old[k] = getattr(self.mod, k)
            setattr(self.mod, k, v)
        return self.mod

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.mod, k, v)


def _choose(w, name, n):
    i = w.var(name, lo=0, hi=n - 1, integer=True)
    for k in range(n - 1):
        if w.fork(i <= k):
            return k
    return n - 1


class _Rng:
    """A generator whose every draw is arbitrary."""

    def __init__(self, w, name="r"):
        self.w, self.name, self.n, self.normal = w, name, 0, []

    def _next(self):
        self.n += 1
        return f"{self.name}{self.n}"

    def integers(self, n, *a, **k):
        return _choose(self.w, self._next(), n)

    def choice(self, v, *a, **k):
        return v[_choose(self.w, self._next(), len(v))]

    def uniform(self, lo=0.0, hi=1.0, size=None):
        lo, hi = float(lo), float(hi)
        if size is None:
            return self.w.var(self._next(), lo=lo, hi=hi)
        shape = size if isinstance(size, tuple) else (size,)
        return self._array(shape, lo, hi)

    def standard_normal(self, size):
        shape = size if isinstance(size, tuple) else (size,)
        return self.w.arr(self._next(), *shape)

    def multivariate_normal(self, mean, cov, size=None):
        self.normal.append((mean, cov))
        return self.w.arr(self._next(), size, len(cov))

    def chisquare(self, df, size=None):
        self.df = df
        return self._array(size, 0.1, 50)

    def _array(self, shape, lo, hi):
        name = self._next()
        n = 1
        for k in shape:
            n *= k
        flat = [self.w.var(f"{name}_{i}", lo=lo, hi=hi) for i in range(n)]
        return self.w.array(flat).reshape(*shape)


_stub = zoo.Stub


def _estimators(w, log, k, p=2, fails=None, made=None):
    """k estimator classes that log what they are fitted on and report an arbitrary covariance."""
    out = []
    for i in range(k):
        def fit(self, X, i=i):
            log.append((i, X))
            if fails == i:
                raise ValueError("no estimate")
            n = len([1 for j, _ in log if j == i])
            d = [w.var(f"v{i}_{n}_{a}", lo=0.1, hi=10) for a in range(p)]
            if made is not None:
                made[i, n] = d
            self.covariance_ = w.array([[d[a] if a == b else w.real(0) for b in range(p)] for a in range(p)])
            return self
        out.append(type(f"Estimator{i}", (), {"fit": fit}))
    return out


WINDOWS = [dict(T=T, train=a, test=b, step=s) for T, a, b, s in
           ((5, 2, 1, 1), (6, 3, 2, 1), (7, 3, 2, 2), (8, 2, 3, 3), (6, 4, 2, 5), (7, 2, 2, 4))]


@harness(WINDOWS, **OPTS)
def rolling_windows(w, T, train, test, step):
    """Every estimator and the recommender see exactly the training window, are charged the realised variance of their
    minimum-variance portfolio on the window after it, and every complete window counts once."""
    m = w.mod("research.oos_equity")
    R = zoo.rows(w, "x", T, 2)
    log, asked, picks, made = [], [], [], {}
    ests = _estimators(w, log, 2, made=made)

    def suggest(X, top=None, **k):
        asked.append(X)
        picks.append(_choose(w, f"pick{len(asked)}", 2))
        return [ests[picks[-1]]] if top == 1 else [ests[picks[-1]], ests[1 - picks[-1]]]
    with _Patched(m, all_estimators=lambda: list(ests), suggest=suggest):
        fixed, rec, oracle, equal, counts = m.rolling_oos(R, train_len=train, test_len=test, step=step)
    starts = [t for t in range(0, T, step) if t + train + test <= T]
    w.eq("windows asked", len(asked), len(starts))
    w.eq("windows fitted", len(log), 2 * len(starts))
    var = {0: [], 1: []}
    ew = []
    for k, t in enumerate(starts):
        W = [[R[t + i, j] for j in range(2)] for i in range(train)]
        w.eq("asked on the training window", asked[k], w.array(W))
        for i, X in log[2 * k: 2 * k + 2]:
            w.eq("fitted on the training window", X, w.array(W))
        w.eq("each estimator once", sorted(i for i, _ in log[2 * k: 2 * k + 2]), [0, 1])
        after = [[R[t + train + i, j] for j in range(2)] for i in range(test)]
        for e in range(2):
            a = [1 / v for v in made[e, k + 1]]
            g = [x / (a[0] + a[1]) for x in a]
            var[e].append(sum(((r[0] * g[0] + r[1] * g[1]) ** 2 for r in after), w.real(0)) / test)
        ew.append(sum((((r[0] + r[1]) / 2) ** 2 for r in after), w.real(0)) / test)

    def vol(v):
        return w.np.sqrt(252 * sum(v, w.real(0)) / len(v))
    for e in range(2):
        w.eq(f"fixed {e}", fixed[f"Estimator{e}"], vol(var[e]), tol=1e-6)
    w.eq("names", sorted(fixed), ["Estimator0", "Estimator1"])
    w.eq("recommender", rec, vol([var[p][k] for k, p in enumerate(picks)]), tol=1e-6)
    w.eq("oracle", oracle, vol([w.np.minimum(a, b) for a, b in zip(var[0], var[1])]), tol=1e-6)
    w.eq("equal weight", equal, vol(ew), tol=1e-6)
    w.eq("counts", counts, {f"Estimator{i}": picks.count(i) for i in sorted(set(picks), key=picks.index)})


@harness([dict(n=n) for n in (1, 2, 3)], **{**OPTS, "la_n": 3})
def portfolio_weights(w, n):
    """Minimum-variance weights sum to one and equalise marginal risk."""
    f = w.mod("research.oos_equity")._gmv_weights
    S = zoo._psd(w, "S", n, pd=True)
    wt = f(w.array(S))
    w.eq("sum", sum((wt[i] for i in range(n)), w.real(0)), w.real(1), tol=1e-6)
    risk = [sum((S[i][j] * wt[j] for j in range(n)), w.real(0)) for i in range(n)]
    for i in range(1, n):
        w.eq("marginal risk", risk[i], risk[0], tol=1e-4, atol=1e-5)


@harness([dict(n=n) for n in (1, 2, 3, 4)], **OPTS)
def ranks(w, n):
    """Ranks are 1..n and a better score never ranks lower."""
    s = {f"e{i}": w.var(f"s{i}") for i in range(n)}
    r = w.mod("research.oos")._ranks(dict(s))
    w.eq("names", sorted(r), sorted(s))
    w.eq("a ranking", sorted(r.values()), list(range(1, n + 1)))
    for a in s:
        for b in s:
            if r[a] < r[b]:
                w.le("better first", s[b], s[a])


@harness([dict(k=k, fails=f, own=o) for k in (1, 2, 3) for f in (None, 0) for o in (True, False)], **OPTS)
def trial(w, k, fails, own):
    """Estimators and recommender are given the training sample only, judged on the test sample; a failure is last."""
    m = w.mod("research.oos")
    log, asked, scored, draws, given = [], [], [], [], []
    ests = _estimators(w, log, k, fails=fails)
    rng = _Rng(w)

    def gen(p, r):
        draws.append(p)
        return w.array([[w.var("t0", lo=1, hi=2), w.real(0)], [w.real(0), w.var("t1", lo=1, hi=2)]])

    class Judge:
        def score(self, cov, *, X_test=None, true_cov=None):
            scored.append((cov, X_test, true_cov))
            given.append(w.var(f"score{len(scored)}"))
            return given[-1]

    def suggest(X, top=None, **kw):
        asked.append(X)
        return [ests[-1]] * (top or k)

    def recommender(X):
        asked.append(X)
        return "Estimator0"
    samples = []

    def sample(cov, n, r, heavy):
        samples.append((cov, n, heavy, zoo.rows(w, f"s{len(samples)}", n, 2)))
        return samples[-1][3]
    with _Patched(m, all_estimators=lambda: list(ests), suggest=suggest, _sample=sample):
        out, rec = m._trial(gen, True, 2, 3, 4, rng, Judge(), recommender=recommender if own else None)
    w.eq("two samples", [(n, h) for _, n, h, _ in samples], [(3, True), (4, True)])
    train, test = samples[0][3], samples[1][3]
    w.eq("one truth", samples[0][0], samples[1][0])
    w.eq("everyone fitted", [i for i, _ in log], list(range(k)))
    for _, X in log:
        w.eq("fitted on train", X, train)
    w.eq("asked once", len(asked), 1)
    w.eq("asked on train", asked[0], train)
    for _, X, T in scored:
        w.eq("judged on test", X, test)
        w.check("without the truth", T is None)
    w.eq("recommended", rec, "Estimator0" if own else f"Estimator{k - 1}")
    w.eq("all scored", sorted(out), [f"Estimator{i}" for i in range(k)])
    j = 0
    for i in range(k):
        if i == fails:
            w.check("failure is last", out[f"Estimator{i}"] == float("-inf"))
            continue
        j += 1
        w.eq("own score", out[f"Estimator{i}"], given[j - 1])


def _families(w, used, names):
    return {n: ((lambda p, r, n=n: used.append(n)), i == 1) for i, n in enumerate(names)}


@harness([dict(k=k, trials=t) for k, t in ((2, 1), (2, 2), (3, 1))], **{**OPTS, "paths": 900})
def best_fixed_estimator(w, k, trials):
    """The fixed rival is the one of best mean rank over the given families, and only those are generated."""
    m = w.mod("research.oos")
    used, scores = [], []

    def trial_(gen, heavy, p, a, b, rng, assessor, recommender=None):
        gen(p, rng)
        n = len(scores)
        scores.append([w.var(f"s{n}_{i}") for i in range(k)])
        return {f"e{i}": v for i, v in enumerate(scores[-1])}, "e0"
    fam = _families(w, used, ["A", "B", "held"])
    with _Patched(m, ENSEMBLES=fam, _trial=trial_):
        best = m._best_fixed(["A", "B"], 2, 3, 4, trials, _Rng(w), None)
    w.eq("trials", len(scores), trials)
    w.check("families", all(u in ("A", "B") for u in used))
    rank = [0] * k
    for s in scores:
        order = sorted(range(k), key=lambda i: -s[i])
        for r, i in enumerate(order):
            rank[i] += r + 1
    w.eq("best mean rank", rank[int(best[1:])], min(rank))


class _InTurn(_Rng):
    """Integers are drawn in turn, the rest arbitrarily."""

    def integers(self, n, *a, **k):
        self.n += 1
        return self.n % int(n)


@harness([dict(orders=o) for o in ("abc abc abc bca bca", "abc bca bca", "cab cab abc bac bac", "abc acb bca bca", "abcd abcd dbca cbda")],
         **OPTS)
def best_fixed_over_many_trials(w, orders):
    """Any scores in the given orders over the trials: the fixed rival is still the one of least mean rank."""
    m = w.mod("research.oos")
    todo = list(enumerate(orders.split()))
    total = {}

    def trial_(gen, heavy, p, a, b, rng, assessor, recommender=None):
        if not todo:
            w.assume(False)
        t, order = todo.pop(0)
        v = [w.var(f"s{t}", lo=-9, hi=9)]
        for i in range(1, len(order)):
            v.append(v[-1] - w.var(f"gap{t}_{i}", lo=0.1, hi=9))
        for i, c in enumerate(order):
            total[c] = total.get(c, 0) + i
        return {c: v[order.index(c)] for c in sorted(order)}, order[0]
    fam = {n: ((lambda p, r: None), False) for n in "AB"}
    with _Patched(m, ENSEMBLES=fam, _trial=trial_):
        best = m._best_fixed(["A", "B"], 2, 3, 4, len(todo), _InTurn(w), None)
    w.assume(not todo)
    w.eq("least mean rank", total[best], min(total.values()))


@harness([dict(names=n, trained=t) for n in ("A", "AB", "ABC") for t in (False, True)], **OPTS)
def nothing_held_out_is_seen(w, names, trained):
    """For every held-out family, the rival and the recommender come from the other families, and the trials from it."""
    m = w.mod("research.oos")
    used, calls, trained_on, picks, firsts = [], [], [], [], []

    def trial_(gen, heavy, p, a, b, rng, assessor, recommender=None):
        gen(p, rng)
        calls.append((used[-1], heavy, p, a, b, recommender))
        n = len(calls)
        picks.append(_choose(w, f"pick{n}", 2))
        first = w.fork(w.var(f"order{n}") > 0)
        firsts.append(first)
        return ({"x": w.real(2), "y": w.real(1)} if first else {"x": w.real(1), "y": w.real(2)}), "xy"[picks[-1]]
    fixed_on = []

    def best(ens, p, a, b, t, rng, assessor):
        fixed_on.append(list(ens))
        return "x"

    def fit(ens, n, rng, assessor):
        trained_on.append((list(ens), n))
        return "predictor " + "".join(ens)
    fam = _families(w, used, list(names))
    kw = dict(ENSEMBLES=fam, _trial=trial_, _best_fixed=best, _train_recommender=fit)
    rands = types.SimpleNamespace(default_rng=lambda seed=None: _Rng(w))
    np = _np(m.np, random=rands)
    with _Patched(m, np=np, **kw):
        if trained:
            out = m.leave_one_family_out_trained(p=2, n_train=3, n_test=4, trials=1, n_problems=7, assessor="judge")
        else:
            out = m.leave_one_ensemble_out(p=2, n_train=3, n_test=4, trials=1, assessor="judge")
    w.eq("held out in turn", list(out), list(names))
    rest = [[o for o in names if o != h] for h in names]
    w.eq("rival from the rest", fixed_on, rest)
    if trained:
        w.eq("trained on the rest", [e for e, _ in trained_on], rest)
        w.eq("problems", [n for _, n in trained_on], [7] * len(names))
    w.eq("tried on the held out", [c[0] for c in calls], list(names))
    for i, h in enumerate(names):
        u, heavy, p, a, b, r = calls[i]
        w.eq("sizes", [heavy, p, a, b], [fam[h][1], 2, 3, 4])
        w.eq("its own recommender", r, "predictor " + "".join(rest[i]) if trained else None)
        w.eq("rival", out[h]["best_fixed"], "x")
        x = 1 if firsts[i] else 2
        w.eq("rank of the rival", float(out[h]["rank_best_fixed"]), float(x))
        w.eq("rank of the recommended", float(out[h]["rank_recommender"]), float([x, 3 - x][picks[i]]))


class _np:
    """numpy with something replaced."""

    def __init__(self, np, **kw):
        self.__dict__.update(kw)
        self._np = np

    def __getattr__(self, k):
        return getattr(self._np, k)


GEN = [dict(mod=m, which=k, p=p) for m, ks in
       (("research.oos", ("_equicorr", "_one_factor", "_ar1", "_diag_hetero")),
        ("research.bakeoff", ("_equicorrelation", "_one_factor", "_ar1_toeplitz"))) for k in ks for p in (1, 2, 3) if (k, p) != ("_one_factor", 3)]


@harness(GEN, la="uf", paths=4, timeout=100, abnormal=0)
def families_are_covariances(w, mod, which, p):
    """Every draw of a generative family is a symmetric positive definite matrix."""
    f = getattr(w.mod(mod), which, None)
    if f is None:
        return
    rng = _Rng(w)
    A = f(p) if which in ("_equicorrelation", "_ar1_toeplitz") else f(p, rng)
    w.eq("shape", tuple(A.shape), (p, p))
    for i in range(p):
        for j in range(i):
            w.eq("symmetric", A[i, j], A[j, i])
    w.psd("positive", A - w.np.eye(p) * w.frac(1, 20))


@harness([dict(mod=m, heavy=h) for m in ("research.oos", "research.bakeoff") for h in (False, True)], **OPTS)
def samples_have_the_stated_covariance(w, mod, heavy):
    """Gaussian draws use the covariance; heavy-tailed ones are Student draws scaled back to it."""
    m = w.mod(mod)
    C = w.array(zoo._psd(w, "C", 2, pd=True))
    rng = _Rng(w)
    if mod.endswith("oos"):
        X = m._sample(C, 3, rng, heavy)
    else:
        X = m._heavy_tailed(C, 3, rng) if heavy else m._gaussian(C, 3, rng)
    mean, cov = rng.normal[0]
    w.eq("centred", w.array(mean), w.array([0, 0]))
    w.eq("shape", tuple(X.shape), (3, 2))
    if not heavy:
        w.eq("covariance", cov, C)
    else:       # a Student draw has covariance df / (df - 2) times its scale
        w.eq("covariance", w.array(cov) * rng.df / (rng.df - 2), C, tol=1e-6)
        w.lt("finite variance", w.real(2), w.num(rng.df))


class _Tree:
    log = None

    def __init__(self, **kw):
        self.kw = kw

    def fit(self, X, y):
        _Tree.log.append(("fit", X, list(y)))
        return self

    def predict(self, X):
        _Tree.log.append(("predict", X))
        return ["Estimator1"]


@harness([dict(n=n) for n in (1, 2)], **OPTS)
def fresh_trees_learn_from_training_windows(w, n):
    """A fresh recommender is fitted to the features of training windows of the allowed families, labelled with the best
    test score, and standardises what it is asked exactly as what it learnt."""
    m = w.mod("research.oos")
    log, used, scored, samples, feats = [], [], [], [], []
    ests = _estimators(w, log, 2)
    _Tree.log = []

    class Judge:
        def score(self, cov, *, X_test=None, true_cov=None):
            scored.append((X_test, w.var(f"score{len(scored)}")))
            return scored[-1][1]

    def sample(cov, k, r, heavy):
        samples.append((k, heavy, zoo.rows(w, f"s{len(samples)}", 2, 2)))
        return samples[-1][2]

    def features(X):
        feats.append((X, [w.var(f"f{len(feats)}_{i}", lo=-5, hi=5) for i in range(2)]))
        return feats[-1][1]
    fam = {k: ((lambda p, r, k=k: used.append(k) or w.np.eye(2)), k == "B") for k in ("A", "B", "held")}
    names = {"sklearn": _stub("sklearn"), "sklearn.tree": _stub("sklearn.tree", DecisionTreeClassifier=_Tree),
             "research.train_recommender": _stub("research.train_recommender", _features=features)}
    keep = {k: sys.modules.get(k) for k in names}
    pkg = w.mod("research")
    had = getattr(pkg, "train_recommender", None)
    try:
        sys.modules.update(names)
        pkg.train_recommender = names["research.train_recommender"]
        with _Patched(m, ENSEMBLES=fam, all_estimators=lambda: list(ests), _sample=sample):
            rng = _Fixed(w)
            predict = m._train_recommender(["A", "B"], n, rng, Judge())
            Q = zoo.rows(w, "q", 2, 2)
            said = predict(Q)
    finally:
        for k in names:
            if keep[k] is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = keep[k]
        if had is None:
            del pkg.train_recommender
        else:
            pkg.train_recommender = had
    w.eq("answer", said, "Estimator1")
    w.check("families", all(u in ("A", "B") for u in used))
    w.eq("problems", len(samples), 2 * n)
    w.eq("windows", len(feats), n + 1)
    for k in range(n):
        w.eq("features of the training window", feats[k][0], samples[2 * k][2])
        for i, X in log[2 * k:2 * k + 2]:
            w.eq("fitted on the training window", X, samples[2 * k][2])
        for X, _ in scored[2 * k:2 * k + 2]:
            w.eq("judged on the test window", X, samples[2 * k + 1][2])
    w.eq("asked about the window", feats[n][0], Q)
    fits = [e for e in _Tree.log if e[0] == "fit"]
    w.eq("one fit", len(fits), 1)
    labels = []
    for k in range(n):
        a, b = scored[2 * k][1], scored[2 * k + 1][1]
        w.assume(a != b)
        labels.append("Estimator0" if w.fork(a > b) else "Estimator1")
    w.eq("labelled with the best", list(fits[0][2]), labels)
    X = fits[0][1]
    asked = [e for e in _Tree.log if e[0] == "predict"][0][1]
    for j in range(2):
        col = [feats[k][1][j] for k in range(n)]
        mu = sum(col, w.real(0)) / n
        sd = w.np.sqrt(sum(((c - mu) ** 2 for c in col), w.real(0)) / n) + w.frac(1, 10 ** 9)
        for k in range(n):
            w.eq("standardised", X[k, j] * sd, col[k] - mu, tol=1e-5, atol=1e-6)
        w.eq("asked in the same scale", asked[0, j] * sd, feats[n][1][j] - mu, tol=1e-5, atol=1e-6)


class _Fixed(_Rng):
    """Arbitrary choice of family; smallest sizes."""

    def choice(self, v, *a, **k):
        return v[0]


@harness([dict(e=e, s=s) for e in (1, 2) for s in (1, 2)], **OPTS)
def bake_off(w, e, s):
    """Every estimator is fitted on each scenario's training sample and judged on its test sample and truth."""
    m = w.mod("research.bakeoff")
    log, judged = [], []
    ests = _estimators(w, log, e)

    class Judge:
        def __init__(self, name, ok=True, fails=False):
            self.name, self.ok, self.fails = name, ok, fails

        def usable(self, *, have_data, have_truth):
            return self.ok and have_data and have_truth

        def score(self, cov, *, X_test=None, true_cov=None):
            judged.append((self.name, cov, X_test, true_cov))
            if self.fails:
                raise ValueError("no score")
            return 1.0 * len(judged)
    scs = [(f"sc{i}", zoo.rows(w, f"a{i}", 2, 2), zoo.rows(w, f"b{i}", 3, 2),
            w.array([[w.var(f"t{i}", lo=1), w.real(0)], [w.real(0), w.real(1)]])) for i in range(s)]
    judges = [Judge("one"), Judge("two"), Judge("unusable", ok=False), Judge("broken", fails=True)]
    with _Patched(m, all_estimators=lambda: list(ests), all_assessors=lambda: list(judges),
                  build_scenarios=lambda **k: list(scs)):
        out = m.run()
    w.eq("estimators", sorted(out), [f"Estimator{i}" for i in range(e)])
    w.eq("fits", len(log), e * s)
    w.eq("judgements", len(judged), 3 * e * s)
    for i, X in log:
        w.check("fitted on a training sample", X.shape == (2, 2))
    n = 0
    for k, (name, tr, te, true) in enumerate(scs):
        for i in range(e):
            w.eq("fitted on train", log[k * e + i][1], tr)
            w.eq("in turn", log[k * e + i][0], i)
            for jn in ("one", "two", "broken"):
                who, cov, X, T = judged[n]
                n += 1
                w.eq("judge", who, jn)
                w.eq("judged on test", X, te)
                w.eq("judged against the truth", T, true)
                got = out[f"Estimator{i}"][name][jn]
                w.check("recorded", got == (float("-inf") if jn == "broken" else 1.0 * n))
            w.eq("judges used", sorted(out[f"Estimator{i}"][name]), ["broken", "one", "two"])


@harness([dict(e=e, s=s) for e in (1, 2, 3) for s in (1, 2)], **{**OPTS, "paths": 900})
def winners(w, e, s):
    """The winner named for a scenario has the highest score there."""
    m = w.mod("research.bakeoff")
    res = {f"E{i}": {f"sc{k}": {"P": w.var(f"p{i}_{k}")} for k in range(s)} for i in range(e)}
    text = m.per_scenario_winners(res, primary="P")
    for k in range(s):
        line = [x for x in text.split("\n") if f"sc{k} " in x]
        w.eq("one line", len(line), 1)
        best = line[0].split("->")[1].strip()
        for i in range(e):
            w.le("highest", res[f"E{i}"][f"sc{k}"]["P"], res[best][f"sc{k}"]["P"])


@harness([dict(e=e, s=s) for e, s in ((1, 1), (2, 1), (2, 2), (3, 1))], **{**OPTS, "paths": 900})
def leaderboard(w, e, s):
    """The leaderboard lists the estimators by mean rank of the primary score."""
    m = w.mod("research.bakeoff")
    sc = {(i, k): w.var(f"p{i}_{k}") for i in range(e) for k in range(s)}
    for k in range(s):
        for i in range(e):
            for j in range(i):
                w.assume(sc[i, k] != sc[j, k])
    res = {f"E{i}": {f"sc{k}": {"P": sc[i, k], "Q": 1.0} for k in range(s)} for i in range(e)}
    with _Patched(m, _mean=lambda *a: 0.0):
        text = m.leaderboard(res, primary="P")
    rows = [x.split() for x in text.split("\n")[3:]]
    w.eq("everyone", sorted(r[0] for r in rows), [f"E{i}" for i in range(e)])
    rank = {}
    for i in range(e):
        rank[f"E{i}"] = sum(1 + sum(1 for j in range(e) if j != i and w.fork(sc[j, k] > sc[i, k])) for k in range(s)) / s
    for r in rows:
        w.eq("mean rank", float(r[1]), round(rank[r[0]], 2))
    for a, b in zip(rows, rows[1:]):
        w.check("best first", rank[a[0]] <= rank[b[0]])


@harness([dict(bad=b) for b in (None, 0, 1, 2)], **OPTS)
def secondary_columns(w, bad):
    """A secondary column is the mean over the scenarios where that score exists and is finite."""
    m = w.mod("research.bakeoff")
    v = [w.var(f"q{k}") for k in range(3)]
    res = {"E": {f"sc{k}": {"Q": v[k]} for k in range(3)}}
    if bad is not None:
        res["E"][f"sc{bad}"] = {"Q": float("-inf")} if bad else {}
    use = [x for k, x in enumerate(v) if k != bad]
    w.eq("mean", m._mean(res, "E", "Q"), sum(use, w.real(0)) / len(use))


@harness([dict(n=n) for n in (1, 2)], **OPTS)
def training_problems(w, n):
    """Every training problem of the shipped recommender pairs the features of its training sample with the estimator that
    scores best on its test sample."""
    from props.C27 import _trainer
    m = _trainer(w)
    log, scored, samples, feats = [], [], [], []
    ests = _estimators(w, log, 2)

    class Judge:
        def score(self, cov, *, X_test=None, true_cov=None):
            scored.append((X_test, w.var(f"score{len(scored)}")))
            return scored[-1][1]

    def sample(cov, k, r, heavy):
        samples.append((k, heavy, zoo.rows(w, f"s{len(samples)}", 2, 2)))
        return samples[-1][2]

    def features(X):
        feats.append((X, [w.var(f"f{len(feats)}_{i}", lo=-5, hi=5) for i in range(2)]))
        return feats[-1][1]
    fam = {k: ((lambda p, r, k=k: w.np.eye(2)), k == "B") for k in ("A", "B")}
    rands = types.SimpleNamespace(default_rng=lambda seed=None: _Fixed(w))
    with _Patched(m, np=_np(m.np, random=rands), ENSEMBLES=fam, all_estimators=lambda: list(ests), _sample=sample,
                  _features=features, GMVVariance=Judge):
        X, y, names = m.generate(n_problems=n)
    w.eq("names", list(names), ["Estimator0", "Estimator1"])
    w.eq("problems", (len(X), len(y), len(samples)), (n, n, 2 * n))
    for k in range(n):
        train, test = samples[2 * k], samples[2 * k + 1]
        w.eq("one family", train[1], test[1])
        w.eq("features of the training window", feats[k][0], train[2])
        for j in range(2):
            w.eq("features", X[k, j], feats[k][1][j])
        for i, S in log[2 * k:2 * k + 2]:
            w.eq("fitted on the training window", S, train[2])
        for S, _ in scored[2 * k:2 * k + 2]:
            w.eq("judged on the test window", S, test[2])
        a, b = scored[2 * k][1], scored[2 * k + 1][1]
        w.assume(a != b)
        w.eq("labelled with the best", str(y[k]), "Estimator0" if w.fork(a > b) else "Estimator1")


@harness([dict(k=k) for k in (1, 2, 3)], **OPTS)
def report_names_the_winner(w, k):
    """The summary of a leave-one-out run says the recommender won exactly where its mean rank is no worse."""
    m = w.mod("research.oos")
    res = {f"fam{i}": {"best_fixed": "E", "rank_recommender": w.var(f"a{i}", lo=1, hi=20), "rank_best_fixed":
                       w.var(f"b{i}", lo=1, hi=20)} for i in range(k)}
    for r in res.values():
        w.assume(r["rank_recommender"] != r["rank_best_fixed"])
    text = m.report(res).split("\n")
    for i, r in res.items():
        line = [x for x in text if x.startswith(i + " ")]
        w.eq("one line", len(line), 1)
        w.eq("winner", line[0].split()[-1], "rec" if w.fork(r["rank_recommender"] < r["rank_best_fixed"]) else "fix")


@harness([dict(k=k) for k in (1, 2, 3)], **OPTS)
def report_ranks_the_recommender(w, k):
    """The equity summary ranks the recommender among the fixed estimators and names the best of those."""
    m = w.mod("research.oos_equity")
    v = [w.var(f"v{i}", lo=0, hi=1) for i in range(k)]
    rec = w.var("rec", lo=0, hi=1)
    for i in range(k):
        w.assume(v[i] != rec)
        for j in range(i):
            w.assume(v[i] != v[j])
    if w.symbolic:      # numbers in the text are references to their terms
        from vx import core
        show, core.Sym.__repr__ = core.Sym.__repr__, lambda s: f"_S({s.id})"
    try:
        text = m.report({f"E{i}": v[i] for i in range(k)}, rec, w.real(0), w.real(1), {}).split("\n")
    finally:
        if w.symbolic:
            core.Sym.__repr__ = show
    line = [x for x in text if x.startswith("RECOMMENDER")][0]
    rank = 1 + sum(1 for x in v if w.fork(x < rec))
    said, of = line.split("rank")[1].strip().split("/")
    w.eq("rank", w.real(0) + eval(said, {"_S": lambda i: core._LIST[i]} if w.symbolic else {}), w.real(rank))
    w.eq("of", of, str(k))
    best = [x for x in text if x.startswith("best single fixed")][0]
    name = best.split("(")[-1].rstrip(")")
    for x in v:
        w.le("best", v[int(name[1:])], x)
