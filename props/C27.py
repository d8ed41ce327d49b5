"""Bounds: every real value of every feature (all leaves of the shipped tree, all regimes), every requested length
0-20; windows themselves are literal (four) where the recommender is run end to end; exported trees of up to five
nodes with symbolic class fractions, thresholds and scaling."""
import sys
import types

from vx.api import harness
from props import zoo

KEYS = ["n", "p", "p_over_n", "effective_rank", "sphericity", "condition_number", "mean_abs_offdiag_corr",
        "avg_excess_kurtosis"]
HIGH_DIM = ["FactorCovariance", "LedoitWolfCovariance", "OASCovariance", "ShrunkCovariance", "SchurCovariance"]
PLAIN = ["EmpiricalCovariance", "EwaCovariance"]
ROBUST = ["HuberCovariance", "TylerCovariance"]
OPTS = dict(paths=600, timeout=120, max_decisions=60, feas=True, vtol=1e-6)


def _model(w):
    return w.mod("precise._recommender_model")


def _features(w, p=None):
    f = {k: w.var("f_" + k) for k in KEYS}
    if p is not None:
        f["p"] = p
    return f


class _With:
    """The recommender, given these features for whatever data."""

    def __init__(self, w, features):
        self.m, self.f = w.mod("precise.recommend"), features

    def __enter__(self):
        self.keep = self.m.covariance_features
        self.m.covariance_features = lambda X: dict(self.f)
        return self.m

    def __exit__(self, *a):
        self.m.covariance_features = self.keep


def _leaf(w, f):
    """Down from the root on standardised features; at most the threshold is left."""
    m = _model(w)
    node, seen = 0, 0
    while m.LEFT[node] != -1:
        k = m.FEATURE[node]
        z = (f[m.FEATURES[k]] - w.num(m.MEAN[k])) / w.num(m.STD[k])
        node = m.LEFT[node] if w.fork(z <= w.num(m.THRESHOLD[node])) else m.RIGHT[node]
        seen += 1
        assert seen <= len(m.LEFT)
    return node


def _rules(w, f, names):
    """The documented regimes."""
    high = w.fork(f["p_over_n"] > w.frac(1, 4)) or w.fork(f["sphericity"] < w.frac(3, 5)) \
        or w.fork(f["condition_number"] > 50)
    heavy = w.fork(f["avg_excess_kurtosis"] > 1)
    s = {n: 0 for n in names}
    for n in (HIGH_DIM if high else PLAIN):
        s[n] += 4
    if heavy:
        for n in ROBUST:
            s[n] += 3
    s["LedoitWolfCovariance"] += 1
    return s


def _number(v):
    return v if isinstance(v, (int, float)) else float(v.args[0])


def _want(w, f, tree=True):
    names = w.mod("precise.registry").estimator_names()
    rules = _rules(w, f, names)
    votes = {}
    if tree:
        m = _model(w)
        votes = {c: _number(v) for c, v in zip(m.CLASSES, m.VALUE[_leaf(w, f)])}
    return sorted(names, key=lambda n: (-votes.get(n, 0), -rules[n]))


def _check(w, label, out, want):
    w.eq(label, [c.__name__ for c in out], want)
    w.check(label + " classes", all(isinstance(c, type) and issubclass(c, w.mod("precise.base").BaseOnlineCovariance)
                                    for c in out))


@harness([dict()], **OPTS)
def ranking(w):
    """For every window, whatever its features: by the vote of the leaf they lead to, ties by the documented regimes,
    then the registry's order; everything registered, once."""
    f = _features(w)
    want = _want(w, f)
    with _With(w, f) as m:
        _check(w, "all", m.suggest(w.array([[1, 2], [2, 1]]), top=len(want)), want)
        _check(w, "three by default", m.suggest(w.array([[1, 2], [2, 1]])), want[:3])


@harness([dict()], **OPTS)
def ranking_without_model(w):
    """Without a trained model, by the documented regimes alone."""
    f = _features(w)
    want = _want(w, f, tree=False)
    with _With(w, f) as m:
        if not hasattr(m, "_MODEL"):
            return
        keep, m._MODEL = m._MODEL, None
        try:
            _check(w, "all", m.suggest(w.array([[1, 2], [2, 1]]), top=len(want)), want)
            _check(w, "three by default", m.suggest(w.array([[1, 2], [2, 1]])), want[:3])
        finally:
            m._MODEL = keep


@harness([dict(top=t) for t in list(range(0, 21))], **{**OPTS, "paths": 12, "feas": False})
def lengths(w, top):
    """As many as asked for, if there are that many, and always the first ones of the full ranking."""
    f = _features(w)
    with _With(w, f) as m:
        every = m.suggest(w.array([[1, 2], [2, 1]]), top=100)
        out = m.suggest(w.array([[1, 2], [2, 1]]), top=top)
    w.eq("first ones", [c.__name__ for c in out], [c.__name__ for c in every[:top]])
    w.eq("all of them", sorted(c.__name__ for c in every), sorted(w.mod("precise.registry").estimator_names()))


MODEL = '''
FEATURES = ["sphericity", "p", "avg_excess_kurtosis"]
CLASSES = ["TylerCovariance", "BlockCovariance", "EwaCovariance"]
FEATURE = [0, 2, -2, -2, 1, -2, -2]
LEFT = [1, 2, -1, -1, 5, -1, -1]
RIGHT = [4, 3, -1, -1, 6, -1, -1]
'''


@harness([dict(values=v) for v in ("mixed", "ties", "pure")], **OPTS)
def any_model(w, values):
    """The same for a tree of another shape, every scaling and every threshold: the walk reads the model, and the model
    only."""
    m = types.ModuleType("model")
    exec(MODEL, m.__dict__)
    m.MEAN = [w.var(f"mean{i}") for i in range(3)]
    m.STD = [w.var(f"std{i}", lo=0, strict=True) for i in range(3)]
    m.THRESHOLD = [w.var(f"thr{i}") if m.FEATURE[i] != -2 else w.real(-2) for i in range(7)]
    rows = {"mixed": [[3, 1, 2], [1, 5, 0], [0, 2, 9], [4, 4, 3]], "ties": [[1, 1, 0], [0, 2, 2], [1, 1, 1], [0, 0, 0]],
            "pure": [[7, 0, 0], [0, 7, 0], [0, 0, 7], [7, 0, 0]]}[values]
    m.VALUE = [[0, 0, 0]] * 7
    for leaf, r in zip((2, 3, 5, 6), rows):
        m.VALUE[leaf] = r
    f = _features(w)
    names = w.mod("precise.registry").estimator_names()
    node = 0
    while m.LEFT[node] != -1:
        k = m.FEATURE[node]
        left = w.fork((f[m.FEATURES[k]] - m.MEAN[k]) / m.STD[k] <= m.THRESHOLD[node])
        node = m.LEFT[node] if left else m.RIGHT[node]
    rules, votes = _rules(w, f, names), dict(zip(m.CLASSES, m.VALUE[node]))
    want = sorted(names, key=lambda n: (-votes.get(n, 0), -rules[n]))
    with _With(w, f) as r:
        if not hasattr(r, "_MODEL"):
            return
        keep, r._MODEL = r._MODEL, m
        try:
            _check(w, "all", r.suggest(w.array([[1, 2], [2, 1]]), top=len(want)), want)
        finally:
            r._MODEL = keep


WINDOWS = {"tall": [[1, 2], [2, -1], [0, 1], [-3, 1], [1, 1], [2, 0], [-1, -2], [0, -2], [1, 0]],
           "wide": [[1, 2, 3, 1], [2, 1, 0, 1], [0, 1, 2, 5]],
           "heavy": [[0, 1]] * 4 + [[0, -1]] * 4 + [[9, 0], [-9, 1], [0, 9], [0, -9]],
           "one": [[1], [2], [4]], "constant": [[1, 2], [1, 2], [1, 2]]}


@harness([dict(window=k) for k in ("one",)], la="exact", la_n=3, paths=40, timeout=60)
def end_to_end(w, window):
    """The features the recommender uses are those of the window it is given."""
    X = w.array(WINDOWS[window])
    m = w.mod("precise.recommend")
    f = m.covariance_features(X)
    _check(w, "ranking", m.suggest(X, top=17), _want(w, f))


@harness([dict(p=p) for p in (1, 2)], la="uf", paths=200, timeout=60, feas=True)
def end_to_end_any_window(w, p):
    """The same for every window of three rows (the spectrum left open)."""
    X = w.arr("x", 3, p)
    m = w.mod("precise.recommend")
    f = m.covariance_features(X)
    _check(w, "ranking", m.suggest(X, top=17), _want(w, f))


def _leaves():
    import os
    ns = {}
    p = os.path.join(os.environ.get("VX_REPO", "/repo"), "precise", "_recommender_model.py")
    if os.path.exists(p):
        exec(open(p).read(), ns)
    return [i for i, f in enumerate(ns.get("LEFT", [])) if f == -1]


@harness([dict(leaf=i) for i in _leaves()], paths=2, timeout=30)
def every_leaf_votes(w, leaf):
    """A leaf of a trained tree holds training windows, so it prefers some estimator to another."""
    votes = [_number(v) for v in _model(w).VALUE[leaf]]
    w.check("somebody is preferred", len(set(votes)) > 1)


@harness([dict()], paths=2, timeout=30)
def the_model_is_a_tree_over_the_features(w):
    """Every node but the root has one parent, leaves have a vote per class and the classes are registered estimators."""
    m = _model(w)
    n = len(m.FEATURE)
    for k in ("THRESHOLD", "LEFT", "RIGHT", "VALUE"):
        w.eq("length " + k, len(getattr(m, k)), n)
    kids = [c for i in range(n) for c in (m.LEFT[i], m.RIGHT[i]) if m.LEFT[i] != -1]
    w.eq("children", sorted(kids), list(range(1, n)))
    for i in range(n):
        leaf = m.LEFT[i] == -1
        w.check(f"node {i}", (m.RIGHT[i] == -1) == leaf and (m.FEATURE[i] == -2) == leaf)
        w.check(f"feature {i}", leaf or 0 <= m.FEATURE[i] < len(m.FEATURES))
        w.check(f"later {i}", leaf or (m.LEFT[i] > i and m.RIGHT[i] > i))
        w.eq(f"votes {i}", len(m.VALUE[i]), len(m.CLASSES))
    w.eq("scaling", [len(m.MEAN), len(m.STD)], [len(m.FEATURES)] * 2)
    w.check("scales", all(_number(s) > 0 for s in m.STD))
    w.check("features", all(k in KEYS for k in m.FEATURES))
    w.check("classes", set(m.CLASSES) <= set(w.mod("precise.registry").estimator_names()))


_stub = zoo.Stub


def _trainer(w):
    """The export step of the training script (scikit-learn itself and the simulated worlds replaced)."""
    names = ["sklearn", "sklearn.tree", "research.oos"]
    keep = {n: sys.modules.get(n) for n in names}
    sys.modules["sklearn"] = _stub("sklearn")
    sys.modules["sklearn.tree"] = _stub("sklearn.tree", DecisionTreeClassifier=object)
    sys.modules["research.oos"] = _stub("research.oos", ENSEMBLES={}, _sample=None)
    try:
        return w.mod("research.train_recommender")
    finally:
        for n in names:
            if keep[n] is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = keep[n]


class _File:
    text = None

    def write_text(self, s, **k):
        self.text = s


def _read(w, text):
    """What the written module holds; symbolically, numbers are written as references to their terms."""
    ns = {}
    if w.symbolic:
        from vx import core
        ns["_S"] = lambda i: core._LIST[i]
    exec(text, ns)
    return ns


@harness([dict(nodes=n, fractions=f) for n in (1, 3, 5) for f in (True, False)], paths=40, timeout=60)
def export_keeps_the_votes(w, nodes, fractions):
    """What is exported is the tree that was trained: shape, thresholds, scaling, classes, and the votes of every leaf
    (counts, or fractions in newer scikit-learn)."""
    t = _trainer(w)
    left = {1: [-1], 3: [1, -1, -1], 5: [1, -1, 3, -1, -1]}[nodes]
    right = {1: [-1], 3: [2, -1, -1], 5: [2, -1, 4, -1, -1]}[nodes]
    np = w.np
    feature = np.array([-2 if c == -1 else i for i, c in enumerate(left)], dtype=int)
    thr = [w.var(f"t{i}", lo=-5, hi=5) if c != -1 else w.real(-2) for i, c in enumerate(left)]
    votes = []
    for i in range(nodes):
        a = w.var(f"v{i}", lo=0, hi=1)
        votes.append([[a, 1 - a]] if fractions else [[w.real(3 * i), w.real(7 - i)]])
    mean, std = [w.var(f"m{i}") for i in range(7)], [w.var(f"s{i}", lo=1) for i in range(7)]
    tree = types.SimpleNamespace(feature=feature, threshold=thr, children_left=np.array(left, dtype=int),
                                 children_right=np.array(right, dtype=int), value=w.array(votes))
    import numpy
    clf = types.SimpleNamespace(tree_=tree, classes_=numpy.array(["EwaCovariance", "TylerCovariance"]))
    out = _File()
    keep, t._OUT = t._OUT, out
    if w.symbolic:
        from vx import core
        show, core.Sym.__repr__ = core.Sym.__repr__, lambda s: f"_S({s.id})"
    try:
        t.export(clf, mean, std)
    finally:
        t._OUT = keep
        if w.symbolic:
            core.Sym.__repr__ = show
    ns = _read(w, out.text)
    w.eq("features", list(ns["FEATURES"]), list(t.FEATURES))
    w.eq("classes", list(ns["CLASSES"]), ["EwaCovariance", "TylerCovariance"])
    w.check("plain names", all(type(c) is str for c in ns["CLASSES"]))
    for k, v in (("FEATURE", list(feature)), ("LEFT", left), ("RIGHT", right)):
        w.eq(k, [int(c) for c in ns[k]], [int(c) for c in v])
    close = lambda a, b: abs(w.num(a) - w.num(b)) <= w.frac(1, 10 ** 5)     # noqa: E731
    for i in range(nodes):
        w.check(f"threshold {i}", close(ns["THRESHOLD"][i], thr[i]))
        for j in range(2):
            w.check(f"vote {i} {j}", close(ns["VALUE"][i][j], votes[i][0][j]))
    for i in range(7):
        w.check(f"mean {i}", close(ns["MEAN"][i], mean[i]))
        w.check(f"std {i}", close(ns["STD"][i], std[i]))
