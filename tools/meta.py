"""Writes properties.jsonl and MANIFEST.json from the one list below (run after editing it)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), note=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                  why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                           "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                           "observe_at": list(observe), "hook_needed": None}, note=note))


EST = ["precise/base.py", "precise/_state.py", "precise/registry.py"]

prop("C01", "Batch and streaming fits of the same observations agree",
     "Fitting any shipped estimator on a batch, feeding the same rows one at a time, and feeding them in any chunks give "
     "the same covariance, mean and counts. A refit discards everything learned before. There is no look-ahead and no "
     "dependence on how the stream was cut.",
     ["inputs", "histories", "configurations"],
     "every estimator and structural variant, every real data value, every split of the stream, before, at and after the end of the burn-in",
     "The tests compare one random batch with its rows; how the stream is cut and what was fitted before is never varied.",
     EST, [("partial_fit loops over rows, fit resets and delegates", "precise/base.py")],
     ["covariance_", "location_", "n_samples_"])
prop("C02", "A JSON checkpoint resumes as if never interrupted",
     "Taking an estimator's state at any point of a stream, passing it through JSON and restoring it into a fresh or a "
     "used estimator of the same configuration continues exactly as the uninterrupted one. That includes the burn-in, "
     "estimators of first differences and checkpoints taken before any data.",
     ["inputs", "histories", "crash_points", "configurations"],
     "every estimator and variant, every checkpoint position, levels and differences, and arbitrary states after any number of observations",
     "A test restores once, after one random stream; a lost or re-typed entry shows only for particular configurations and cut points.",
     EST, [("get_state / set_state", "precise/base.py")], ["get_state()", "covariance_ after resume"],
     [("state dict", "the whole memory of an estimator", "BaseOnlineCovariance._state")])
prop("C03", "Pickled and deep-copied estimators carry on where the original was",
     "Pickling or deep-copying any estimator, composed estimator or keyed adapter at any point of a stream gives an "
     "independent object that continues exactly as the original. Neither continues to influence the other.",
     ["inputs", "histories", "crash_points", "configurations"],
     "every estimator, variant, composition and adapter, every copy position",
     "The tests pickle each estimator once after a full stream; sub-models of compositions and the position of the copy are not varied.",
     EST + ["precise/conditional.py", "precise/keyed.py"],
     [("__getstate__ / __setstate__", "precise/base.py, precise/conditional.py")], ["covariance_", "location_"])
prop("C04", "The empirical estimator is the exact sample mean and population covariance",
     "After any number of observations, fed in any chunks, the empirical estimator's mean is the sample mean and its "
     "covariance the population (divide by n) covariance of everything seen. It equals the batch formula for every history.",
     ["inputs", "histories"], "every real history of 1..14 observations in 1-3 dimensions; one step from any state after any n",
     "Tests compare one random sample with numpy within a tolerance; they cannot show the recursion is the formula for every history.",
     ["precise/empirical.py", "precise/_state.py"], [("Welford recursion", "precise/_state.py emp_update")],
     ["covariance_", "location_"])
prop("C05", "Exponential weighting: burn-in average, then the exact recursion",
     "The exponentially weighted estimator averages plainly for clamp(ceil(1/r), 5, 250) observations and from then on "
     "updates mean and covariance as (1-r) old + r new, the innovation measured about the previous mean. The recency-weighted "
     "estimators that share its mean follow it exactly.",
     ["inputs", "histories", "configurations"], "every data value, every rate in (0,1], any number of earlier observations",
     "Tests check recency qualitatively; the exact weights, the burn-in length and its boundary are not pinned for any input.",
     ["precise/ewa.py", "precise/_state.py"], [("burn-in length and update", "precise/_state.py ewa_burn_n, ewa_update")],
     ["covariance_", "location_"])
prop("C06", "Covariances are symmetric, finite and positive semi-definite",
     "From the first observation on, every estimator reports a finite, exactly symmetric, positive semi-definite covariance, "
     "for every stream of real observations. Constant, repeated, collinear and all-zero observations are no exception.",
     ["inputs", "histories", "configurations"], "every estimator and variant, every data value incl. degenerate streams, any rate / intensity / cutoff in range",
     "Tests look at eigenvalues of estimates from a few Gaussian samples; near-singular and degenerate streams and extreme parameters are not covered.",
     EST + ["precise/_linalg.py", "precise/huber.py", "precise/tyler.py", "precise/shrunk.py"],
     [("convex updates, spectral floors, symmetrisation", "precise/*.py")], ["covariance_"])
prop("C07", "Correlations are the normalised covariances, at every scale",
     "The correlation matrix of any estimate is its covariance divided by the standard deviations: symmetric, unit diagonal, "
     "entries in [-1, 1], unchanged by rescaling any variable by any positive factor. A variable that never varied has zero "
     "correlation with the others.",
     ["inputs", "configurations"], "every positive semi-definite matrix of size 1-4 at any scale, every estimator",
     "Tests check the diagonal of well-scaled random estimates only.",
     ["precise/_linalg.py", "precise/base.py"], [("cov_to_corrcoef", "precise/_linalg.py")], ["correlation_"])
prop("C08", "Precision, Mahalanobis distance and score agree with the covariance",
     "The precision is the inverse of a non-singular covariance, and finite and symmetric otherwise. Squared Mahalanobis "
     "distances are its quadratic form about the mean, row by row, and the score is the mean Gaussian log-likelihood under it.",
     ["inputs", "configurations"], "every symmetric matrix up to 3 x 3, every estimator after 1-7 observations, any scored rows",
     "Tests compare scores with one hand example; singular estimates and row independence are not covered.",
     ["precise/base.py", "precise/_linalg.py", "precise/block_covariance.py", "precise/diagonal.py"],
     [("try_invert, mahalanobis, score", "precise/_linalg.py, precise/base.py")],
     ["precision_", "mahalanobis()", "score()"])
prop("C09", "Estimating on differences equals estimating the differenced stream",
     "An estimator asked to work on first differences of a stream of levels gives exactly what the plain estimator gives on "
     "the differences computed beforehand, one observation fewer. This holds however the levels are cut into batches and "
     "across checkpoints and reads.",
     ["inputs", "histories", "configurations"], "every estimator and variant, every data value, every split",
     "Tests difference one random walk in one batch.",
     EST, [("previous level kept across calls", "precise/base.py partial_fit")], ["covariance_", "location_", "n_samples_"],
     [("previous level", "last level seen", "BaseOnlineCovariance._prev_x")])
prop("C10", "Estimates respect shifts, reflections, units and variable order",
     "Adding a constant to the stream moves the mean by it and leaves the covariance alone; negating the stream negates the "
     "mean only. Estimators without an absolute floor scale with the units of the variables, and those without an ordering of "
     "the variables commute with permuting them.",
     ["inputs", "histories", "configurations"], "every data value, shift, positive scale and permutation, every estimator it applies to",
     "Metamorphic relations over all inputs; the tests use mean-zero Gaussian data of unit scale.",
     EST + ["precise/diagonal.py", "precise/dcc.py", "precise/factor.py", "precise/tyler.py", "precise/partialmoments.py"],
     [("innovation about the running mean", "precise/*.py")], ["covariance_", "location_"])
prop("C11", "Reads never disturb, arrays are never shared, instances are independent",
     "Reading any fitted quantity any number of times changes nothing, and writing into anything passed to or returned by an "
     "estimator never changes its estimate. Two estimators, or two adapters or compositions built from the same template, never "
     "influence each other, and the template is never fitted.",
     ["inputs", "histories", "configurations"], "every estimator, variant, composition and adapter, every public read and array, every interleaving of two instances",
     "Aliasing shows only when a caller reuses a buffer or keeps a result; tests never do.",
     EST + ["precise/keyed.py", "precise/conditional.py"], [("copies at the boundary, fresh state per update", "precise/base.py")],
     ["covariance_", "location_", "get_state()"])
prop("C12", "The fitting contract: unfitted reads, widths, counts, malformed input",
     "Before any observation every fitted quantity raises a not-fitted ValueError; afterwards counts and shapes match the data "
     "seen. Observations of another width, or arrays that are neither one row nor a table, are refused with a ValueError and "
     "leave the estimate untouched. Lists, tuples, integers and strided arrays mean the same as float arrays.",
     ["inputs", "histories", "configurations"], "every estimator and variant, dimension 1-4, every listed kind of input",
     "Tests try one malformed call on a few estimators and never look at the state afterwards.",
     EST + ["precise/_conventions.py"], [("as_rows and the width check", "precise/_conventions.py, precise/base.py")],
     ["exceptions", "n_samples_", "n_features_in_"])
prop("C13", "Memory does not grow with the stream",
     "What an estimator, composition or keyed adapter over unchanging names holds after the first few observations stays the "
     "same size however long the stream. The block-diagonal estimator holds only its blocks and the factor estimator only its "
     "directions, never a full matrix.",
     ["inputs", "histories", "configurations"], "every estimator and variant, levels and differences, across the end of the burn-in",
     "Tests run short streams and never measure what is held.",
     EST + ["precise/block_covariance.py", "precise/factor.py", "precise/keyed.py"],
     [("plain-dict state of fixed keys", "precise/*.py _init_state/_update_state")], ["size of the object graph"])
prop("C14", "Constructor parameters round-trip and rebuild the same estimator",
     "Reading the parameters gives exactly what the constructor received, before and after fitting; rebuilding from them, from "
     "the printed form, or by setting them gives an estimator that behaves identically on every stream. Fitting never changes a "
     "parameter, and the defaults are the documented ones.",
     ["inputs", "configurations"], "every estimator, every parameter value in range",
     "Tests check defaults only.",
     ["precise/base.py", "precise/conditional.py"], [("get_params / set_params / __repr__", "precise/base.py")],
     ["get_params()", "repr()"])
prop("C15", "Linear shrinkage follows its published formula",
     "The Ledoit-Wolf, OAS and constant-shrinkage estimators report (1-d) S + d T with S the running sample covariance, T their "
     "documented target and d their documented intensity clipped to [0, 1]. The trace is kept, d=0 gives S, d=1 gives T, and the "
     "mean is the exponentially weighted one.",
     ["inputs", "histories", "configurations"], "every data value, every intensity in [0,1], any state",
     "Tests check that shrinkage is between the extremes for one sample.",
     ["precise/ledoitwolf.py", "precise/oas.py", "precise/shrunk.py"],
     [("shrinkage intensity and target", "precise/ledoitwolf.py, precise/oas.py, precise/shrunk.py")], ["covariance_"])
prop("C16", "Schur damping interpolates between block-diagonal and full covariance",
     "The Schur estimators keep every within-block entry and damp cross-block coupling by gamma: 1 gives the underlying "
     "estimate, 0 its block-diagonal part, and in between the documented linear, geodesic or conditional interpolation. Blocks are "
     "contiguous and near-equal, for any number of blocks including one and more than there are variables.",
     ["inputs", "histories", "configurations"], "every data value, gamma in [0,1], block counts 1..5, dimension 1-4",
     "Tests check gamma=1 and PSD of a few samples.",
     ["precise/schurcov.py", "precise/schur_conditional.py", "precise/schur_ledoit_wolf.py", "precise/_linalg.py"],
     [("block partition and damping", "precise/schurcov.py, precise/schur_conditional.py")], ["covariance_"])
prop("C17", "The block-diagonal estimator is one independent estimator per block",
     "Its covariance restricted to each contiguous block is what a separate exponentially weighted estimator gives on those "
     "variables alone, and exactly zero across blocks. One block gives the full estimator, as many blocks as variables the "
     "diagonal of it.",
     ["inputs", "histories", "configurations"], "every data value, dimension 1-5, block counts 1..6",
     "Tests check zeros off the blocks for one sample.",
     ["precise/block_covariance.py"], [("per-block EWA state", "precise/block_covariance.py")], ["covariance_", "precision_"])
prop("C18", "Robust and adaptive estimators follow their influence rules",
     "The Huber estimator treats an observation beyond its cutoff as its projection onto the cutoff and any other as the plain "
     "exponentially weighted estimator does; the adaptive one raises its forgetting rate with smoothed surprise between its "
     "baseline and its cap. Tyler's estimator depends on the direction of innovations only and is reported as a correlation.",
     ["inputs", "histories", "configurations"], "every observation, cutoff, cap and rate in range, from any state with a non-singular estimate",
     "Tests show that one outlier matters less; where the cutoff is and what happens exactly at and beyond it is not pinned.",
     ["precise/huber.py", "precise/adaptive.py", "precise/tyler.py"],
     [("Mahalanobis weight, surprise, direction scatter", "precise/huber.py, precise/adaptive.py, precise/tyler.py")],
     ["covariance_", "location_"])
prop("C19", "Conditional correlation recombines separate volatilities and correlation",
     "The dynamic conditional estimator's variances are exponentially weighted at the volatility rate, its correlation is that "
     "of the standardised innovations weighted at the correlation rate, recombined as H = D R D. The composed estimator does the same with "
     "any volatility model and any correlation estimator, standardising each observation by the forecast made before it was seen.",
     ["inputs", "histories", "configurations"], "every data value, both rates, every pairing of volatility and correlation models",
     "Tests check shapes and one qualitative comparison; nothing pins which forecast standardises which observation.",
     ["precise/dcc.py", "precise/conditional.py"],
     [("per-series variance and quasi-correlation", "precise/dcc.py"), ("one-step-ahead standardisation", "precise/conditional.py")],
     ["covariance_", "correlation_", "location_"])
prop("C20", "The factor estimator is low rank plus diagonal and matches total variance",
     "Its off-diagonal part is that of a positive semi-definite matrix of at most k dimensions, and its diagonal is the "
     "running variance of each variable, or the captured variance where that is larger. The directions follow the documented "
     "incremental principal-component recursion.",
     ["inputs", "histories", "configurations"], "every data value, k from 1 to beyond the dimension, any rate",
     "Tests compare the leading direction on one simulated factor model.",
     ["precise/factor.py"], [("CCIPCA update with deflation, residual diagonal", "precise/factor.py")], ["covariance_"])
prop("C21", "Geodesic and partial-moment estimators follow their geometry",
     "The geodesic estimator moves, after its plain-average burn-in, a fraction r along the affine-invariant geodesic to the outer "
     "product of the innovation: a weighted geometric mean in one dimension. The partial-moment estimator's "
     "four sign quadrants add up to the exponentially weighted scatter of the innovations, and each pair contributes to exactly one.",
     ["inputs", "histories", "configurations"], "every data value and rate, dimension 1-2",
     "Tests check positive definiteness of a few samples.",
     ["precise/geodesic.py", "precise/partialmoments.py", "precise/_linalg.py"],
     [("geodesic_step", "precise/_linalg.py"), ("quadrant scatter", "precise/partialmoments.py")], ["covariance_"])
prop("C22", "A fixed named universe is its positional estimator with names",
     "The fixed keyed adapter gives what the wrapped estimator gives on the vectors in key order, whatever the order of the names in each "
     "observation; names outside the universe are ignored. Missing names are imputed by the last seen value, the running mean or zero as "
     "configured, and querying any subset in any order selects those rows and columns.",
     ["inputs", "histories", "configurations"], "every value, every pattern of missing names over streams of up to 8 observations, every imputation mode, every query",
     "Tests use one missing key once; patterns of missing and reordered names are not explored.",
     ["precise/keyed.py"], [("update / cov_array", "precise/keyed.py FixedUniverse")], ["covariance_", "get_cov()", "learn_one()"],
     [("last seen values", "forward-fill memory", "FixedUniverse")])
prop("C23", "A changing universe reads each pair from the right sub-estimator, bounded",
     "The changing keyed adapter keeps one estimator per distinct set of names, feeds it every observation containing all of them, and reads "
     "each pair from the longest-lived, then least-stale one containing both; pairs never seen together get the mean off-diagonal and the "
     "result is projected to a positive-definite matrix. Sets unused for more than the staleness limit are dropped, never more than "
     "the maximum are kept, and the set just observed is always among them.",
     ["inputs", "histories", "configurations"], "every sequence of key sets over up to 3 names and 5 observations, every value, limits 1..3",
     "Eviction and selection depend on the whole history of key sets; tests run one hand-picked sequence.",
     ["precise/keyed.py"], [("update / cov_array", "precise/keyed.py DynamicUniverse")], ["covariance_", "get_cov()"],
     [("universes", "per key-set estimator, staleness, longevity", "DynamicUniverse.states")])
prop("C24", "Keyed output is consistently labelled across every surface",
     "The dict, array and data-frame forms of a keyed adapter's covariance hold the same numbers under the same labels, symmetric in the "
     "labels; the correlation is the normalised covariance with unit diagonal. Learning one by one equals learning many, reading never changes what is "
     "learned, and the front door builds the adapter asked for with its options.",
     ["inputs", "histories", "configurations"], "every value, every order of names and query, both adapters, all factory forms",
     "Tests check key sets of one result.",
     ["precise/keyed.py"], [("_KeyedAdapter surface, keyed()", "precise/keyed.py")],
     ["covariance", "covariance_", "correlation_", "get_cov", "get_corr", "to_frame"])
prop("C25", "Every assessor computes its published score",
     "Gaussian, block-composite and Schur likelihoods, Stein loss, relative Frobenius distance, minimum-variance portfolio variance and "
     "variogram score equal their published formulas for every covariance and sample. One block of full size and gamma 1 give the full likelihood, gamma 0 and "
     "matching blocks the block-composite one (up to the documented eigenvalue floor).",
     ["inputs", "configurations"], "every positive-definite covariance of size 1-3, every sample of 1-4 rows, every gamma and block size",
     "Tests check orderings on simulated data only.",
     ["precise/assessment/assessors.py"], [("score methods", "precise/assessment/assessors.py")], ["score()"])
prop("C26", "Assessors prefer the truth, in the direction and units documented",
     "Higher is better for every assessor: no covariance scores above the sample second moment on the likelihood and Stein judges, none above the truth on the distance "
     "judge, and the minimum-variance judge is unaffected by the overall scale of the estimate. Scores do not depend on the order of samples or "
     "variables, and each assessor's declared needs say exactly what it uses.",
     ["inputs", "configurations"], "every covariance and sample of size 1-2 (order and flags: up to 3)",
     "Properness quantifies over all competitors; tests compare two.",
     ["precise/assessment/assessors.py", "precise/assessment/base.py"], [("score, usable", "precise/assessment")], ["score()", "usable()"])
prop("C27", "The recommender ranks all estimators by trained vote, then rules",
     "For every data window the recommender returns the requested number of distinct registered estimator classes, best first: by the "
     "trained tree's vote for the window's features, ties by the documented regime rules, then registry order. The tree is walked from the "
     "standardised features to the leaf whose conditions they satisfy, and shorter requests are prefixes of longer ones.",
     ["inputs", "configurations"], "every feature vector (all leaves of the tree), every requested length",
     "Tests look at three windows; which leaf a window reaches and how ties resolve is not covered.",
     ["precise/recommend.py", "precise/_recommender_model.py"], [("suggest, _trained_weights, _scores", "precise/recommend.py")], ["suggest()"])
prop("C28", "Data features are in range, observable and invariant",
     "For every finite data window the features are finite and in range: effective rank in [1, p], sphericity in (0, 1], condition number at least 1, "
     "mean absolute correlation in [0, 1], excess kurtosis at least -3 (-2 above the variance floor 1e-12). They depend only on the window, not on where it is centred, the order of its rows or variables, "
     "and the shape features not on its unit.",
     ["inputs"], "every window of 1-4 rows and 1-3 variables incl. constant columns",
     "Tests look at Gaussian windows of ordinary scale.",
     ["precise/recommend.py"], [("covariance_features", "precise/recommend.py")], ["covariance_features()"])
prop("C29", "The registries, the public names and the lookup agree",
     "Every registered estimator and assessor is public, found by its own name and by no other, default-constructible and usable; unknown names raise a KeyError. "
     "Changing a returned list changes nothing, and importing the removed functional interface fails with a message naming the replacement.",
     ["inputs", "configurations"], "every string as a name; every registered class",
     "Tests look up one known and one unknown name.",
     ["precise/registry.py", "precise/assessment/registry.py", "precise/__init__.py", "precise/skaters/__init__.py"],
     [("lookup", "precise/registry.py, precise/assessment/registry.py")], ["all_estimators()", "estimator_from_name()"])
prop("C30", "Matrix helpers keep their contracts",
     "Flooring returns a positive-definite matrix and leaves one that already is alone; the nearest positive-definite matrix of a positive-definite one is itself; a "
     "geodesic step starts at its start and, for numbers and commuting matrices, reaches its end at 1 through the weighted geometric mean. Inversion inverts, and ridge shrinkage keeps "
     "its trace formula.",
     ["inputs"], "every symmetric matrix of size 1-2 (diagonal and opaque-spectrum cases to 3), every fraction in [0,1]",
     "Tests try a few matrices.",
     ["precise/_linalg.py"], [("helpers", "precise/_linalg.py")], ["return values"])
prop("C31", "The documented closed forms of the research models are exact",
     "The worked two-block model's closed-form maximiser is the stationary point it claims to be and is a covariance exactly when its threshold says so; "
     "the exact Kullback-Leibler divergences, chain likelihoods, canonical correlations and optimal coupling have their published values. The population score gap, its "
     "gradient and the delta-method standard error equal their definitions for any covariance.",
     ["inputs"], "every parameter value in range; canonical correlations of every positive-definite covariance of 2-3 variables; delta method for one and two variables",
     "The scripts spot-check by Monte Carlo; nothing runs them in the tests.",
     ["research/schur_likelihood_theory.py", "research/schur_gamma_star.py", "research/metric_power.py", "research/schur_godambe.py", "research/schur_spiked.py"],
     [("closed forms", "research/*.py")], ["return values"])

prop("C32", "Out-of-sample evaluations never leak and report the winner",
     "Every recorded evaluation fits estimators and asks the recommender on the training window only and judges them on the window after it (or an independent "
     "sample). Nothing chosen or trained for a held-out family sees that family. Ranks, averages, named winners and realised risks follow from the recorded scores.",
     ["inputs", "configurations"], "every return matrix of 5-8 rows and 2 assets, 2-3 estimators with any covariance and score, 1-3 families, any random choice",
     "The research evaluations are not exercised by the tests at all.",
     ["research/oos.py", "research/oos_equity.py", "research/bakeoff.py", "research/train_recommender.py"],
     [("evaluation loops", "research/oos.py, research/oos_equity.py, research/bakeoff.py, research/train_recommender.py")], ["return values", "report()"])

prop("C33", "Judge-power experiments count what they claim",
     "In the judge-power experiments both estimates of a pair meet the same sample, directions and subspaces, test sets of increasing size are nested, and power is "
     "exactly the share of counted trials in which the judge strictly prefers the estimate that is really better. Projected, damped and block-composite likelihoods equal "
     "their definitions and leave the estimate alone; the report lists judges by mean power. The Godambe experiments perturb, whiten and count the same way.",
     ["inputs", "configurations"], "1-2 trials, test sizes 1-3, two judges with any scores, dimension 2-5, any draws and divergences",
     "The experiments behind the documented metric choice are run by tests only as smoke checks with fixed seeds.",
     ["research/metric_power.py", "research/schur_godambe.py", "research/schur_spiked.py"],
     [("power experiments and likelihood variants", "research/metric_power.py")], ["return values", "report()"])

NA = []
exec(open(os.path.join(V, "tools", "extra.py")).read()) if os.path.exists(os.path.join(V, "tools", "extra.py")) else None

NOTE = ("The real functions are executed symbolically from /repo's current source; every obligation is discharged over all real inputs within "
        "the stated bounds (identical terms, exact normal form, or z3/cvc5), counterexamples are replayed on the real code. "
        "Floats are modelled as reals; numpy by a model validated against real numpy in every run. Bounds: ")


def main():
    have = [p for p in P if os.path.exists(os.path.join(V, "props", p["id"] + ".py"))]
    na = {n["property"] for n in NA}
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            if p in have or p["id"] in na:
                f.write(json.dumps({k: v for k, v in p.items() if k != "note"}) + "\n")
    checks = []
    for p in have:
        cmd = f"python3-vt -m vx.run {p['id']}"
        checks.append(dict(property=p["id"], quick_cmd=cmd, thorough_cmd="VERIF_TIER=thorough " + cmd,
                           technique="symbolic execution of the real Python source with SMT (z3, cvc5)",
                           level="model_checking", level_note=NOTE + p["quantifier"]["text"] + ". " + p["note"]))
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3, cvc5, numpy'", checks=checks, not_applicable=NA), f, indent=1)
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]


main()
