"""Driver:  python3-vt -m vx.run CID   (tier and seed from VERIF_TIER / VERIF_SEED)."""
from __future__ import annotations

import importlib.util
import json
import os
import resource
import select
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
VENV = os.environ.get("VX_PY", "/opt/venv/bin/python")
for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(k, "1")
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)

from vx import api, load  # noqa: E402


def load_prop(prop):
    api.HARNESSES.clear()
    path = os.path.join(VERIF, "props", prop + ".py")
    spec = importlib.util.spec_from_file_location("props_" + prop, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m, {k: h for k, h in api.HARNESSES.items() if h.fn.__module__ == m.__name__}


def concrete(reqs, timeout=240):
    if not reqs:
        return []
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", VX_REPO=REPO, VX_VERIF=VERIF)
    try:
        p = subprocess.run([VENV, "-m", "vx.conc"], input=json.dumps(reqs), capture_output=True,
                           text=True, cwd=VERIF, env=env, timeout=timeout)
        return json.loads(p.stdout)
    except (subprocess.TimeoutExpired, json.JSONDecodeError) as e:
        if len(reqs) > 1:
            out = []
            for r in reqs:
                out += concrete([r], min(30, timeout))
            return out
        return [{"status": "crash", "fails": [], "nfails": 0, "used": {}, "why": str(e)[:200]}]


def steady(prop, h, params, env, seed, fails, n=5, rel=1e-11):
    """The failures of a run on random inputs that are not rounding noise: they recur, with the same discrepancy, when every
    input moves by a part in 1e11 (a discrepancy that rounding made moves with it; one the code makes does not)."""
    import random
    rng, reqs = random.Random(seed), []
    for i in range(n):
        e = {k: (v if isinstance(v, (int, list)) else v * (1 + rel * rng.uniform(-1, 1))) for k, v in env.items()}
        reqs.append({"prop": prop, "harness": h.name, "params": params, "env": e, "seed": seed})
    runs = [x for x in concrete(reqs, 120) if x["status"] == "ok"]
    out = []
    for f in fails:
        again = [next((g for g in x["fails"] if g["label"] == f["label"]), None) for x in runs]
        if any(g is None for g in again):
            continue
        d = f.get("diff")
        if d and all(v == v for v in d):
            big = max(abs(v) for v in d)
            if any(len(g.get("diff") or []) != len(d) or not max(abs(a - b) for a, b in zip(d, g["diff"])) <= 0.3 * big
                   for g in again):
                continue
        out.append(f)
    return out


EARLY = 100          # seconds after which a confirmed violation ends the exploration


def confirmed(prop, h, params, r, seed, kf):
    """Does a counterexample of this job fail on the real code (known findings aside)?"""
    reqs = [{"prop": prop, "harness": h.name, "params": params, "env": m, "seed": seed * 77 + s}
            for v in r["violated"][:3] for m in v["models"][:2] if m for s in range(4 if h.opts.get("havoc") else 1)]
    return any(x["status"] == "ok" and any(not match_known(kf, h.name, params, f["label"]) for f in x["fails"])
               for x in concrete_all(reqs, 40))


def concrete_all(reqs, timeout):
    """The same on eight processes."""
    step = max(1, (len(reqs) + 7) // 8)
    chunks = [reqs[i:i + step] for i in range(0, len(reqs), step)]
    out = [None] * len(chunks)
    for i, r in Pool(8).map([(i, timeout + 30) for i in range(len(chunks))], lambda i: concrete(chunks[i], timeout)):
        out[i] = r if isinstance(r, list) and len(r) == len(chunks[i]) else \
            [{"status": "crash", "fails": [], "nfails": 0, "used": {}}] * len(chunks[i])
    return [x for c in out for x in c]


class Pool:
    """fork one child per job, hard time limit, result over a pipe."""

    def __init__(self, n):
        self.n = n

    def map(self, jobs, fn):
        """jobs: list of (key, timeout_s).  yields (key, result|None)"""
        pend, live = list(jobs), {}
        try:
            yield from self._run(pend, live, fn)
        finally:
            for key, pid, end, buf in live.values():
                self._kill(pid)

    @staticmethod
    def _kill(pid):
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)

    def _run(self, pend, live, fn):
        while pend or live:
            while pend and len(live) < self.n:
                key, tmo = pend.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        os.close(r)
                        os.setpgid(0, 0)
                        lim = 6 << 30
                        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
                        res = fn(key)
                        with os.fdopen(w, "w") as f:
                            f.write(json.dumps(res))
                    except BaseException as e:  # report the crash of the engine itself
                        import traceback
                        try:
                            with os.fdopen(w, "w") as f:
                                f.write(json.dumps({"crash": f"{type(e).__name__}: {e}",
                                                    "tb": traceback.format_exc()[-1500:]}))
                        except Exception:
                            code = 3
                    finally:
                        os._exit(code)
                os.close(w)
                live[r] = (key, pid, time.time() + tmo, [])
            rd, _, _ = select.select(list(live), [], [], 0.1)
            for r in rd:
                b = os.read(r, 1 << 16)
                key, pid, end, buf = live[r]
                if b:
                    buf.append(b)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del live[r]
                try:
                    yield key, json.loads(b"".join(buf))
                except json.JSONDecodeError:
                    yield key, None
            now = time.time()
            for r in list(live):
                key, pid, end, buf = live[r]
                if now > end:
                    self._kill(pid)
                    os.close(r)
                    del live[r]
                    yield key, None


def known_findings(prop):
    """known_findings.txt: lines  'finding: property=C10 match=<harness>|<params glob>|<label glob> :: text'."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding:") and f"property={prop} " in line:
                head, text = line.split(" :: ", 1)
                out.append({"match": head.split("match=", 1)[1].strip().split("|"), "text": text})
    return out


def match_known(kf, hname, params, label):
    import fnmatch
    ps = ",".join(f"{k}={v}" for k, v in params.items())
    for f in kf:
        h, p, l = f["match"]
        if fnmatch.fnmatchcase(hname, h) and fnmatch.fnmatchcase(ps, p) and \
                fnmatch.fnmatchcase(label.replace("[", "(").replace("]", ")"),
                                    l.replace("[", "(").replace("]", ")")):
            return f
    return None


def main():
    prop = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    verbose = os.environ.get("VX_VERBOSE")
    t0 = time.time()
    budget = float(os.environ.get("VX_BUDGET", "600" if tier == "quick" else "820"))
    mod, hs = load_prop(prop)
    from vx import sym
    import_err = None
    try:
        import precise  # noqa: F401  (symbolic load of the current source)
        ests = sym.importlib.import_module("precise.registry").estimator_names()
    except Exception as e:  # the package itself does not load
        import_err = f"{type(e).__name__}: {e}"
        ests = []
    env = api.Env(tier, load.source_ints(), ests)
    jobs, meta = [], {}
    for h in hs.values():
        if only and only not in h.name:
            continue
        if h.opts.get("thorough_only") and tier != "thorough":
            continue
        for params in api.job_list(h, env):
            k = len(meta)
            meta[k] = (h, params)
            jobs.append((k, h.opts.get("timeout", 100) * (3 if tier == "thorough" else 1)))
    jobs.sort(key=lambda j: -meta[j[0]][0].opts.get("weight", 1))

    # reachability witnesses + validation inputs: the harness on the real code, random inputs
    nval = 2 if tier == "quick" else 6
    reqs, owner = [], []
    for k, (h, params) in meta.items():
        for i in range(nval + 4):
            reqs.append({"prop": prop, "harness": h.name, "params": params, "seed": seed * 1000 + i,
                         "records": i < nval + 4})
            owner.append(k)
    wit: dict = {}
    step = max(1, (len(reqs) + 7) // 8)
    chunks = [(i, reqs[i:i + step]) for i in range(0, len(reqs), step)]
    pool = Pool(8)
    got: dict = {}
    for ci, r in pool.map([(c[0], 240) for c in chunks], lambda c: concrete(dict(chunks)[c])):
        if r is None or isinstance(r, dict):
            r = [{"status": "crash", "fails": [], "nfails": 0, "used": {}}] * len(dict(chunks)[ci])
        for j, x in enumerate(r):
            got[ci + j] = x
    for i, k in enumerate(owner):
        x = got.get(i)
        if x and x["status"] == "ok":
            wit.setdefault(k, []).append(x)
    t_wit = time.time() - t0

    def job(k):
        load.trace_functions()
        h, params = meta[k]
        o = dict(h.opts)
        if tier == "thorough":
            o["query_ms"] = o.get("query_ms", 8000) * 5
            o["timeout"] = o.get("timeout", 100) * 3
            o["paths"] = o.get("paths", 64) * 4
        val = [x["used"] for x in wit.get(k, [])[:nval]] if h.opts.get("validate", True) else []
        r = sym.run_job(h.fn, params, o, seed, val)
        sys.setprofile(None)
        r["touched"] = load.touched()
        return r

    results, kf, suspects = {}, known_findings(prop), []
    failed, tries = False, 6    # a run on random inputs already fails on the real code
    for k, runs in wit.items():
        for x in runs:
            bad = [f for f in x["fails"] if not match_known(kf, meta[k][0].name, meta[k][1], f["label"])]
            if bad and not failed and tries > 0:
                tries -= 1
                failed = bool(steady(prop, *meta[k], x["used"], x.get("seed", seed), bad))
    if import_err is None:
        for k, r in pool.map(jobs, job):
            results[k] = r
            if verbose:
                h, params = meta[k]
                rr = r or {}
                print(f"  [{time.time() - t0:6.1f}s] {api.jid(prop, h.name, params)} "
                      f"paths={rr.get('paths')} obl={rr.get('obligations')} "
                      f"id={rr.get('identical')} nf={rr.get('normal_form')} smt={rr.get('proved')} "
                      f"viol={len(rr.get('violated', []))} und={len(rr.get('undecided', []))} "
                      f"{rr.get('wall_s')}s {rr.get('limits') or ''} {rr.get('engine_error') or ''} "
                      f"{rr.get('crash', '')}{'TIMEOUT' if r is None else ''}", flush=True)
                if rr.get("crash"):
                    print(rr.get("tb"))
            late = time.time() - t0
            if late > budget:
                break
            if r and r.get("violated"):
                suspects.append(k)
            if late > EARLY and (suspects or failed):
                if failed or any([confirmed(prop, *meta[j], results[j], seed, kf) for j in suspects[:4]]):
                    print(f"  stopped after {len(results)} of {len(meta)} jobs: a violation is confirmed")
                    break
                suspects = suspects[4:]

    # ---- verdicts
    violations, known_hit, unconfirmed, inconclusive, undecided = [], {}, [], [], []
    tot = {k: 0 for k in ("paths", "decisions", "obligations", "identical", "normal_form", "proved",
                          "infeasible", "assumed_guards")}
    stats: dict = {}
    touched, limits, validated, disagreements, spurious = set(), {}, 0, [], 0
    samples = []
    replay_dir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(replay_dir, exist_ok=True)
    confirm_reqs, confirm_own = [], []
    for k, r in results.items():
        h, params = meta[k]
        name = api.jid(prop, h.name, params)
        required = h.opts.get("required", True)
        if r is None or r.get("crash"):
            (inconclusive if required else undecided).append(
                f"{name}: " + ("hit its time limit" if r is None else r["crash"]))
            continue
        for f, v in r["stats"].items():
            stats[f] = max(stats.get(f, 0), v) if f == "max_query_s" else round(stats.get(f, 0) + v, 3)
        touched.update(r["touched"])
        if r["limits"]:
            limits[name] = sorted(set(r["limits"]))
        if r["engine_error"]:
            (inconclusive if required else undecided).append(f"{name}: not encodable: {r['engine_error']}")
        if not r["paths"] and not r["engine_error"]:
            inconclusive.append(f"{name}: vacuous (no path completes)")
        if r["undecided"]:
            (inconclusive if required else undecided).append(
                f"{name}: undecided {sorted(set(r['undecided']))[:4]}")
        if not wit.get(k) and r["paths"] and not r["violated"]:
            inconclusive.append(f"{name}: no concrete witness satisfies the assumptions")
        # validation of the encoding against the real code
        for ev in r["evals"]:
            x = wit[k][ev["i"]]
            ok = compare_records(ev["records"], x.get("records", []), h.opts.get("vtol", 1e-4))
            if ok is True:
                validated += 1
            elif ok is not None:
                disagreements.append(f"{name}: {ok}")
        if disagreements and disagreements[-1].startswith(name + ":"):
            r.update(obligations=0, identical=0, normal_form=0, proved=0)   # not believed
        for f in tot:
            tot[f] += r[f]
        if len(samples) < 4 and r["paths"]:
            samples.append({"job": name, "paths": r["paths"], "obligations": r["obligations"],
                            "labels": r["labels"][:6],
                            "symbolic_inputs": len(r["inputs"])})
        for v in r["violated"]:
            cands = v["models"] + [{}]
            for ci, m in enumerate(cands):
                for s in range((8 if h.opts.get("havoc") else 1) if m else 12 if h.opts.get("havoc") else 6):
                    confirm_reqs.append({"prop": prop, "harness": h.name, "params": params,
                                         "env": m, "seed": seed * 77 + s})
                    confirm_own.append((k, v))
    conf = concrete_all(confirm_reqs, 120)
    seen: dict = {}
    for (k, v), req, x in zip(confirm_own, confirm_reqs, conf):
        key = (k, v["label"])
        seen.setdefault(key, [v, None, None])
        if seen[key][1] is None and x["status"] in ("ok",) and x["nfails"]:
            seen[key][1], seen[key][2] = req, x
    # a witness run on the real code that already fails is a replay, too
    for key, (v, req, x) in seen.items():
        k = key[0]
        h, params = meta[k]
        name = api.jid(prop, h.name, params)
        if req is None:
            if v["opaque_abnormal"]:
                spurious += 1
            elif h.opts.get("havoc"):
                undecided.append(f"{name}: {v['label']} (not inductive: the solver's pre-state satisfies the "
                                 "assumed invariant, but no real history reproduces the failure)")
            elif not v.get("feasible", True):
                undecided.append(f"{name}: {v['label']} (reachability of the path undecided, and no "
                                 "concrete run reproduces it)")
            else:
                unconfirmed.append(f"{name}: {v['label']} (counterexample not reproduced on the real code)")
            continue
        bad = []
        for f in x["fails"]:
            km = match_known(kf, h.name, params, f["label"])
            if km:
                known_hit[km["text"]] = f"{f['label']}: {f['detail']}"
            else:
                bad.append(f)
        if bad and not req["env"]:
            bad = steady(prop, h, params, x["used"], req["seed"], bad)
            if not bad:
                undecided.append(f"{name}: {v['label']} (rounding noise on an ill-conditioned input)")
        if not bad:
            continue
        path = os.path.join(replay_dir, f"{prop}-{len(violations)}.json")
        with open(path, "w") as fh:
            json.dump({"property": prop, "harness": h.name, "params": params, "env": req["env"],
                       "seed": req["seed"], "solver_label": v["label"], "fails": bad,
                       "inputs": x["used"]}, fh, indent=1)
        violations.append((name, bad[0], path))

    # a validation run of the same obligations that fails on the real code is a failing input, too
    for k, runs in wit.items():
        h, params = meta[k]
        name = api.jid(prop, h.name, params)
        if any(v[0] == name for v in violations):
            continue
        for x in runs:
            bad = []
            for f in x["fails"]:
                km = match_known(kf, h.name, params, f["label"])
                if km:
                    known_hit[km["text"]] = f"{f['label']}: {f['detail']}"
                else:
                    bad.append(f)
            if bad:
                found, bad = bad, steady(prop, h, params, x["used"], x.get("seed", seed), bad)
                if not bad:
                    undecided.append(f"{name}: {found[0]['label']} (rounding noise on an ill-conditioned input)")
            if bad:
                path = os.path.join(replay_dir, f"{prop}-{len(violations)}.json")
                with open(path, "w") as fh:
                    json.dump({"property": prop, "harness": h.name, "params": params, "env": x["used"],
                               "seed": x.get("seed", seed), "solver_label": "validation run", "fails": bad,
                               "inputs": x["used"]}, fh, indent=1)
                violations.append((name, bad[0], path))
                break
    wall = time.time() - t0
    discharged = tot["identical"] + tot["normal_form"] + tot["proved"]
    doc = (mod.__doc__ or "").strip()
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["decisions"],
            "traces_validated_against_impl": validated,
            "samples": samples,
            "jobs": len(meta), "jobs_finished": sum(1 for r in results.values() if r and not r.get("crash")),
            "obligations": tot["obligations"], "discharged": discharged,
            "discharged_identical_terms": tot["identical"],
            "discharged_normal_form": tot["normal_form"],
            "discharged_by_solver": tot["proved"],
            "solver": {"queries": stats.get("queries", 0), "solver_s": stats.get("solver_s", 0),
                       "unsat": stats.get("unsat", 0), "sat": stats.get("sat", 0),
                       "unknown": stats.get("unknown", 0), "max_query_s": stats.get("max_query_s", 0)},
            "infeasible_paths": tot["infeasible"],
            "definedness_assumptions": tot["assumed_guards"],
            "functions_encoded": sorted(touched),
            "bounds": doc, "bounds_hit": limits,
            "undecided": undecided, "unconfirmed": unconfirmed, "inconclusive": inconclusive,
            "encoding_disagreements": disagreements,
            "spurious_opaque_counterexamples": spurious,
            "reachability_witnesses": sum(len(v) for v in wit.values()),
            "known_findings_reported": sorted(known_hit),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + GLOBAL_ASSUMPTIONS,
        "wall_s": round(wall, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for text in known_hit:
        print(f"KNOWN-FINDING: property={prop} {text}")
    print(f"{prop} [{tier}] {len(meta)} jobs, {tot['paths']} paths, {discharged}/{tot['obligations']} "
          f"obligations discharged ({tot['identical']} identical, {tot['normal_form']} normal form, "
          f"{tot['proved']} solver), {stats.get('queries', 0)} queries {stats.get('solver_s', 0)}s, "
          f"{validated} validation traces, {len(undecided)} undecided, {wall:.1f}s "
          f"(witness {t_wit:.1f}s)")
    for u in undecided:
        print("  undecided:", u[:300])
    if violations:
        for name, f, path in violations[:5]:
            print(f"  {name}: {f['label']}: {f['detail']}")
        print(f"VIOLATION property={prop} replay={violations[0][2]}")
        return 1
    if import_err:
        print("  the package does not load:", import_err)
        return 2
    for b in inconclusive[:10]:
        print("  UNDECIDED", b[:400])
    for u in unconfirmed:
        print("  UNDECIDED", u[:400])
    for u in disagreements:
        print("  UNDECIDED encoding disagreement:", u[:400])
    bad = []
    if not discharged:
        bad.append("nothing was decided")
    if len(results) < len(meta):
        print(f"  UNDECIDED {len(meta) - len(results)} jobs not run within the time budget")
    if bad:
        for b in bad[:10]:
            print("  INCONCLUSIVE", b[:400])
        return 2
    return 0


def compare_records(a, b, tol=1e-4):
    """True if the evaluated terms equal the real run's values; None if not comparable."""
    db: dict = {}
    for l, v in b:
        db.setdefault(l, []).append(v)
    n = 0
    for l, v in a:
        if l not in db or not db[l]:
            continue
        x = db[l].pop(0)
        if len(x) != len(v):
            return f"{l}: sizes {len(v)} vs {len(x)}"
        sc = max([1e-6] + [abs(t) for t in x if t == t and abs(t) != float("inf")])
        for p, q in zip(v, x):
            if p != p and q != q or p == q:
                continue
            if not abs(p - q) <= tol * sc:
                return f"{l}: encoding {p!r} vs real {q!r}"
        n += 1
    return True if n else None


GLOBAL_ASSUMPTIONS = [
    "Floating point is modelled by exact real arithmetic; rounding, overflow and underflow are outside "
    "the claim (every counterexample is replayed in IEEE doubles on the real code before it is reported).",
    "numpy is modelled by /verif/vx/npx.py; linalg routines are opaque functions of their operands or "
    "obey their textbook contract, as stated per harness.",
    "Divisions, square roots and logarithms are assumed defined on the paths explored unless the "
    "harness says partial='fork', in which case the undefined branch is explored too.",
]

if __name__ == "__main__":
    sys.exit(main())
