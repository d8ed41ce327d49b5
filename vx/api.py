"""Harness declaration.  Imported by both worlds (symbolic: python3-vt; concrete: /opt/venv)."""
from __future__ import annotations

HARNESSES: dict = {}


class AssumptionFailed(Exception):
    pass


def private_name_gone(e, repo):
    """Why an exception says nothing about the code: the harness asked for a private name (or calling convention of a
    private function it stands in for) that the tree no longer has. None for every other exception."""
    import os
    import traceback
    props = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "props") + os.sep
    tb = [t.filename for t in traceback.extract_tb(e.__traceback__)]
    near = next((f for f in reversed(tb) if f.startswith((repo, props))), "")
    at_harness = near.startswith(props)
    name = (getattr(e, "name", None) or "").split(".")[-1]
    if isinstance(e, (AttributeError, ImportError)) and at_harness and name.startswith("_") and not name.startswith("__"):
        return f"private name {name} is gone: {e}"
    if isinstance(e, TypeError) and "argument" in str(e):
        called = str(e).split("(")[0]
        if at_harness and called.split(".")[-1].startswith("_") and not called.endswith("__"):
            return f"private function called differently: {e}"
        if not at_harness and called.split(".")[0] in HARNESSES and not called.endswith("__"):
            return f"stand-in called differently: {e}"
    return None


class Harness:
    def __init__(self, fn, jobs, opts):
        self.fn, self.jobs, self.opts = fn, jobs, opts
        self.name = fn.__name__


def harness(jobs=None, **opts):
    """opts: la ('uf'|'exact'), partial ('assume'|'fork'), paths, abnormal, feas, timeout (s per job),
    query_ms, required (undecided obligations make the check inconclusive), thorough_only."""
    def deco(fn):
        HARNESSES[fn.__name__] = Harness(fn, jobs if jobs is not None else [{}], opts)
        return fn
    return deco


class Env:
    """What a job list may depend on."""

    def __init__(self, tier, ints, estimators):
        self.tier, self.ints, self.estimators = tier, ints, estimators

    @property
    def thorough(self):
        return self.tier == "thorough"


def job_list(h, env):
    js = h.jobs(env) if callable(h.jobs) else h.jobs
    return [dict(j) for j in js]


def jid(prop, hname, params):
    return f"{prop}/{hname}(" + ",".join(f"{k}={v}" for k, v in params.items()) + ")"
