"""C05: cache entries of other software versions are never reused."""
from __future__ import annotations

import json

from . import cache
from .. import exprs
from .cache import INTERLEAVING, REAL, STUB, child_direct, child_phase, child_uncached, pin, shrink, shrink_schedule  # noqa: F401

SIMS = {"quick": 300, "thorough": 30000}
ZYGOTES = 2
RULE = (
    "One simulation = 2-5 phases on one cache directory; each phase runs 1-3 processes, each with its own release numbers"
    " of Python, SymPy, JAX, AmpForm, AmpForm-DPD, TensorWaves and cloudpickle (upgrades, downgrades, rolling upgrades with"
    " both versions at the same time), which make the same few lambdify requests. Oracle: every entry carries the versions of"
    " its maker; a process with versions that nobody made the request with must do the work itself, must never see the mark of"
    " other versions, and after going back the earlier entry answers. Non-trivial: two different version sets; distinct by script."
)
ASSUMPTIONS = ["a release of Python is a minor release (3.x); development and post-release builds of a package (.dev, .post) count as the release that they are made from, as AmpForm documents", "the version of a package is what importlib.metadata reports"]
BASE = {"ampform": "0.15.10", "ampform-dpd": "0.2.5", "cloudpickle": "3.1.1", "jax": "0.7.2", "sympy": "1.14.0", "tensorwaves": "0.4.14", "python": "3.12.3"}
OTHER = {
    "ampform": ["0.15.11", "0.15.1", "0.16.0", "1.15.10", "0.151.0"],
    "ampform-dpd": ["0.2.6", "0.2.50", "0.3.0", "1.2.5"],
    "cloudpickle": ["3.1.2", "3.1.11", "2.1.1", "3.0.0"],
    "jax": ["0.7.1", "0.6.2", "0.7.20", "1.7.2", "0.72", "0.7.2rc1"],
    "sympy": ["1.13.3", "1.14.1", "1.12.0", "1.14", "11.4.0", "1.140", "1.14.0rc2"],
    "tensorwaves": ["0.4.13", "0.4.15", "0.5.0", "0.4.1"],
    "python": ["3.11.9", "3.13.1", "3.10.3"],
}


def gen(rng, cfg):
    requests = [{**r, "data": 0} for r in exprs.gen_requests(rng, 6, jax=0.3, symbolic=0.0)][: rng.choice([1, 1, 2, 3])]
    if rng.random() < 0.3:
        e = rng.choice(exprs._released(rng))
        e = ["doit", e] if rng.random() < 0.2 else e
        requests.append({"do": "lambdify", "expr": e, "params": rng.choice([None, [["a", 0.5]]]), "backend": rng.choice(["numpy", "numpy", "jax"]), "style": "kw", "data": 0})
    sets = [dict(BASE)]
    for _ in range(rng.choice([1, 2, 3])):
        v = dict(rng.choice(sets))
        for name in rng.sample(list(OTHER), rng.choice([1, 1, 1, 2])):
            v[name] = rng.choice(OTHER[name])
        sets.append(v)
    if rng.random() < 0.15:  # versions swapped between two packages
        v = dict(rng.choice(sets))
        a, b = rng.sample([k for k in OTHER if k != "python"], 2)
        v[a], v[b] = v[b], v[a]
        sets.append(v)
    phases = []
    for p in range(rng.choice([2, 3, 4, 5])):
        nodes = []
        for i in range(rng.choice([1, 1, 2, 3])):
            actions = [dict(rng.choice(requests)) for _ in range(rng.randint(1, 3))]
            nodes.append(cache.node(i, [actions], versions=rng.choice(sets), generation=p))
        phases.append(cache.phase(nodes, cache.gen_node_sched(rng), image=rng.choice([0, 0, 1])))
    cache.gen_time(rng, phases)
    cache.gen_people(rng, phases)
    return {"phases": phases}


def released(script, env) -> dict:
    """Outcomes of requests that mean something else in each release, with caching disabled."""
    todo = {}
    for ph in script["phases"]:
        for nd in ph["nodes"]:
            for a in nd["threads"][0]:
                if '"released"' in json.dumps(a["expr"]):
                    key = json.dumps(nd["versions"], sort_keys=True) + json.dumps(cache.plain(a))
                    todo.setdefault(key, {"actions": [cache.plain(a)], "versions": nd["versions"]})
    outs = env.references("uncached", list(todo.values()))
    return {key: out[0] for key, out in zip(todo, outs)}


def run(script, env):
    refs = cache.uncached(script, env)
    refs.update(released(script, env))
    records = cache.play(script, env)
    found = []
    problem = cache.trouble(script, records)
    if problem:
        found.append({"kind": "blocked", "message": problem})
    made: dict = {}  # (versions, request) -> calls that have begun, in the order of history
    done: set = set()  # completed in an earlier phase: must be found again
    expected = fresh_needed = 0
    for p, (ph, rec) in enumerate(zip(script["phases"], records)):
        finished: set = set()
        in_process: dict = {}
        unclear = [cache.ambiguous([(a, rec["nodes"][i]["threads"][t][j]) for t, actions in enumerate(nd["threads"]) for j, a in enumerate(actions)]) for i, nd in enumerate(ph["nodes"])]
        for i, t, j, what in rec["history"]:
            nd = ph["nodes"][i]
            a = nd["threads"][t][j]
            versions = json.dumps(nd["versions"], sort_keys=True)
            out = rec["nodes"][i]["threads"][t][j] or {}
            equal = cache.equal_key(a, out)
            entry = (versions, cache.entry_key(a, out))
            if what == "begin":
                for key in ((versions, equal), entry):
                    made.setdefault(key, set()).add((p, i, t, j))
                continue
            place = cache.where(p, i, t, j)
            request = json.dumps(cache.plain(a))
            want = refs.get(versions + request, refs[request])
            if "err" in out:
                if "err" not in want:
                    found.append({"kind": "failure", "message": f"{place}: lambdify raised {out['err']}: {out['msg']}; versions {versions}; request {request[:800]}"})
                continue
            why = cache.differs(out, want)
            if why:
                found.append({"kind": "other result", "message": f"{place}: lambdify {why}; versions {versions}; request {request[:800]}"})
            held = bool({equal, entry} & in_process.setdefault(i, set()))
            if out.get("stamp") not in {None, versions}:
                found.append({"kind": "foreign entry", "message": f"{place}: a process with {versions} is served the work of {out['stamp']}; request {request[:800]}"})
            if not held and not (made[versions, equal] | made[entry]) - {(p, i, t, j)}:
                fresh_needed += 1
                if not out["work"]:
                    found.append({"kind": "foreign entry", "message": f"{place}: a process with {versions} gets a result without work, although no process with these versions has asked before; request {request[:800]}"})
            if entry in done and not held:
                expected += 1
                if out["work"]:
                    found.append({"kind": "entry lost", "message": f"{place}: a process with {versions} does the work again, although the entry of these versions exists; request {request[:800]}"})
            if equal not in unclear[i]:
                finished.add(entry)
            in_process[i] |= {equal, entry}
        done |= finished
    v = cache.first(found)
    rec = cache.result(script, records, v, **{"probe:calls that must do the work": fresh_needed, "probe:entries that must be found again": expected})
    n = len({json.dumps(nd["versions"], sort_keys=True) for ph in script["phases"] for nd in ph["nodes"]})
    rec["stats"]["count"]["fault:version changes"] = n - 1
    rec["stats"]["nontrivial"] = n > 1
    return rec
