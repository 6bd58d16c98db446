"""C04: completed cached results are durable and are found again after a restart."""
from __future__ import annotations

import json

from . import cache
from .. import exprs
from .cache import INTERLEAVING, REAL, STUB, child_direct, child_phase, child_uncached, pin, shrink, shrink_schedule  # noqa: F401

SIMS = {"quick": 420, "thorough": 30000}
ZYGOTES = 8
RULE = (
    "One simulation = 2-4 phases on one cache directory; each phase runs 1-3 new processes (1-2 threads) under another hash"
    " seed, working directory and spelling of the same cache directory, which make requests in another order and mixture;"
    " processes and threads of a phase interleave, some are killed or interrupted at any file operation or call (also half-way"
    " through writing an entry), entries are spread or all in one subdirectory, clocks jump. Oracle: a request (identified by its pickle, as in the cache) that was"
    " completed in an earlier phase is answered without performing the operation (number of calls of sympy.lambdify / doit)."
    " Non-trivial: at least one request was completed in an earlier phase; distinct by script."
)
ASSUMPTIONS = [
    "an entry that a process was about to write when it was killed or interrupted does not count as completed in that phase",
    "requests whose pickles differ between processes are not expected to find each other's entries (known finding)",
    "a process that holds the answer of an equal request (1 == 1.0) in memory is not expected to leave another entry",
]
DEATHS = {"crash", "crash_after", "crash_mid", "interrupt"}
CHANGED = "request pickles differently in another process"


def gen(rng, cfg):
    requests = exprs.gen_requests(rng, rng.choice([1, 2, 3, 5]), jax=0.15, symbolic=0.25, models=0.2 if rng.random() < 0.3 else 0)
    requests = [r for r in requests if r["do"] in {"lambdify", "doit"}]
    while not requests:
        requests = [r for r in exprs.gen_requests(rng, 3, jax=0.15, symbolic=0.2) if r["do"] in {"lambdify", "doit"}]
    phases = []
    for p in range(rng.choice([2, 2, 3, 4])):
        nodes = []
        for i in range(rng.choice([1, 1, 1, 2, 3])):
            actions = [dict(rng.choice(requests)) for _ in range(rng.randint(1, 5))]
            if rng.random() < 0.25:
                actions += [r for r in exprs.gen_requests(rng, 2, jax=0.1) if r["do"] in {"lambdify", "doit"}]
                rng.shuffle(actions)
            if rng.random() < 0.03:
                actions.insert(rng.randrange(len(actions) + 1), {"do": "crowd", "n": rng.choice([20, 60, 150])})
            nd = cache.node(i, cache.split(rng, actions, rng.choice([1, 1, 1, 2])), sched=cache.gen_thread_sched(rng), generation=p, seed_noise=rng.getrandbits(30))
            x = rng.random()
            if x < 0.2:
                nd["env"]["COMPWA_CACHE_DIR"] = "$ROOT/home/../cache"
            elif x < 0.35:
                nd["env"]["COMPWA_CACHE_DIR"] = "../cache"
            elif x < 0.5:
                del nd["env"]["COMPWA_CACHE_DIR"]
                nd["env"]["XDG_CACHE_HOME"] = "$ROOT/cache"
            elif x < 0.6:
                nd["cwd"] = "$ROOT/cache"
            nodes.append(nd)
        phases.append(cache.phase(nodes, cache.gen_node_sched(rng), image=rng.randrange(8)))
    if rng.random() < 0.4:  # processes that die or are interrupted do not harm what others completed
        for ph in rng.sample(phases[:-1], 1 if len(phases) < 3 else rng.choice([1, 2])):
            ph["faults"] = [f for f in cache.gen_faults(rng, ph["nodes"], rng.choice([1, 2, 3])) if f["kind"] in DEATHS]
            if rng.random() < 0.6:  # an entry that is left half written
                i = rng.randrange(len(ph["nodes"]))
                ph["faults"].append({"node": i, "thread": 0, "action": rng.choice([0, 0, 1]), "at": 1, "kind": "crash_mid", "sticky": True, "frac": rng.choice([0.0, 0.3, 0.9])})
        if len(phases) > 2 and rng.random() < 0.7:  # what was left half written is asked for beside the rest
            ph = phases[0]
            thread = ph["nodes"][0]["threads"][0]
            thread += [dict(r) for r in rng.sample(requests, len(requests))]
            ph["faults"] = [{"node": 0, "thread": 0, "action": len(thread) - 1, "at": 1, "kind": "crash_mid", "sticky": True, "frac": rng.choice([0.0, 0.3, 0.9])}]
            phases[1]["nodes"][-1]["threads"][-1].insert(0, dict(thread[-1]))
            phases[-1]["nodes"][0]["threads"][0] += [dict(r) for r in requests]
    cache.gen_time(rng, phases)
    cache.gen_people(rng, phases)
    cache.gen_narrow(rng, phases)
    return {"phases": phases}


def unfinished(ph: dict, rec: dict) -> tuple[set, set]:
    """The entries that a process may have been writing when it was killed or interrupted."""
    entries, requests = set(), set()
    for spec, nd in zip(ph["nodes"], rec["nodes"]):
        for t, j, key in nd["asked"]:
            a, answer = spec["threads"][t][j], nd["threads"][t][j]
            if answer is None or "err" in answer:
                entries.add(cache.entry_key(a, {"key": key}))
                requests.add(json.dumps(cache.plain(a)))
    return entries, requests


def run(script, env):
    records = cache.play(script, env)
    found = []
    problem = cache.trouble(script, records)
    if problem:
        found.append({"kind": "blocked", "message": problem})
    durable: set = set()
    known_requests: set = set()
    fresh: set = set()
    fresh_requests: set = set()
    by_process: dict = {}
    for p, i, _t, _j, a, out in cache.each(script, records):
        by_process.setdefault((p, i), []).append((a, out))
    unclear = {k: cache.ambiguous(v) for k, v in by_process.items()}
    phase = 0
    expected = 0
    moved = 0
    for p, i, t, j, a, out in cache.each(script, records):
        if p != phase:
            lost, requests = unfinished(script["phases"][phase], records[phase])
            durable |= fresh - lost
            known_requests |= fresh_requests - requests
            phase, fresh, fresh_requests = p, set(), set()
        if out is None and records[p]["nodes"][i]["died"]:
            continue
        if out is None:
            found.append({"kind": "no answer", "message": f"{cache.where(p, i, t, j)}: the call never returned: {json.dumps(a)}"})
            continue
        if "err" in out or not cache.is_request(a):
            continue
        request = json.dumps(cache.plain(a))
        entry = cache.entry_key(a, out)
        if cache.equal_key(a, out) in unclear[p, i] and len(script["phases"][p]["nodes"][i]["threads"]) > 1:
            continue  # may be looked for under the other form of the request
        if entry in durable:
            expected += 1
            if out["work"]:
                found.append(
                    {"kind": f"{a['do']} performed again", "message": f"{cache.where(p, i, t, j)}: {a['do']} does the work again, although an earlier process completed the same call on this directory; request {request[:1000]}"}
                )
        elif request in known_requests and out["work"]:
            moved += 1
            found.append({"kind": CHANGED, "message": f"{cache.where(p, i, t, j)}: {a['do']} does the work again because the pickle of the request depends on the history of the process; request {request[:1000]}"})
        if cache.equal_key(a, out) not in unclear[p, i]:
            fresh.add(entry)
            fresh_requests.add(request)
    first = next((v for v in found if v["kind"] != CHANGED), found[0] if found else None)
    rec = cache.result(script, records, first, **{"probe:answers expected from the directory": expected, "probe:requests that pickle differently": moved})
    rec["stats"]["nontrivial"] = expected > 0
    return rec
