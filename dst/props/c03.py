"""C03: a crash or I/O fault never makes a cached expression unusable."""
from __future__ import annotations

import errno
import json

from . import cache
from .. import exprs
from .cache import INTERLEAVING, REAL, STUB, child_direct, child_phase, child_uncached, pin, shrink, shrink_schedule  # noqa: F401

SIMS = {"quick": 400, "thorough": 30000}
ZYGOTES = 2
RULE = (
    "One simulation = 1-3 phases with faults (1-3 processes on one cache directory, 1-4 requests each; crashes before, in"
    " and after any file operation, I/O errors, full disk, short reads and writes, interruptions at file operations and"
    " calls, stalled processes, power loss that damages unsynced files, down to single sectors with old contents, also during recovery; entries alone or all in one subdirectory; clocks that jump), then a healthy phase in"
    " which every request is made again, then a healthy phase in a new process. Oracle: outcomes equal the uncached ones;"
    " a call fails only with the injected error itself; in the last phase lambdify is answered without doing the work."
    " Non-trivial: at least one fault struck; distinct by script."
)
ASSUMPTIONS = [
    "power loss damages only unsynced contents of files written since the last restart (kept, empty, prefix, zeroed, missing; sectors with old contents if no symbolic operation is involved)",
    "requests whose pickles differ between processes (see the known finding of C04) are not expected to find each other's entries",
    "numerical values agree if they agree to 1e-9 relative",
]


def gen(rng, cfg):
    if rng.random() < 0.5:
        requests = exprs.gen_requests(rng, rng.choice([1, 1, 2, 3]), jax=0.12, symbolic=rng.choice([0.05, 0.3, 0.6]), models=0.1 if rng.random() < 0.2 else 0)
    else:  # entries of many sectors
        requests = exprs.gen_requests(rng, rng.choice([1, 1, 2, 3]), jax=0.12, symbolic=0)
        if rng.random() < 0.5:
            requests[0] = exprs.large(rng, requests[0])
    stale = all(r["do"] == "lambdify" for r in requests)
    phases = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        nodes = []
        for i in range(rng.choice([1, 1, 2, 3])):
            actions = [dict(rng.choice(requests)) for _ in range(rng.randint(1, 4))]
            for a in actions:
                if rng.random() < 0.15:
                    a["interrupt_at"] = rng.choice([rng.randint(1, 30), rng.randint(1, 120)])
            threads = cache.split(rng, actions, 2) if rng.random() < 0.1 and not any("interrupt_at" in a for a in actions) else [actions]
            nodes.append(cache.node(i, threads, sched=cache.gen_thread_sched(rng)))
        ph = cache.phase(nodes, cache.gen_node_sched(rng), faults=cache.gen_faults(rng, nodes, rng.choice([0, 1, 1, 2, 3])), image=rng.choice([0, 1]))
        if len(nodes) > 1 and rng.random() < 0.4:
            ph["stalls"] = [[rng.randrange(len(nodes)), rng.randint(1, 8)]]
        if rng.random() < 0.3:
            ph["power_loss"] = {"step": rng.choice([None, rng.randint(2, 30)]), "seed": rng.getrandbits(32), "stale": stale}
        phases.append(ph)
    heal = [dict(r) for r in requests]
    rng.shuffle(heal)
    extra = [dict(rng.choice(requests)) for _ in range(rng.choice([0, 1, 2]))]
    phases.append(cache.phase([cache.node(0, [heal + extra])], image=rng.choice([0, 1]), final=1))
    last = [dict(r) for r in requests]
    rng.shuffle(last)
    phases.append(cache.phase([cache.node(0, [last])], final=2))
    cache.gen_time(rng, phases)
    cache.gen_people(rng, phases)
    cache.gen_narrow(rng, phases)
    return {"phases": phases}


def allowed(a: dict, out: dict, faults: list) -> bool:
    """The failure of a call is that of a fault that struck it."""
    if out.get("err") == "KeyboardInterrupt":
        return bool(out.get("interrupted")) or any(f[3] == "interrupt" for f in faults)
    codes = {getattr(errno, f[4]) for f in faults if f[3] == "errno"}
    # any error of the operating system: EEXIST of a makedirs() that could not look, say
    return "errno" in out and bool(codes)


def run(script, env):
    refs = cache.uncached(script, env)
    records = cache.play(script, env)
    found = []
    problem = cache.trouble(script, records)
    if problem:
        found.append({"kind": "blocked", "message": problem})
    healed: set = set()
    memory: set = set()
    for p, i, t, j, a, out in cache.each(script, records):
        rec = records[p]
        final = script["phases"][p].get("final")
        faults = [f for f in rec["faults"] if f[:3] == [i, t, j]]
        if out is None:
            died = rec["nodes"][i]["died"]
            if not died:
                found.append({"kind": "no answer", "message": f"{cache.where(p, i, t, j)}: the call never returned: {json.dumps(a)}"})
            continue
        if "err" in out and allowed(a, out, faults):
            continue
        key = json.dumps(cache.plain(a))
        why = cache.differs(out, refs[key])
        if why:
            kind = cache.TORN if cache.torn(a, out) else f"{a['do']} after a fault"
            found.append({"kind": kind, "message": f"{cache.where(p, i, t, j)}: {a['do']} {why}; request {key[:900]}; faults {[r['faults'] for r in records]}, damage {[r['damage'] for r in records]}"})
        elif final == 1:
            if cache.equal_key(a, out) not in memory:
                healed.add((key, out.get("key")))
            memory.add(cache.equal_key(a, out))
        elif final == 2 and a["do"] == "lambdify" and "err" not in out and (key, out["key"]) in healed and out["work"]:
            found.append({"kind": "not repaired", "message": f"{cache.where(p, i, t, j)}: lambdify does the work again although the call was completed by an earlier healthy process; request {key[:900]}; faults {[r['faults'] for r in records]}, damage {[r['damage'] for r in records]}"})
    rec = cache.result(script, records, cache.first(found))
    rec["stats"]["nontrivial"] = any(r["faults"] or r["power_lost"] for r in records) or any(o and o.get("interrupted") for *_, o in cache.each(script, records))
    return rec
