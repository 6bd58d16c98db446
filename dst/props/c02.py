"""C02: functions handed out by lambdify are independent of one another."""
from __future__ import annotations

import json

from . import cache
from .. import exprs
from .cache import INTERLEAVING, REAL, STUB, child_direct, child_phase, child_uncached, pin, shrink, shrink_schedule  # noqa: F401

SIMS = {"quick": 220, "thorough": 20000}
ZYGOTES = 2
RULE = (
    "One simulation = 1-3 phases (restarts) of 1-2 processes with 1-3 threads; every thread owns up to 3 (sometimes up to 30) functions, and"
    " requests, updates, evaluates and inspects them (3-12, sometimes up to 80 operations per thread; equal and nearly equal requests, invalid updates,"
    " modification of the returned parameter mapping). Model: every function is a private object; oracle: the owner's own"
    " operations on that function replayed alone with caching disabled. Non-trivial: a function is updated or mutated while"
    " another one exists; distinct by script."
)
ASSUMPTIONS = ["numerical values agree if they agree to 1e-9 relative"]


def gen_history(rng, requests: list, n: int, slots: int) -> list:
    out: list = []
    have: dict = {}
    for _ in range(n):
        slot = rng.randrange(slots)
        x = rng.random()
        if slot not in have or x < 0.25:
            a = {**rng.choice(requests), "slot": slot}
            have[slot] = a
            out.append(a)
            continue
        a = have[slot]
        names = [k if isinstance(k, str) else k[1] for k, _ in a["params"] or []]
        if x < 0.6:
            values = [[m, rng.choice([0.25, 3, -1.5, ["c", 0.5, 0.5], 1, 2.0])] for m in names if rng.random() < 0.7]
            if rng.random() < 0.07:
                values.append(["nobody", 1.0])
            out.append({"do": "update", "slot": slot, "values": values})
        elif x < 0.7:
            out.append({"do": "mutate", "slot": slot})
        elif x < 0.8:
            out.append({"do": "params", "slot": slot})
        else:
            out.append({"do": "eval", "slot": slot, "data": a.get("data", 0)})
    return out


def gen(rng, cfg):
    base = [a for a in exprs.gen_requests(rng, 8, jax=0.15, symbolic=0.0) if a["params"]]
    while not base:
        base = [a for a in exprs.gen_requests(rng, 8, jax=0.15, symbolic=0.0) if a["params"]]
    requests = base[: rng.choice([1, 1, 2, 3])]
    if rng.random() < 0.5:
        requests = requests + [{**requests[0], "params": exprs.vary_parameters(rng, requests[0]["params"])}]
    if rng.random() < 0.2:
        requests.append({**requests[0], "frozen": True})
    phases = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        nodes = []
        for i in range(rng.choice([1, 1, 1, 2])):
            many = rng.random() < 0.04
            threads = [gen_history(rng, requests, rng.randint(30, 60) if many else rng.randint(3, 12), 30 if many else 3) for _ in range(rng.choice([1, 1, 2, 3]))]
            nodes.append(cache.node(i, threads, sched=cache.gen_thread_sched(rng)))
        phases.append(cache.phase(nodes, cache.gen_node_sched(rng), image=rng.choice([0, 1])))
    cache.gen_time(rng, phases)
    cache.gen_people(rng, phases)
    return {"phases": phases}


def histories(script: dict):
    """The operations of each owner on each function; [(where, operation), ...]."""
    for p, ph in enumerate(script["phases"]):
        for i, nd in enumerate(ph["nodes"]):
            for t, actions in enumerate(nd["threads"]):
                per: dict = {}
                for j, a in enumerate(actions):
                    if a["do"] == "lambdify" and a["slot"] in per:
                        yield per.pop(a["slot"])
                    per.setdefault(a["slot"], []).append(((p, i, t, j), a))
                yield from per.values()


def run(script, env):
    chains = list(histories(script))
    outs = env.references("uncached", [{"actions": [a for _, a in c]} for c in chains])
    wanted = {w: (want, [a for _, a in c[: n + 1]]) for c, out in zip(chains, outs) for n, ((w, _), want) in enumerate(zip(c, out))}
    records = cache.play(script, env)
    found = []
    problem = cache.trouble(script, records)
    if problem:
        found.append({"kind": "blocked", "message": problem})
    updates = 0
    for p, i, t, j, a, out in cache.each(script, records):
        updates += a["do"] in {"update", "mutate"}
        if out is None:
            found.append({"kind": "no answer", "message": f"{cache.where(p, i, t, j)}: the call never returned: {json.dumps(a)}"})
            continue
        want, h = wanted[p, i, t, j]
        why = cache.differs(out, want)
        if why:
            kind = "new function" if a["do"] == "lambdify" else "existing function"
            found.append({"kind": kind, "message": f"{cache.where(p, i, t, j)}: {a['do']} {why}; operations on this function so far: {json.dumps(h)[:1200]}"})
    rec = cache.result(script, records, cache.first(found))
    rec["stats"]["nontrivial"] = updates > 0
    return rec
