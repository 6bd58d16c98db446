"""C01: caching is transparent."""
from __future__ import annotations

import json

from . import cache
from .. import exprs
from .cache import INTERLEAVING, REAL, STUB, child_direct, child_phase, child_uncached, pin, shrink, shrink_schedule  # noqa: F401

SIMS = {"quick": 190, "thorough": 20000}
ZYGOTES = 3
RULE = (
    "One simulation = 1-3 phases (restarts) of 1-3 processes with 1-3 threads on one cache directory, which make 3-14"
    " requests (lambdify with NumPy and JAX, doit, unfold, subs, xreplace, simplify, trigsimp) from families of nearly"
    " identical requests; seeded scheduling of processes at file operations and of threads at code lines, stalled"
    " processes, short reads and writes. Oracle: the same request in a process with caching disabled, and made of TensorWaves and SymPy without this repository: types, argument order,"
    " parameter values and number types, array type, dtype, values (1e-9). Non-trivial: any run; distinct by script."
)
ASSUMPTIONS = ["numerical values agree if they agree to 1e-9 relative; data points are fixed arrays of three values"]


def gen(rng, cfg):
    n = rng.randint(3, 14)
    models = 0.15 if cfg["tier"] == "quick" else 0.2
    actions = exprs.gen_requests(rng, n, models=models if rng.random() < 0.3 else 0.0)
    phases = []
    for p in range(rng.choice([1, 2, 2, 3])):
        mine = [a for a in actions if rng.random() < 0.7] or actions[:1]
        rng.shuffle(mine)
        count = rng.choice([1, 1, 2, 3])
        nodes = []
        for i, part in enumerate(cache.split(rng, mine, count)):
            threads = rng.choice([1, 1, 2, 3])
            nodes.append(cache.node(i, cache.split(rng, part, threads), sched=cache.gen_thread_sched(rng)))
        faults = []
        for f in cache.gen_faults(rng, nodes, rng.choice([0, 0, 1, 3])):
            if f["kind"] in {"short"}:
                faults.append(f)
        stalls = [[rng.randrange(count), rng.randint(1, 8)]] if count > 1 and rng.random() < 0.4 else []
        phases.append(cache.phase(nodes, cache.gen_node_sched(rng), faults=faults, stalls=stalls, image=rng.choice([0, 0, 1, 2])))
    cache.gen_time(rng, phases)
    cache.gen_people(rng, phases)
    return {"phases": phases}


def run(script, env):
    refs = cache.uncached(script, env)
    wants = cache.direct(script, env)
    records = cache.play(script, env)
    found = []
    for key, want in wants.items():
        why = cache.differs(refs[key], want)
        if why:
            found.append({"kind": f"{json.loads(key)['do']} is not the operation", "message": f"with caching disabled: {why}, as the library itself returns; request {key[:1200]}"})
    problem = cache.trouble(script, records)
    if problem:
        found.append({"kind": "blocked", "message": problem})
    for p, i, t, j, a, out in cache.each(script, records):
        if out is None:
            found.append({"kind": "no answer", "message": f"{cache.where(p, i, t, j)}: the call never returned: {json.dumps(a)}"})
            continue
        why = cache.differs(out, refs[json.dumps(cache.plain(a))])
        if why:
            kind = cache.TORN if cache.torn(a, out) else f"{a['do']} not transparent"
            found.append({"kind": kind, "message": f"{cache.where(p, i, t, j)}: {a['do']} {why}; request {json.dumps(a)[:1200]}"})
    return cache.result(script, records, cache.first(found))
