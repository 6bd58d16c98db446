"""Parts shared by the in-process simulations: references, histories, threads."""
from __future__ import annotations

import copy
import hashlib
import json
import sys

from .. import engine, ops
from ..engine import INJECT, Scheduler
from ..ops import Ctx, perform, public

ARG_MUTATED = "argument modified"


def sha(obj) -> str:
    return hashlib.sha1(json.dumps(obj).encode()).hexdigest()[:16]


# ------------------------------------------------------------------ in the forks
def child_reference(a: dict) -> dict:
    """Outcome of one operation in a pristine process."""
    ctx = Ctx()
    out = perform(ops.without_history(a), ctx)
    return public(out)


def child_sites(a: dict) -> dict:
    """Call sites of the repository that one operation passes, with their frequency."""
    engine.monitoring(call=True)
    INJECT.recording = {}
    out = perform(a, Ctx())
    sites, INJECT.recording = INJECT.recording, None
    engine.monitoring()
    return {"sites": sites, "out": public(out)}


def explain(a: dict, ctx: Ctx) -> str:
    return a["op"]


def materialise(actions: list, ctx: Ctx) -> None:
    """Creates the shared objects beforehand."""
    for a in actions:
        if "decay" in a and a["op"] not in {"decay", "bad_decay"}:
            ctx.decay(a["decay"])
        if "model" in a:
            ctx.model(a["model"])
        if a["op"] == "shared_formulate":
            spec = {k: a[k] for k in ("decay", "min_ls", "all", "dyn")}
            ctx.shared("builder", spec, lambda s: ops.amplitude_builder(s, ctx))


def child_threads(script: dict) -> dict:
    """Runs the threads of a script under the simulated scheduler."""
    ctx = Ctx()
    actions = [a for t in script["threads"] for a in t]
    if script.get("materialise"):
        materialise(actions, ctx)
    grain = script.get("grain", "line")
    outs: list[list] = [[] for _ in script["threads"]]
    sched = Scheduler(script["sched"], max_steps=script.get("max_steps", 4_000_000))

    def body(i):
        def fn(_t):
            for a in script["threads"][i]:
                outs[i].append(None)
                outs[i][-1] = perform(a, ctx)

        return fn

    for i in range(len(script["threads"])):
        sched.add(body(i))
    engine.SCHED = sched
    engine.monitoring(line=grain != "call", call=grain != "line", call_yields=True)
    sched.run()
    engine.monitoring()
    engine.SCHED = None
    errors = [f"thread {t.tid}: {type(t.error).__name__}: {t.error}" for t in sched.threads if t.error]
    record = {
        "outs": [[public(o) if o else None for o in t] for t in outs],
        "abort": sched.abort,
        "errors": errors,
        "trace": sched.trace,
        "steps": sched.total,
        "switch_sites": len(sched.switch_sites),
        "after": [],
    }
    if sched.abort is None and script.get("after"):
        record["after"] = [public(perform(a, ctx)) for a in script["after"]]
    return record


# ------------------------------------------------------------------ in the driver
def same(got: dict | None, want: dict) -> bool:
    return got is not None and got == want and not str(got.get("err")).startswith("NotIntact")


def difference(a: dict, got, want) -> str:
    text = json.dumps(a)
    return f"operation {a['op']}: got {json.dumps(got)[:400]}, alone in a fresh process {json.dumps(want)[:400]}; arguments {text[:700]}"


def gen_sched(rng, threads: int) -> dict:
    x = rng.random()
    seed = rng.getrandbits(32)
    if x < 0.3:
        return {"policy": "random", "seed": seed, "p": rng.choice([0.3, 0.1, 0.03, 0.01, 0.003])}
    if x < 0.6:
        return {"policy": "pct", "seed": seed, "depth": rng.randint(1, 6), "length": rng.choice([200, 1000, 4000, 12000])}
    if x < 0.85:
        return {"policy": "sites", "seed": seed, "rate": rng.choice([0.02, 0.05, 0.15])}
    return {"policy": "lockstep", "seed": seed, "burst": rng.choice([1, 2, 5, 20])}


def drop_each(seq: list):
    """Candidates with parts of a list removed: halves first, then single elements."""
    n = len(seq)
    size = n // 2
    while size >= 1:
        for start in range(0, n, size):
            rest = seq[:start] + seq[start + size :]
            if len(rest) < n:
                yield rest
        size //= 2


def shrink_threads(script: dict, rec: dict):
    threads = script["threads"]
    for i in range(len(threads)):
        if len(threads) > 2 or not threads[i]:
            yield {**script, "threads": threads[:i] + threads[i + 1 :]}
    for i, t in enumerate(threads):
        for rest in drop_each(t):
            if rest or len(threads) > 2:
                new = threads[:i] + [rest] + threads[i + 1 :]
                yield {**script, "threads": new}
                for k in range(3):  # the schedule shifts: try some others
                    yield {**script, "threads": new, "sched": {**script["sched"], "seed": k}}
    if script.get("after"):
        yield {**script, "after": []}
    yield from shrink_actions(script, "threads")


def simplify_action(a: dict):
    """Simpler variants of one operation."""
    if a.get("dyn"):
        for rest in drop_each(a["dyn"]):
            yield {**a, "dyn": rest}
    for key, value in (("cleanup", False), ("coeff", False), ("all", False), ("ref", None), ("plugins", None), ("label", None), ("latex", False)):
        if a.get(key):
            yield {**a, key: value}
    if "decay" in a and len(a["decay"]["chains"]) > 1:
        for rest in drop_each(a["decay"]["chains"]):
            if rest:
                yield {**a, "decay": {**a["decay"], "chains": rest}}


def shrink_actions(script: dict, key: str):
    """Simplifies single operations of script[key] (a list, or a list of lists)."""
    def walk(x, rebuild):
        if isinstance(x, dict):
            for y in simplify_action(x):
                yield rebuild(y)
        else:
            for i, item in enumerate(x):
                yield from walk(item, lambda y, i=i: rebuild(x[:i] + [y] + x[i + 1 :]))

    yield from walk(script[key], lambda y: {**script, key: y})
    # the same simplification of a decay wherever it is used
    decays = {json.dumps(d) for d in find_decays(script[key])}
    for text in decays:
        d = json.loads(text)
        for rest in drop_each(d["chains"]):
            if rest:
                new = {**d, "chains": rest}
                yield {**script, key: replace_decay(script[key], d, new)}


def find_decays(x):
    if isinstance(x, dict):
        if "decay" in x:
            yield x["decay"]
    else:
        for y in x:
            yield from find_decays(y)


def replace_decay(x, old, new):
    if isinstance(x, dict):
        return {**x, "decay": copy.deepcopy(new)} if x.get("decay") == old else x
    return [replace_decay(y, old, new) for y in x]


def pin_threads(script: dict, rec: dict):
    trace = rec.get("trace")
    if trace is None:
        return None
    return {**script, "sched": {"policy": "explicit", "points": trace}}


def shrink_points(script: dict):
    points = script["sched"].get("points", [])
    for rest in drop_each(points):
        yield {**script, "sched": {"policy": "explicit", "points": rest}}


def debug(*args) -> None:
    print(*args, file=sys.stderr)
