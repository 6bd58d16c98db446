"""C12: transition import does not depend on delivery."""
from __future__ import annotations

import copy

from . import base
from .. import engine, gen as G
from ..engine import Scheduler
from ..ops import Ctx, message

SIMS = {"quick": 2500, "thorough": 25000}
RULE = (
    "One simulation = one set of transitions that is delivered 2-6 times to the import functions: in other orders,"
    " with repetitions, in other containers, from one-shot iterators, from streams that break off with an error, from"
    " streams during which another import is made, and by concurrent threads under a seeded schedule. Oracle: every"
    " complete delivery has the outcome of the plain list in a pristine process, every broken one its own error."
    " Non-trivial: at least one delivery that is not the plain list; distinct by script."
)
REAL = "ampform_dpd.adapter.qrules, ampform_dpd.decay, qrules transition and topology classes"
STUB = "the streams that deliver the transitions; thread scheduler for the concurrent deliveries"
INTERLEAVING = "distinct traces of (thread, step, next thread)"
ASSUMPTIONS = ["Transitions are synthetic qrules transitions (qrules' reaction search itself is not run)."]

TARGETS = ["to_three_body_decay", "to_three_body_decay", "to_three_body_decay", "filter_min_ls", "convert_transitions", "normalize_state_ids", "permute_equal_final_states"]
CONTAINERS = ["list", "tuple", "iter", "generator", "set", "frozenset", "dict", "deque", "map", "iterable", "oneshot"]
ERRORS = ["OSError", "TimeoutError", "KeyboardInterrupt", "ValueError", "TypeError", "KeyError", "RuntimeError", "EOFError", "AttributeError", "MemoryError", "IndexError"]


def gen(rng, cfg):
    spec = G.gen_transitions(rng)
    if rng.random() < 0.15:
        spec["mixed"] = [rng.randrange(2) for _ in spec["transitions"]]
    other = G.gen_transitions(rng)
    n = len(spec["transitions"])
    deliveries = []
    focus = rng.choice(TARGETS)
    for _ in range(rng.randint(2, 6)):
        order = list(range(n))
        x = rng.random()
        if x < 0.7:
            rng.shuffle(order)
        if rng.random() < 0.5:
            for _ in range(rng.randint(1, 3)):
                order.insert(rng.randrange(len(order) + 1), rng.randrange(n))
        container = rng.choice(CONTAINERS)
        d = {
            "target": focus if rng.random() < 0.7 else rng.choice(TARGETS),
            "order": order,
            "container": container,
            "min_ls": rng.choice([False, True, [True, False], [False, True]]),
            "fail": None,
            "nested": None,
        }
        if container in {"generator", "iterable", "oneshot", "map"}:
            if rng.random() < 0.4:
                d["fail"] = [rng.randrange(len(order) + 1), rng.choice(ERRORS)]
            elif rng.random() < 0.3:
                d["nested"] = rng.randrange(len(order))
        deliveries.append(d)
    sched = None
    if rng.random() < 0.35:
        sched = base.gen_sched(rng, len(deliveries))
    return {"spec": spec, "other": other, "deliveries": deliveries, "sched": sched}


def build(spec):
    out = []
    for i, t in enumerate(spec["transitions"]):
        s = spec if "mixed" not in spec else {**spec, "shift": spec["mixed"][i]}
        out.append(G.make_transition(s, t))
    return out


class Stream:
    """Re-iterable object without a length; every pass delivers (or fails) anew."""

    def __init__(self, items, step, oneshot):
        self.items, self.step, self.oneshot, self.passes = items, step, oneshot, 0

    def __iter__(self):
        self.passes += 1
        if self.oneshot and self.passes > 1:
            return
        for i, x in enumerate(self.items):
            self.step(i)
            yield x
        self.step(len(self.items))


def package(d, items, other):
    from collections import deque

    from ampform_dpd.adapter import qrules as ad

    exc = None
    if d["fail"]:
        exc = {e.__name__: e for e in (OSError, TimeoutError, KeyboardInterrupt, ValueError, TypeError, KeyError, RuntimeError, EOFError, AttributeError, MemoryError, IndexError)}[d["fail"][1]]("the stream broke off")

    def step(i):
        if engine.SCHED is not None:
            engine.SCHED.point(("stream", i))
        if d["fail"] and i == d["fail"][0]:
            raise exc
        if d["nested"] is not None and i == d["nested"]:
            ad.to_three_body_decay(other)

    c = d["container"]
    if c == "list":
        return list(items), exc
    if c == "tuple":
        return tuple(items), exc
    if c == "iter":
        return iter(items), exc
    if c == "set":
        return set(items), exc
    if c == "frozenset":
        return frozenset(items), exc
    if c == "dict":
        return dict.fromkeys(items), exc
    if c == "deque":
        return deque(items), exc
    if c == "map":
        return map(lambda x: x, Stream(items, step, oneshot=False)), exc
    if c == "generator":
        return iter(Stream(items, step, False)), exc
    return Stream(items, step, c == "oneshot"), exc


def deliver(target, stream, min_ls):
    from ampform_dpd.adapter import qrules as ad

    m = tuple(min_ls) if isinstance(min_ls, list) else min_ls
    if target == "to_three_body_decay":
        return ad.to_three_body_decay(stream, min_ls=m)
    if target == "filter_min_ls":
        nodes = None if isinstance(m, bool) else {i for i in (0, 1) if m[i]}
        return frozenset(ad.filter_min_ls(stream, nodes))
    return frozenset(getattr(ad, target)(stream))


def outcome(fn):
    from ..digest import digest

    exc = None
    try:
        result = fn()  # the order inside equal frozen transitions is not part of their value
        return {"ok": digest(result, ordered=not isinstance(result, frozenset))}, None
    except engine.SimAbort:
        raise
    except BaseException as e:  # noqa: BLE001
        exc = e
    return {"err": f"{type(exc).__name__}: {message(exc)}"}, exc


def inputs(spec, target):
    """filter_min_ls and friends work on converted transitions."""
    from ampform_dpd.adapter import qrules as ad

    items = build(spec)
    if target == "filter_min_ls":
        return [ad._convert_transition(t) for t in map(ad.normalize_state_ids, items)]
    return items


def child_plain(p):
    items = inputs(p["spec"], p["target"])
    return outcome(lambda: deliver(p["target"], items, p["min_ls"]))[0]


def child_deliveries(script):
    ds = script["deliveries"]
    outs: list = [None] * len(ds)
    other = G.make_transitions(script["other"])
    prepared = []
    for d in ds:
        items = inputs(script["spec"], d["target"])
        prepared.append([items[i] for i in d["order"]])

    def one(i):
        d = ds[i]
        stream, exc = package(d, prepared[i], other)
        out, got = outcome(lambda: deliver(d["target"], stream, d["min_ls"]))
        outs[i] = {"out": out, "own": got is not None and got is exc}

    trace, steps, abort = [], 0, None
    if script["sched"]:
        sched = Scheduler(script["sched"])
        for i in range(len(ds)):
            sched.add(lambda _t, i=i: one(i))
        engine.SCHED = sched
        engine.monitoring(line=True)
        sched.run()
        engine.monitoring()
        engine.SCHED = None
        trace, steps, abort = sched.trace, sched.total, sched.abort
    else:
        for i in range(len(ds)):
            one(i)
    return {"outs": outs, "trace": trace, "steps": steps, "abort": abort}


def run(script, env):
    rec = env.call("deliveries", script)
    refs = env.references("plain", [{"spec": script["spec"], "target": d["target"], "min_ls": d["min_ls"] if d["target"] in {"to_three_body_decay", "filter_min_ls"} else None} for d in script["deliveries"]])
    violation = None
    if rec["abort"]:
        violation = {"kind": "no progress", "message": rec["abort"]}
    fails = nested = 0
    for i, (d, got, want) in enumerate(zip(script["deliveries"], rec["outs"], refs)):
        what = f"delivery {i} to {d['target']} (order {d['order']}, {d['container']}, fail {d['fail']}, nested {d['nested']}, min_ls {d['min_ls']})"
        nested += d["nested"] is not None
        if violation is not None:
            break
        if d["fail"]:
            fails += 1
            if not got["own"]:
                violation = {"kind": "broken delivery", "message": f"{what}: the error of the stream did not reach the caller: {got['out']}"}
        elif got["out"] != want:
            violation = {"kind": "delivery", "message": f"{what}: {got['out']} instead of {want}"}
    switches = len([p for p in rec["trace"] if p[1] > 0])
    count = {
        "operations": len(script["deliveries"]),
        "steps": rec["steps"],
        "fault:stream broke off": fails,
        "fault:repeated delivery": sum(len(d["order"]) > len(script["spec"]["transitions"]) for d in script["deliveries"]),
        "fault:reordered delivery": sum(d["order"] != sorted(d["order"]) for d in script["deliveries"]),
        "fault:one-shot stream": sum(d["container"] in {"iter", "generator", "oneshot", "map"} for d in script["deliveries"]),
        "fault:import during delivery": nested,
        "fault:thread switch": switches,
        "probe:errors among references": sum("err" in r for r in refs),
        "probe:mixed labelling": int("mixed" in script["spec"]),
    }
    return {"violation": violation, "trace": rec["trace"], "stats": {"count": count, "nontrivial": True, "interleaving": base.sha(rec["trace"]) if script["sched"] else None}}


def shrink(script, rec):
    for rest in base.drop_each(script["deliveries"]):
        if rest:
            yield {**script, "deliveries": rest}
    if script["sched"]:
        yield {**script, "sched": None}
    n = len(script["spec"]["transitions"])
    for k in range(n):
        if n > 1:
            spec = copy.deepcopy(script["spec"])
            del spec["transitions"][k]
            if "mixed" in spec:
                del spec["mixed"][k]
            ds = [{**d, "order": [i - (i > k) for i in d["order"] if i != k], "fail": d["fail"] and [min(d["fail"][0], len([i for i in d["order"] if i != k])), d["fail"][1]]} for d in script["deliveries"]]
            yield {**script, "spec": spec, "deliveries": ds}
    for i, d in enumerate(script["deliveries"]):
        for cand in ({**d, "order": list(range(len(script["spec"]["transitions"])))}, {**d, "container": "list", "fail": None, "nested": None}, {**d, "nested": None}, {**d, "min_ls": False}):
            if cand != d and not (cand["fail"] and cand["fail"][0] > len(cand["order"])):
                yield {**script, "deliveries": [*script["deliveries"][:i], cand, *script["deliveries"][i + 1 :]]}
        seen = set()
        for j, x in enumerate(d["order"]):
            if x in seen and not d["fail"]:
                yield {**script, "deliveries": [*script["deliveries"][:i], {**d, "order": d["order"][:j] + d["order"][j + 1 :]}, *script["deliveries"][i + 1 :]]}
            seen.add(x)


def pin(script, rec):
    return {**script, "sched": {"policy": "explicit", "points": rec["trace"]}} if script["sched"] else None


def shrink_schedule(script):
    if script["sched"]:
        yield from base.shrink_points(script)


def prepare():
    pass


__all__ = ["Ctx"]
