"""C09: an interrupted or failing call leaves no trace."""
from __future__ import annotations

import threading

from . import base, c10
from .base import child_reference, child_sites  # noqa: F401
from .. import engine
from ..engine import INJECT
from .c10 import child_fresh, child_history  # noqa: F401
from ..ops import Ctx, Pool, perform, public

SIMS = {"quick": 1200, "thorough": 20000}
RULE = (
    "One simulation = some operations, then one operation that is cut short (KeyboardInterrupt or MemoryError raised"
    " at one of the call sites it passes, at the first, last or a middle occurrence, or an exception raised by a user"
    " callback), then the same and similar operations again, in the same or another thread, possibly with a second cut; or (12 %) a history of C10 on builders that"
    " stay in use, with interrupted registrations and formulations. Oracle: the injected error"
    " reaches the caller unchanged, every other outcome equals that in a pristine process. Non-trivial: the fault"
    " fired; distinct by site, occurrence, exception and script."
)
REAL = "all of ampform_dpd, sympy, ampform, qrules"
STUB = "interrupts and allocation failures are raised by the simulator before calls made by repository code and in methods generated by attrs"
INTERLEAVING = "none: the threads run one after the other; the searched space is the place of the interruption"
ASSUMPTIONS = [
    "Interruptions strike between the calls made by repository code and at the start of methods that attrs generates for its classes (not inside SymPy or C code, whose own state is a dependency's), and not inside finally blocks, exception handlers and __exit__ methods.",
]
TOKEN = "injected by the simulator"


def gen(rng, cfg):
    if rng.random() < 0.12:
        # interrupted registrations and formulations on amplitude builders that stay in use
        return {"registrations": c10.gen(rng, cfg, cuts=rng.choice([0.3, 0.7]))}
    pool = Pool(rng)
    focus = None
    x = rng.random()
    if x < 0.25:
        focus = ["formulate", "shared_formulate", "formulate_twice", "subsystem_amplitude", "aligned_amplitude"]
    elif x < 0.45:
        focus = ["import_model", "import_chain", "import_decay"]
    elif x < 0.6:
        focus = ["transitions", "transition_tools", "inspect_decay"]
    elif x < 0.75:
        focus = ["builder", "lineshape", "render_dynamics", "product", "angle", "render"]
    if x > 0.8:
        # one builder object, which is used with other options before and after the cut
        focus = ["shared_formulate"]
        pool.max_builders = 1
    similar = lambda: pool.make(focus)  # noqa: E731
    before = [similar() for _ in range(rng.choice([0, 0, 0, 1, 2]))]
    victim = similar()
    cuts = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        cuts.append({"site": rng.random(), "occ": rng.choice([1, 1, 1, -1, 0.5]), "exc": rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"])})
    callback = False
    if x > 0.8 and rng.random() < 0.4:
        # the custom builder of a shared amplitude builder fails in one of its calls
        b = pool.shared_builder()
        sel = {"chain": rng.randrange(len(b["decay"]["chains"]))}
        b["dyn"] = [*b["dyn"], [sel, {"kind": "custom", "tag": pool.tag(), "raise": rng.choice([1, 1, 2, 3])}]]
        before, victim = [], pool.make(["shared_formulate"])
        after = [pool.make(["shared_formulate"]) for _ in range(rng.randint(1, 3))]
        return {"before": before, "victim": victim, "cuts": [], "after": after, "callback": True, "shared": True, "elsewhere": rng.random() < 0.3}
    if rng.random() < 0.25:
        callback = True
        if rng.random() < 0.5:
            victim = pool.make(["shared_formulate", "formulate"])
            n = len(victim["decay"]["chains"])
            sel = {"chain": rng.randrange(n)}
            victim = {**victim, "op": "formulate", "dyn": [*victim["dyn"], [sel, {"kind": "custom", "tag": pool.tag(), "raise": rng.choice([1, 2])}]]}
        else:
            victim = pool.make(["import_model"])
            victim["plugins"] = [[t, pool.tag(), rng.choice([0, 1, 2]), None] for t in ("Custom", "BreitWigner", "MultichannelBreitWigner")]
            if rng.random() < 0.4:
                victim["label"] = ["tag", pool.tag(), rng.choice([1, 2, 3])]
                victim["label"] = ["tag", victim["label"][1], victim["label"][2]]
        cuts = []
    after = [dict(victim)] if not callback else []
    after += [similar() for _ in range(rng.randint(1, 3))]
    if callback:
        clean = dict(victim)
        if clean["op"] == "formulate":
            clean["dyn"] = clean["dyn"][:-1]
        else:
            clean.update(plugins=pool.plug(), label=None)
        after.append(clean)
    rng.shuffle(after)
    return {"before": before, "victim": victim, "cuts": cuts, "after": after, "callback": callback, "elsewhere": rng.random() < 0.3}


def child_interrupted(script):
    ctx = Ctx()
    base.materialise([*script["before"], script["victim"], *script["after"]], ctx) if script.get("materialise") else None
    before = [public(perform(a, ctx)) for a in script["before"]]
    victims = []
    classes = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}
    for cut in script["cuts"]:
        engine.monitoring(call=True)
        exc = classes[cut["exc"]](TOKEN)
        INJECT.seen, INJECT.fired = 0, None
        INJECT.armed = (cut["site"], cut["occ"], exc)
        out = perform(script["victim"], ctx)
        INJECT.armed = None
        engine.monitoring()
        victims.append({"fired": INJECT.fired, "same": out.get("_exc") is exc, "out": public(out)})
    if not script["cuts"]:
        victims.append({"fired": None, "same": None, "out": public(perform(script["victim"], ctx))})
    after: list = []
    later = lambda: after.extend(public(perform(a, ctx)) for a in script["after"])  # noqa: E731
    if script.get("elsewhere"):  # what the interrupted thread still holds blocks the other one
        t = threading.Thread(target=later)
        t.start()
        t.join()
    else:
        later()
    return {"before": before, "victims": victims, "after": after}


def resolve(script, env):
    """Turns the fractions of a generated script into call sites."""
    if not any(isinstance(c["site"], float) for c in script["cuts"]):
        return script
    sites = env.references("sites", [script["victim"]])[0]["sites"]
    names = sorted(sites)
    if not names:
        return {**script, "cuts": []}
    cuts = []
    for c in script["cuts"]:
        site = names[int(c["site"] * len(names))]
        n = sites[site]
        occ = {1: 1, -1: n, 0.5: max(1, n // 2)}[c["occ"]]
        cuts.append({"site": site, "occ": occ, "exc": c["exc"]})
    return {**script, "cuts": cuts}


def run(script, env):
    if "registrations" in script:
        rec = c10.run(script["registrations"], env)
        count = rec["stats"]["count"]
        count["fault:KeyboardInterrupt"] = count.pop("fault:interrupted call")
        count["fault:callback exception"] = count.pop("fault:failing builder")
        rec["stats"]["nontrivial"] = count["fault:KeyboardInterrupt"] > 0
        rec["stats"]["interleaving"] = base.sha(script)
        return rec
    script = resolve(script, env)
    rec = env.call("interrupted", script)
    after = script["after"]
    if script.get("shared"):
        after = [{**a, "dyn": [[s, {k: v for k, v in b.items() if k != "raise"}] for s, b in a["dyn"]]} for a in after]
    actions = [*script["before"], script["victim"], *after]
    refs = env.references("reference", actions)
    n = len(script["before"])
    violation = None
    if script.get("shared") and "CallbackError" not in rec["victims"][0]["out"].get("err", ""):
        script = {**script, "after": []}  # the callback was not called often enough to fail
    for i, (a, got, want) in enumerate(zip(script["before"], rec["before"], refs)):
        if not base.same(got, want):
            violation = {"kind": "before", "message": f"call {i}: " + base.difference(a, got, want)}
    fired = 0
    for cut, v in zip(script["cuts"] or [None], rec["victims"]):
        if v["fired"]:
            fired += 1
            if not v["same"] and violation is None:
                violation = {"kind": "error altered", "message": f"{cut['exc']} at {v['fired']} during {script['victim']['op']} did not reach the caller unchanged: {v['out']}"}
        elif not base.same(v["out"], refs[n]) and violation is None:
            violation = {"kind": "repeated call", "message": base.difference(script["victim"], v["out"], refs[n])}
    where = [f"{c['exc']} at {v['fired']}" for c, v in zip(script["cuts"], rec["victims"])] or [str(rec["victims"][0]["out"])[:200]]
    for i, (a, got, want) in enumerate(zip(script["after"], rec["after"], refs[n + 1 :])):
        if violation is None and not base.same(got, want):
            violation = {"kind": "after", "message": f"{script['victim']['op']} was cut short ({', '.join(where)}); later call {i}: " + base.difference(a, got, want)}
    callback_failed = script["callback"] and "CallbackError" in rec["victims"][0]["out"].get("err", "")
    count = {"operations": len(actions), "fault:callback exception": int(callback_failed), "probe:fault not reached": len(script["cuts"]) - fired}
    for cut, v in zip(script["cuts"], rec["victims"]):
        if v["fired"]:
            count[f"fault:{cut['exc']}"] = count.get(f"fault:{cut['exc']}", 0) + 1
            count[f"probe:in {v['fired'].split(':')[0]}"] = 1
    return {
        "violation": violation,
        "script": script,
        "stats": {"count": count, "nontrivial": bool(fired or callback_failed), "interleaving": base.sha([script["cuts"], script["victim"]["op"]])},
    }


def shrink(script, rec):
    if "registrations" in script:
        for s in c10.shrink(script["registrations"], rec):
            yield {"registrations": s}
        return
    script = rec.get("script", script)
    for key in ("before", "after", "cuts"):
        for rest in base.drop_each(script[key]):
            yield {**script, key: rest}
    yield from base.shrink_actions(script, "after")
    if script.get("elsewhere"):
        yield {**script, "elsewhere": False}
    for occ in (1,):
        for i, c in enumerate(script["cuts"]):
            if c["occ"] != occ:
                yield {**script, "cuts": [*script["cuts"][:i], {**c, "occ": occ}, *script["cuts"][i + 1 :]]}


def pin(script, rec):
    if "registrations" in script:
        return None
    return rec.get("script")


def shrink_schedule(script):
    return iter(())
