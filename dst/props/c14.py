"""C14: custom lineshapes of an imported model apply to exactly that import."""
from __future__ import annotations

import copy
import json

from . import base
from .. import engine, gen as G
from ..engine import Scheduler
from ..ops import failure, message

SIMS = {"quick": 1200, "thorough": 20000}
RULE = (
    "One simulation = 3-8 imports of confusingly similar serialized models with custom dynamics builders (also ones that"
    " override built-in lineshapes) and label functions; definitions and builder tables are shared, re-used as temporary"
    " copies, or edited in place by their owner between imports; custom functions log their calls, fail at a chosen call,"
    " or make a nested import; imports run in sequence or in concurrent threads under a seeded schedule. Oracle: the log"
    " shows exactly the builders of that import, once or more for each propagator of their type and for no other, with"
    " that propagator, label and definition; the result equals that of a pristine process; failures reach the caller"
    " unchanged; definitions keep their digest. Non-trivial: a custom function was used; distinct by script and trace."
)
REAL = "ampform_dpd.io.serialization"
STUB = "the custom functions (they log, fail or nest); thread scheduler for the concurrent part"
INTERLEAVING = "distinct traces of (thread, step, next thread)"
NAMES = ["Custom", "CustomBreitWigner", "Custom2", "custom", "BreitWignerCustom", "Breit", "BreitWigner2", "Flatte", " BreitWigner"]


def gen(rng, cfg):
    models = [G.gen_model(rng, max_chains=3)]
    for _ in range(rng.randint(0, 2)):
        models.append(G.mutate_model(rng, rng.choice(models)))
    # custom lineshapes with confusingly similar types
    renamed: dict = {}
    if rng.random() < 0.7:
        for m in models:
            for f in m["functions"]:
                if f["type"] == "Custom":
                    f["type"] = renamed.setdefault(f["name"], rng.choice(NAMES))
    names = sorted({*(renamed.values() or ["Custom"]), *rng.sample(NAMES, rng.randint(0, 2))})
    rng.shuffle(names)
    n = 0
    imports = []
    threaded = rng.random() < 0.45
    for _ in range(rng.randint(3, 7)):
        n += 1
        plugins = {}
        for j, typ in enumerate(names):
            if rng.random() < 0.85:
                plugins[typ] = {"tag": f"t{n}{chr(97 + j)}", "fail": 0, "nested": None, "keep": rng.random() < 0.3}
        for typ in ("BreitWigner", "MultichannelBreitWigner"):
            if rng.random() < 0.3:
                plugins[typ] = {"tag": f"u{n}{typ[0]}", "fail": 0, "nested": None, "keep": rng.random() < 0.2}
        for p in plugins.values():
            x = rng.random()
            if x < 0.12:
                p["fail"] = rng.choice([1, 2])
            elif x < 0.25:
                p["nested"] = {"model": rng.randrange(len(models)), "tag": rng.choice([f"n{n}", None]), "type": rng.choice(names)}
        plugins = dict(sorted(plugins.items(), key=lambda _: rng.random()))
        label = rng.choice([None, {"tag": f"l{n}", "fail": 0}, {"tag": f"l{n}", "fail": 0}])
        if label and rng.random() < 0.12:
            label = {**label, "fail": rng.choice([1, 2, 3])}
        imp = {
            "model": rng.randrange(len(models)),
            "plugins": plugins if plugins or rng.random() < 0.5 else None,
            "label": label,
            "fn": rng.choice(["formulate", "formulate", "formulate", "chain", "dynamics"]),
            "i": rng.randrange(4),
            "temporary": rng.random() < 0.3,
            "table": rng.choice([None, None, 0]),  # share one plug-in dictionary object
            "edit": None,
        }
        if not threaded and rng.random() < 0.25:
            imp["edit"] = rng.randrange(1 << 20)
        imports.append(imp)
        if rng.random() < 0.3:
            imports.append({**copy.deepcopy(imp), "edit": None, "label": rng.choice([None, imp["label"]])})
    return {"models": models, "imports": imports, "sched": base.gen_sched(rng, len(imports)) if threaded else None}


def effective_models(script):
    """The definition that each import gets, with the owner's edits applied."""
    from random import Random

    current = copy.deepcopy(script["models"])
    out = []
    for imp in script["imports"]:
        if imp["edit"] is not None:
            current[imp["model"]] = G.mutate_model(Random(imp["edit"]), current[imp["model"]])
        out.append(copy.deepcopy(current[imp["model"]]))
    return out


def make_callbacks(imp, log, nested_import, kept=None):
    import sympy as sp
    from ampform_dpd import DefinedExpression

    failures = []
    kw = {}
    kept = {} if kept is None else kept  # expressions that builders return from every call

    def plugin(typ, spec):
        count = {"n": 0}

        def build(propagator, resonance, model):
            count["n"] += 1
            log.append([spec["tag"], propagator, resonance, model])
            if spec["fail"] and count["n"] >= spec["fail"]:
                failures.append(failure(spec["tag"]))
                raise failures[-1]
            if spec["nested"] is not None and count["n"] <= 2:
                nested_import(spec["nested"])
            if spec.get("keep"):
                return kept.setdefault(spec["tag"], DefinedExpression(sp.Symbol(f"K^{spec['tag']}"), {sp.Symbol(f"K^{spec['tag']}"): 1.5}))
            sym = sp.Symbol(f"P^{spec['tag']}_{resonance}_{propagator['parametrization']}")
            return DefinedExpression(sym, {sym: 2.5})

        return build

    if imp["plugins"] is not None:
        kw["additional_builders"] = {t: plugin(t, s) for t, s in imp["plugins"].items()}
    if imp["label"] is not None:
        count = {"n": 0}

        def to_latex(name):
            count["n"] += 1
            if imp["label"]["fail"] and count["n"] >= imp["label"]["fail"]:
                failures.append(failure(imp["label"]["tag"]))
                raise failures[-1]
            return f"{name}^{{{imp['label']['tag']}}}"

        kw["to_latex"] = to_latex
    return kw, failures


def call(imp, model, kw):
    import sympy as sp
    from ampform_dpd.io.serialization import amplitude, dynamics
    from ampform_dpd.io.serialization.format import get_decay_chains

    chains = get_decay_chains(model)
    i = imp["i"] % len(chains)
    if imp["fn"] == "formulate":
        return amplitude.formulate(model, **kw)
    if imp["fn"] == "chain":
        return amplitude.formulate_chain_amplitude(*sp.symbols("lambda(:4)", rational=True), model, i, **kw)
    kw = dict(kw)
    if "additional_builders" in kw:
        kw["additional_definitions"] = kw.pop("additional_builders")
    return dynamics.formulate_dynamics(chains[i], model, **kw)


def outcome(imp, model, kw):
    from ..digest import digest

    try:
        return {"ok": digest(call(imp, model, kw))}, None
    except engine.SimAbort:
        raise
    except Exception as e:  # noqa: BLE001
        return {"err": f"{type(e).__name__}: {message(e)}"}, e


def child_alone(p):
    """The same import in a pristine process (without nested imports)."""
    imp = copy.deepcopy(p["imp"])
    for s in (imp["plugins"] or {}).values():
        s["nested"] = None
    kw, _ = make_callbacks(imp, [], None)
    return outcome(imp, p["model"], kw)[0]


def child_imports(script):
    import sympy as sp
    from ampform_dpd import DefinedExpression

    from ..digest import digest

    states = effective_models(script)
    objects = copy.deepcopy(script["models"])
    n = len(script["imports"])
    outs: list = [None] * n
    table: dict = {}
    kept: dict = {}

    def nested_import(spec):
        model = copy.deepcopy(script["models"][spec["model"]])
        imp = {"plugins": {spec["type"]: {"tag": spec["tag"], "fail": 0, "nested": None}} if spec["tag"] else None, "label": {"tag": "nested", "fail": 0}, "fn": "formulate", "i": 0}
        kw, _ = make_callbacks(imp, [], None)
        outcome(imp, model, kw)

    def one(k):
        imp = script["imports"][k]
        obj = objects[imp["model"]]
        if imp["edit"] is not None:  # the owner edits the definition in place
            new = copy.deepcopy(states[k])
            obj.clear()
            obj.update(new)
        model = copy.deepcopy(states[k]) if imp["temporary"] else obj
        log: list = []
        kw, failures = make_callbacks(imp, log, nested_import, kept)
        if imp["table"] is not None and "additional_builders" in kw and script["sched"] is None:
            table.clear()
            table.update(kw["additional_builders"])
            kw["additional_builders"] = table
        keys = sorted(kw.get("additional_builders", ()))
        functions = [id(v) for v in kw.get("additional_builders", {}).values()]
        before = digest(model)
        out, exc = outcome(imp, model, kw)
        props = [([i, j], p) for i, c in enumerate(model["distributions"][0]["decay_description"]["chains"]) for j, p in enumerate(c["propagators"])]
        calls = []
        for tag, propagator, resonance, m in log:
            which = [i for i, p in props if p is propagator] or [i for i, p in props if p == propagator]
            call_ = [tag, which, resonance, m is model or m == model]
            if call_ not in calls:
                calls.append(call_)
        outs[k] = {
            "out": out,
            "own": exc is not None and exc in failures,
            "failed": bool(failures),
            "calls": sorted(calls, key=json.dumps),
            "untouched": digest(model) == before,
            "table": keys == sorted(kw.get("additional_builders", ())) and functions == [id(v) for v in kw.get("additional_builders", {}).values()],
        }

    trace, steps, abort = [], 0, None
    if script["sched"]:
        sched = Scheduler(script["sched"])
        for k in range(n):
            sched.add(lambda _t, k=k: one(k))
        engine.SCHED = sched
        engine.monitoring(line=True)
        sched.run()
        engine.monitoring()
        engine.SCHED = None
        trace, steps, abort = sched.trace, sched.total, sched.abort
    else:
        for k in range(n):
            one(k)
    spoilt = sorted(tag for tag, e in kept.items() if digest(e) != digest(DefinedExpression(sp.Symbol(f"K^{tag}"), {sp.Symbol(f"K^{tag}"): 1.5})))
    return {"outs": outs, "trace": trace, "steps": steps, "abort": abort, "spoilt": spoilt}


def expected_calls(imp, model):
    """Calls of custom builders of a complete import: (tag, chain, propagator, label)."""
    types = {}
    for f in model["functions"]:
        types.setdefault(f["name"], f["type"])
    chains = model["distributions"][0]["decay_description"]["chains"]
    wanted = range(len(chains)) if imp["fn"] == "formulate" else [imp["i"] % len(chains)]
    out = set()
    for i in wanted:
        name = chains[i]["name"]
        label = name if imp["label"] is None else f"{name}^{{{imp['label']['tag']}}}"
        for j, p in enumerate(chains[i]["propagators"]):
            spec = (imp["plugins"] or {}).get(types.get(p["parametrization"]))
            if spec:
                out.add((spec["tag"], i, j, label))
    return out


def run(script, env):
    rec = env.call("imports", script)
    states = effective_models(script)
    refs = env.references("alone", [{"imp": {**imp, "edit": None, "table": None, "temporary": False, "model": 0}, "model": m} for imp, m in zip(script["imports"], states)])
    violation = None

    def bad(kind, k, text):
        nonlocal violation
        if violation is None:
            imp = script["imports"][k]
            violation = {"kind": kind, "message": f"import {k} (model {imp['model']}, {imp['fn']}, plug-ins {json.dumps(imp['plugins'])}, label {imp['label']}): {text}"}

    if rec["abort"]:
        violation = {"kind": "no progress", "message": rec["abort"]}
    if rec["spoilt"]:
        violation = {"kind": "expression of a builder", "message": f"the expression that the custom builder {rec['spoilt'][0]} returned was modified"}
    used = failing = nested = edits = 0
    for k, (imp, model, want, got) in enumerate(zip(script["imports"], states, refs, rec["outs"])):
        if got is None:
            continue
        exp = expected_calls(imp, model)
        used += bool(got["calls"])
        edits += imp["edit"] is not None
        nested += any(s["nested"] for s in (imp["plugins"] or {}).values()) and bool(got["calls"])
        seen = set()
        for tag, which, label, right in got["calls"]:
            match = {(tag, i, j, label) for i, j in which} & exp
            if not match or not right:
                bad("call", k, f"builder {tag} was called with propagator {which} (chain, position), label {label!r}, {'its' if right else 'another'} definition; expected {sorted(exp)}")
            seen |= match
        if not got["untouched"]:
            bad("definition", k, "the definition was modified")
        if not got["table"]:
            bad("builder table", k, "the dictionary of custom builders was modified")
        if got["failed"]:
            failing += 1
            if not got["own"]:
                bad("failure", k, f"the failure of the custom function did not reach the caller: {got['out']}")
        elif "ok" in got["out"] and seen != exp:
            bad("call", k, f"custom builders used for {sorted(seen)}, expected {sorted(exp)}")
        if got["out"] != want:
            bad("result", k, f"{got['out']} instead of {want} in a pristine process")
    switches = len([p for p in rec["trace"] if p[1] > 0])
    count = {
        "operations": len(script["imports"]),
        "steps": rec["steps"],
        "fault:failing custom function": failing,
        "fault:nested import": nested,
        "fault:definition edited by its owner": edits,
        "fault:thread switch": switches,
        "probe:errors among references": sum("err" in r for r in refs),
        "probe:imports with custom calls": used,
    }
    return {"violation": violation, "trace": rec["trace"], "stats": {"count": count, "nontrivial": used > 0, "interleaving": base.sha(rec["trace"]) if script["sched"] else None}}


def shrink(script, rec):
    for rest in base.drop_each(script["imports"]):
        if rest:
            yield {**script, "imports": rest}
    if script["sched"]:
        yield {**script, "sched": None}
    for i, imp in enumerate(script["imports"]):
        cands = [{**imp, "label": None}, {**imp, "edit": None}, {**imp, "table": None, "temporary": False}, {**imp, "plugins": None}]
        for t in imp["plugins"] or ():
            cands.append({**imp, "plugins": {k: v for k, v in imp["plugins"].items() if k != t}})
            cands.append({**imp, "plugins": {**imp["plugins"], t: {**imp["plugins"][t], "nested": None}}})
        for c in cands:
            if c != imp:
                yield {**script, "imports": [*script["imports"][:i], c, *script["imports"][i + 1 :]]}
    for mi, m in enumerate(script["models"]):
        chains = m["distributions"][0]["decay_description"]["chains"]
        for j in range(len(chains)):
            if len(chains) > 1:
                new = copy.deepcopy(m)
                del new["distributions"][0]["decay_description"]["chains"][j]
                yield {**script, "models": [*script["models"][:mi], new, *script["models"][mi + 1 :]]}


def pin(script, rec):
    return {**script, "sched": {"policy": "explicit", "points": rec["trace"]}} if script["sched"] else None


def shrink_schedule(script):
    if script["sched"]:
        yield from base.shrink_points(script)
