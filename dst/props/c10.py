"""C10: dynamics registrations behave as a map from decay chains to builders."""
from __future__ import annotations

import copy
import json

from . import base
from .. import engine, gen as G, ops
from ..engine import INJECT, Scheduler
from ..ops import Ctx, message

SIMS = {"quick": 900, "thorough": 25000}
RULE = (
    "One simulation = 1-3 amplitude builders over the same, equal or similar decays and a history of registrations"
    " (by name, by chain, by an equal copy of a chain), rejected registrations (unknown name, chain of another decay,"
    " wrong type), look-ups, formulations, failing builders and interruptions of any of these (between the calls of the package and in the"
    " methods that attrs generates); builders are used one after another or by concurrent"
    " threads under a seeded schedule. Oracle: a dictionary from chains to builders; an interrupted registration happens completely or not at all. Each formulation must call exactly"
    " the mapped builders on exactly their chains, carry their symbols and parameters in the right subsystem, and equal"
    " the model of a pristine process with only the effective registrations; earlier models keep their digest."
    " Non-trivial: a formulation with at least one effective registration; distinct by script and trace."
)
REAL = "ampform_dpd amplitude builder, dynamics configurator and decay classes"
STUB = "the registered builders (they log their calls); thread scheduler for the concurrent part"
INTERLEAVING = "distinct traces of (thread, step, next thread)"


def gen(rng, cfg, cuts=None):
    decays = [G.gen_decay(rng, max_chains=5)]
    # the same name for several resonances is what registrations must tell apart
    if rng.random() < 0.5:
        names = {c["res"][0] for c in decays[0]["chains"]}
        keep = rng.choice(sorted(names))
        for c in decays[0]["chains"]:
            if rng.random() < 0.5:
                c["res"][0] = keep
    for _ in range(rng.choice([0, 1, 1, 2])):
        decays.append(G.mutate_decay(rng, rng.choice(decays)))
    builders = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        i = rng.randrange(len(decays))
        ls = all(c["dec"] and c["prod"] for c in decays[i]["chains"])
        builders.append({"decay": i, "min_ls": rng.choice([True, False]) if ls else True, "all": rng.random() < 0.1, "own": rng.random() < 0.4})
    sched = base.gen_sched(rng, len(builders)) if cuts is None and len(builders) > 1 and rng.random() < 0.4 else None
    cut = cuts or (0 if sched else rng.choice([0, 0, 0.2, 0.5]))
    steps = []
    n = 0
    for _ in range(rng.randint(4, 14 if len(decays[0]["chains"]) < 6 else 40)):
        b = rng.randrange(len(builders))
        d = decays[builders[b]["decay"]]
        x = rng.random()
        if x < 0.5:
            n += 1
            y = rng.random()
            if y < 0.35:
                sel = {"name": rng.choice([c["res"][0] for c in d["chains"]])}
            elif y < 0.65:
                sel = {"chain": rng.randrange(len(d["chains"]))}
            elif y < 0.75:
                sel = {"copy": rng.randrange(len(d["chains"]))}
            elif y < 0.85:
                o = rng.randrange(len(decays))
                sel = {"foreign": [o, rng.randrange(len(decays[o]["chains"]))]}
            elif y < 0.93:
                sel = {"name": rng.choice([*G.NAMES, "none", d["chains"][0]["res"][1]])}
            else:
                sel = {"bad": rng.choice([0, None, [1], 1.5])}
            z = rng.random()
            spec = {"kind": "log", "tag": f"t{n}", "raise": rng.choice([1, 2]) if z < 0.1 else 0}
            if z > 0.85:
                spec = {"kind": "bw", "edw": rng.random() < 0.5, "dff": False, "pff": False, "phsp": "PhaseSpaceFactor"}
            steps.append({"b": b, "do": "reg", "sel": sel, "builder": spec})
            if rng.random() < cut:
                # a fraction of the calls that the registration makes
                steps[-1]["cut"] = round(rng.choice([rng.random(), 1 - rng.random() / 5]), 4)
        elif x < 0.6:
            steps.append({"b": b, "do": "get", "sel": rng.choice([{"name": rng.choice(G.NAMES)}, {"chain": rng.randrange(len(d["chains"]))}])})
        else:
            subs = sorted({c["k"] for c in d["chains"]})
            steps.append({"b": b, "do": "form", "ref": rng.choice([None, *subs]), "coeff": rng.random() < 0.2})
            if rng.random() < cut / 2:
                steps[-1]["cut"] = rng.choice([rng.randint(1, 60), rng.randint(1, 600)])
    for b in range(len(builders)):
        steps.append({"b": b, "do": "form", "ref": None, "coeff": False})
    return {"decays": decays, "builders": builders, "steps": steps, "sched": sched}


# ------------------------------------------------------------------ the model (a dictionary)
def chain_key(decay, i):
    return json.dumps([[normal(s) for s in decay["states"]], chain_value(decay["chains"][i])])


def normal(x):
    if isinstance(x, list):
        return [normal(y) for y in x]
    return float(x) if isinstance(x, (int, float)) and not isinstance(x, bool) else x


def chain_value(c):
    return [normal(c["res"]), c["k"], normal(c["dec"]), normal(c["prod"]), bool(c.get("swap"))]


def resolve(decays, d, sel):
    """Chains (by key) that a selector means in decay d, or None if it must be rejected."""
    keys = [chain_key(d, i) for i in range(len(d["chains"]))]
    if "name" in sel:
        got = [keys[i] for i, c in enumerate(d["chains"]) if c["res"][0] == sel["name"]]
        return got or None
    if "chain" in sel or "copy" in sel:
        i = sel.get("chain", sel.get("copy"))
        return [keys[i % len(keys)]]
    if "foreign" in sel:
        o, i = sel["foreign"]
        key = chain_key(decays[o], i % len(decays[o]["chains"]))
        return [key] if key in keys else None
    return None


def expected(script, outs):
    """Runs the history on dictionaries; per step what must be observed.

    A registration that is interrupted happens completely or not at all.
    """
    decays = script["decays"]
    maps: list[dict] = [{} for _ in script["builders"]]
    calls: dict = {}
    out = []
    for i, s in enumerate(script["steps"]):
        d = decays[script["builders"][s["b"]]["decay"]]
        m = maps[s["b"]]
        keys = [chain_key(d, j) for j in range(len(d["chains"]))]
        if s["do"] == "reg":
            got = resolve(decays, d, s["sel"])
            old = dict(m)
            for k in got or ():
                m[k] = (i, s["builder"])
            out.append({"rejected": got is None})
            if outs[i] and "map" in outs[i]:
                maps_ = [[x[k][0] if k in x else None for k in keys] for x in (old, m)]
                out[-1]["maps"] = maps_
                if outs[i]["map"] == maps_[0]:
                    maps[s["b"]] = old
        elif s["do"] == "get":
            got = resolve(decays, d, s["sel"])
            if got is None:
                out.append({"rejected": True})
            else:
                out.append({"rejected": False, "builder": m[got[0]][0] if got[0] in m else None})
        else:
            subs = [1, 2, 3] if script["builders"][s["b"]]["all"] else sorted({c["k"] for c in d["chains"]})
            net = [[j, m[k][1]] for j, k in enumerate(keys) if k in m]
            used = {}
            for j, k in enumerate(keys):
                if d["chains"][j]["k"] in subs and k in m and m[k][1]["kind"] == "log":
                    used.setdefault(d["chains"][j]["k"], set()).add((m[k][0], keys.index(k)))
            out.append({"map": [m[k][0] if k in m else None for k in keys], "net": net, "used": {k: sorted(v) for k, v in used.items()}})
    del calls
    return out


# ------------------------------------------------------------------ the real code
def make_logger(spec, step, log, keys_of):
    import sympy as sp
    from ampform_dpd import DefinedExpression

    if spec["kind"] == "bw":
        return ops.make_builder(spec)
    count = {"n": 0}

    def build(chain):
        count["n"] += 1
        log.append((step, keys_of(chain)))
        if spec["raise"] and count["n"] >= spec["raise"]:
            raise ops.failure(spec["tag"])
        sym = sp.Symbol(f"D^{spec['tag']}_{keys_of(chain)}")
        return DefinedExpression(sym, {sym: 1.5 + keys_of(chain)})

    return build


def tell(e):
    return f"{type(e).__name__}: {message(e)}"


def new_builder(b, decay):
    from ampform_dpd import DalitzPlotDecompositionBuilder

    return DalitzPlotDecompositionBuilder(decay, min_ls=b["min_ls"], all_subsystems=b["all"])


def child_history(script):
    from ampform_dpd import DefinedExpression
    from ..digest import digest

    ctx = Ctx()
    decays = [G.make_decay(copy.deepcopy(d)) for d in script["decays"]]
    builders, owned = [], []
    for b in script["builders"]:
        spec = copy.deepcopy(script["decays"][b["decay"]])
        decay = G.make_decay(spec) if b["own"] else decays[b["decay"]]
        owned.append(decay)
        builders.append(new_builder(b, decay))
    n = len(script["steps"])
    outs: list = [None] * n
    registered: dict = {}
    models = []

    def select(s):
        b = s["b"]
        sel = s["sel"]
        chains = owned[b].chains
        if "name" in sel:
            return sel["name"]
        if "chain" in sel:
            return chains[sel["chain"] % len(chains)]
        if "copy" in sel:
            return G.make_decay(copy.deepcopy(script["decays"][script["builders"][b]["decay"]])).chains[sel["copy"] % len(chains)]
        if "foreign" in sel:
            o, i = sel["foreign"]
            return decays[o].chains[i % len(decays[o].chains)]
        return tuple(sel["bad"]) if isinstance(sel["bad"], list) else sel["bad"]

    logs: list[list] = [[] for _ in builders]

    def perform(i):
        s = script["steps"][i]
        b = s["b"]
        builder = builders[b]
        chains = list(owned[b].chains)
        start = len(logs[b])
        try:
            target = select(s) if "sel" in s else None
            if "cut" in s:
                engine.monitoring(call=True)
                cut = s["cut"] if s["do"] == "form" else 1 + int(s["cut"] * sites(b, target))
                INJECT.fired, INJECT.countdown = None, cut
            if s["do"] == "reg":
                fn = make_logger(s["builder"], i, logs[b], chains.index)
                registered[i] = fn
                builder.dynamics_choices.register_builder(target, fn)
                outs[i] = {"rejected": False}
            elif s["do"] == "get":
                fn = builder.dynamics_choices.get_builder(target)
                empty = None
                if which(fn) is None:
                    chain = owned[b].find_chain(target) if isinstance(target, str) else target
                    empty = fn(chain) == DefinedExpression()
                outs[i] = {"rejected": False, "builder": which(fn), "empty": empty}
            else:
                model = builder.formulate(s["ref"], use_coefficients=s["coeff"])
                symbols: dict = {}
                for key, expr in model.amplitudes.items():
                    k = int(key.base.name[-1]) if hasattr(key.base, "name") else int(str(key.base.label)[-1])
                    names = {x.name for x in expr.free_symbols if getattr(x, "name", "").startswith("D^")}
                    symbols[k] = sorted(names | set(symbols.get(k, ())))
                params = sorted((x.name, v) for x, v in model.parameter_defaults.items() if getattr(x, "name", "").startswith("D^"))
                d = digest(model)
                models.append((i, model, d))
                outs[i] = {"digest": d, "symbols": symbols, "params": params, "calls": sorted(set(logs[b][start:]))}
        except engine.SimAbort:
            raise
        except KeyboardInterrupt:
            outs[i] = {"interrupted": INJECT.fired}
        except Exception as e:  # noqa: BLE001
            outs[i] = {"rejected": True, "err": tell(e)}
        finally:
            if "cut" in s:
                INJECT.countdown = None
                engine.monitoring()
        if "interrupted" in outs[i]:
            outs[i]["map"] = [which(builder.dynamics_choices.get_builder(c)) for c in chains]

    def sites(b, target):
        """Number of points at which a registration can be interrupted."""
        other = new_builder(script["builders"][b], owned[b]).dynamics_choices
        INJECT.recording = {}
        try:
            other.register_builder(target, None)
            other.register_builder(target, None)
        except Exception:  # noqa: BLE001
            pass
        found, INJECT.recording = sum(INJECT.recording.values()) // 2, None
        return found

    def which(fn):
        return next((j for j, f in registered.items() if f is fn), None)

    trace, steps, abort = [], 0, None
    if script["sched"]:
        sched = Scheduler(script["sched"])
        for b in range(len(builders)):
            sched.add(lambda _t, b=b: [perform(i) for i in range(n) if script["steps"][i]["b"] == b])
        engine.SCHED = sched
        engine.monitoring(line=True)
        sched.run()
        engine.monitoring()
        engine.SCHED = None
        trace, steps, abort = sched.trace, sched.total, sched.abort
    else:
        for i in range(n):
            perform(i)
    changed = [i for i, m, d in models if digest(m) != d]
    del ctx
    return {"outs": outs, "changed": changed, "trace": trace, "steps": steps, "abort": abort}


def child_fresh(p):
    """Model of a pristine process in which only the effective registrations are made, chain by chain."""
    from ..digest import digest

    decay = G.make_decay(p["decay"])
    builder = new_builder(p["builder"], decay)
    log: list = []
    for j, spec in p["net"]:
        builder.dynamics_choices.register_builder(decay.chains[j], make_logger(spec, 0, log, list(decay.chains).index))
    try:
        return {"digest": digest(builder.formulate(p["ref"], use_coefficients=p["coeff"]))}
    except Exception as e:  # noqa: BLE001
        return {"rejected": True, "err": tell(e)}


def run(script, env):
    rec = env.call("history", script)
    want = expected(script, rec["outs"])
    fresh_calls = []
    for s, w in zip(script["steps"], want):
        if s["do"] == "form":
            b = script["builders"][s["b"]]
            fresh_calls.append({"decay": script["decays"][b["decay"]], "builder": {**b, "own": True, "decay": 0}, "net": w["net"], "ref": s["ref"], "coeff": s["coeff"]})
    fresh = iter(env.references("fresh", fresh_calls))
    violation = None
    effective = failing = rejected = 0

    def bad(kind, i, text):
        nonlocal violation
        if violation is None:
            violation = {"kind": kind, "message": f"step {i} {json.dumps(script['steps'][i])}: {text}"}

    if rec["abort"]:
        violation = {"kind": "no progress", "message": rec["abort"]}
    for i, (s, w, got) in enumerate(zip(script["steps"], want, rec["outs"])):
        f = next(fresh) if s["do"] == "form" else None
        if got is None:
            continue
        if "interrupted" in got:
            if s["do"] == "reg" and got["map"] not in w["maps"]:
                bad("interrupted registration", i, f"left the builders of steps {got['map']}, which are neither those before nor those afterwards, {w['maps']}; interrupted at {got['interrupted']}")
            if s["do"] == "form" and got["map"] != w["map"]:
                bad("interrupted formulation", i, f"left the builders of steps {got['map']} instead of {w['map']}; interrupted at {got['interrupted']}")
            continue
        if s["do"] in {"reg", "get"}:
            rejected += w["rejected"]
            if got["rejected"] != w["rejected"]:
                bad("acceptance", i, f"{'rejected: ' + got.get('err', '') if got['rejected'] else 'accepted'}, which it must not be")
            elif s["do"] == "get" and not w["rejected"]:
                if got["builder"] != w["builder"]:
                    bad("look-up", i, f"returned the builder of step {got['builder']}, registered is that of step {w['builder']}")
                elif got["empty"] is False:
                    bad("look-up", i, "a chain without registration got dynamics")
            continue
        effective += bool(w["net"])
        raising = [x for x in w["net"] if x[1].get("raise")]
        if got.get("rejected"):
            if raising and got["err"].startswith("CallbackError: "):
                if got["err"] not in {f"CallbackError: {x[1]['tag']}" for x in raising}:
                    bad("formulation", i, f"failed with {got['err']}, which no effective builder raises")
                failing += 1
                continue
            if f != got:
                bad("formulation", i, f"failed with {got['err']}; a pristine process with the same registrations gives {f}")
            continue
        if raising and any(script["decays"][script["builders"][s["b"]]["decay"]]["chains"][x[0]]["k"] for x in raising) and any(x[1]["raise"] == 1 for x in raising):
            bad("formulation", i, f"the failure of {raising} was swallowed")
            continue
        if raising:
            continue
        calls = sorted({(a, b) for v in w["used"].values() for a, b in v})
        if sorted(map(tuple, got["calls"])) != calls:
            bad("calls", i, f"builders called (step, chain): {got['calls']}, registered: {calls}")
        tags = {j: script["steps"][j]["builder"].get("tag") for j, x in enumerate(script["steps"]) if x["do"] == "reg"}
        for k in ("1", "2", "3"):
            names = sorted({f"D^{tags[a]}_{b}" for a, b in w["used"].get(int(k), ())})
            if got["symbols"].get(k, []) != names:
                bad("symbols", i, f"dynamics symbols in subsystem {k}: {got['symbols'].get(k, [])}, registered: {names}")
        params = sorted([f"D^{tags[a]}_{b}", 1.5 + b] for a, b in calls)
        if sorted(map(list, got["params"])) != params:
            bad("parameters", i, f"parameters {got['params']}, registered: {params}")
        if f.get("digest") != got["digest"]:
            bad("model", i, f"model differs from that of a pristine process with the effective registrations {json.dumps(w['net'])[:500]} ({f})")
    if violation is None and rec["changed"]:
        bad("earlier model", rec["changed"][0], "the model changed after it was returned")
    switches = len([p for p in rec["trace"] if p[1] > 0])
    count = {
        "operations": len(script["steps"]),
        "steps": rec["steps"],
        "fault:rejected registration or look-up": rejected,
        "fault:failing builder": failing,
        "fault:thread switch": switches,
        "fault:interrupted call": sum("interrupted" in (o or ()) for o in rec["outs"]),
        "probe:formulations with registrations": effective,
        "probe:registrations replaced": sum(s["do"] == "reg" for s in script["steps"]),
    }
    return {"violation": violation, "trace": rec["trace"], "stats": {"count": count, "nontrivial": effective > 0, "interleaving": base.sha(rec["trace"]) if script["sched"] else None}}


def shrink(script, rec):
    for rest in base.drop_each(script["steps"]):
        if rest:
            yield {**script, "steps": rest}
    if script["sched"]:
        yield {**script, "sched": None}
    for di, d in enumerate(script["decays"]):
        for j in range(len(d["chains"])):
            if len(d["chains"]) > 1:
                new = {**d, "chains": d["chains"][:j] + d["chains"][j + 1 :]}
                yield {**script, "decays": [*script["decays"][:di], new, *script["decays"][di + 1 :]]}
    for i, s in enumerate(script["steps"]):
        if "cut" in s:
            yield {**script, "steps": [*script["steps"][:i], {k: v for k, v in s.items() if k != "cut"}, *script["steps"][i + 1 :]]}
        if s["do"] == "form" and (s["ref"] or s["coeff"]):
            yield {**script, "steps": [*script["steps"][:i], {**s, "ref": None, "coeff": False}, *script["steps"][i + 1 :]]}


def pin(script, rec):
    return {**script, "sched": {"policy": "explicit", "points": rec["trace"]}} if script["sched"] else None


def shrink_schedule(script):
    if script["sched"]:
        yield from base.shrink_points(script)
