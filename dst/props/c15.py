"""C15: decays and models survive transport between processes."""
from __future__ import annotations

import base64
import copy
import json
import pickle

from . import base
from .. import gen as G, ops
from ..ops import Ctx, Pool, perform, public

SIMS = {"quick": 1200, "thorough": 15000}
ZYGOTES = 4
RULE = (
    "One simulation = objects (decays, chains, states, models, dynamics expressions, imported models) that are created,"
    " used and pickled in one process, sent over one or two hops to processes with other hash seeds and histories, and"
    " used there; or one model that 2-3 worker processes formulate in parts from a transported decay while messages are"
    " reordered, duplicated and lost with a worker and sent again. Oracle: equality both ways with the local counterpart,"
    " equal hash and set membership, equal digest and type, equal outcome of operations on it; merged parts equal the"
    " model of a single process. Non-trivial: every run; distinct by script."
)
REAL = "all of ampform_dpd, sympy, pickle/cloudpickle; separate interpreters with their own PYTHONHASHSEED"
STUB = "the transport (messages are delivered by the simulator); worker crash = the process is ended and its part redone"
INTERLEAVING = "distinct delivery orders of worker answers"

KINDS = ["decay", "decay", "chain", "state", "node", "model", "model", "dynamics", "imported"]


def gen(rng, cfg):
    pool = Pool(rng)
    if rng.random() < 0.35:
        a = pool.make(["formulate"])
        a.update(cleanup=False, all=False)
        workers = rng.choice([2, 3])
        parts = []
        d = a["decay"]
        subs = sorted({c["k"] for c in d["chains"]})
        import itertools

        for hel in itertools.product(*[G._proj(s[2]) for s in d["states"]]):
            for k in subs:
                parts.append([list(hel), k])
        parts = parts[:40]
        jobs = [[i, rng.randrange(workers)] for i in range(len(parts))]
        rng.shuffle(jobs)
        events = []
        for i, w in jobs:
            x = rng.random()
            if x < 0.1:
                events.append([i, w, "lost"])
                events.append([i, rng.randrange(workers), "answer"])
            else:
                events.append([i, w, "answer"])
                if x > 0.9:
                    events.append([i, rng.randrange(workers), "duplicate"])
        delivery = list(range(len(events)))
        rng.shuffle(delivery)
        return {"mode": "workers", "op": a, "parts": parts, "events": events, "delivery": delivery, "workers": workers, "protocol": rng.choice([2, 4, 5])}
    items = []
    for _ in range(rng.randint(1, 4)):
        kind = rng.choice(KINDS)
        if kind == "model":
            op = pool.make(["formulate"])
            if rng.random() < 0.1:
                op = pool.make(["default_model"])
        elif kind == "imported":
            op = pool.make(["import_model"])
        elif kind == "dynamics":
            op = pool.make(["builder"])
        else:
            op = {"op": "decay", "decay": copy.deepcopy(rng.choice(pool.decays))}
        items.append({"kind": kind, "op": op, "i": rng.randrange(8)})
    users = ["formulate", "shared_formulate", "subsystem_amplitude", "inspect_decay", "render", "masses", "default_model", "builder", "subsystem", "third_mandelstam"]
    decays = [it["op"]["decay"] for it in items if "decay" in it["op"]]
    uses = []
    for _ in range(rng.randint(1, 4)):
        u = pool.make(users)
        if decays and rng.random() < 0.8:
            d = copy.deepcopy(rng.choice(decays))
            u["decay"] = d
            for key in ("dyn",):
                if key in u:
                    u[key] = [[s if "name" in s else {"chain": s["chain"] % len(d["chains"])}, b] for s, b in u[key] if "name" not in s or s["name"] in {c["res"][0] for c in d["chains"]}]
        uses.append(u)
    return {
        "mode": "transport",
        "items": items,
        "before": [dict(rng.choice(uses)) for _ in range(rng.choice([0, 0, 1, 2]))],
        "warm": [dict(rng.choice(uses)) for _ in range(rng.choice([0, 0, 1, 2]))],
        "uses": uses,
        "hops": rng.choice([1, 1, 2]),
        "protocol": rng.choice([2, 3, 4, 5]),
        "cloud": rng.random() < 0.3,
    }


# ------------------------------------------------------------------ in the processes
def create(item, ctx):
    """The object of an item, created here."""
    a = item["op"]
    if item["kind"] in {"model", "dynamics", "imported"}:
        return ops.OPS[a["op"]](a, ctx)
    decay = ctx.decay(a["decay"])
    i = item["i"]
    if item["kind"] == "chain":
        return decay.chains[i % len(decay.chains)]
    if item["kind"] == "state":
        return list(decay.states.values())[i % 4]
    if item["kind"] == "node":
        chain = decay.chains[i % len(decay.chains)]
        return [chain.decay, chain.decay_node, chain.resonance, chain.incoming_ls][i % 4]
    return decay


def attempt(item, ctx):
    try:
        return create(item, ctx), None
    except Exception as e:  # noqa: BLE001
        return None, ops.message(e)


def dumps(obj, p):
    if p["cloud"]:
        import cloudpickle

        return cloudpickle.dumps(obj, protocol=p["protocol"])
    return pickle.dumps(obj, protocol=p["protocol"])


def child_send(p):
    ctx = Ctx()
    objects = [attempt(it, ctx)[0] for it in p["items"]]
    for a in p["before"]:
        perform(a, ctx)
    for o in objects:  # use that may leave traces in the object
        try:
            hash(o)
        except TypeError:
            pass
    out = []
    for o in objects:
        try:
            out.append(None if o is None else base64.b64encode(dumps(o, p)).decode())
        except Exception as e:  # noqa: BLE001
            out.append("!" + ops.message(e))
    return out


def child_forward(p):
    out = []
    for b in p["blobs"]:
        if b is None or b.startswith("!"):
            out.append(b)
            continue
        try:
            obj = pickle.loads(base64.b64decode(b))
            try:
                hash(obj)
            except TypeError:
                pass
            out.append(base64.b64encode(dumps(obj, p)).decode())
        except Exception as e:  # noqa: BLE001
            out.append("!forward: " + ops.message(e))
    return out


def child_receive(p):
    from ..digest import digest

    local = Ctx()
    for a in p["warm"]:
        perform(a, local)
    transported = Ctx()
    problems = []
    hashable = 0
    for n, (it, b) in enumerate(zip(p["items"], p["blobs"])):
        mine, err = attempt(it, local)
        if b is None or mine is None:
            if (b is None) != (mine is None):
                problems.append([n, "creation", f"could be created in one process only ({err})"])
            continue
        if b.startswith("!"):
            problems.append([n, "pickle", f"cannot be transported: {b[1:]}"])
            continue
        try:
            obj = pickle.loads(base64.b64decode(b))
        except Exception as e:  # noqa: BLE001
            problems.append([n, "unpickle", f"cannot be unpickled: {ops.message(e)}"])
            continue
        if type(obj) is not type(mine):
            problems.append([n, "type", f"is a {type(obj).__name__} instead of a {type(mine).__name__}"])
        if not (obj == mine and mine == obj) or obj != mine:
            problems.append([n, "equality", "is not equal to its counterpart"])
        try:
            h = hash(mine)
        except TypeError:
            h = None
        if h is not None:
            hashable += 1
            if hash(obj) != h:
                problems.append([n, "hash", "has another hash than its counterpart"])
            elif obj not in {mine} or mine not in {obj}:
                problems.append([n, "hash", "is not found in a set that contains its counterpart"])
        if digest(obj) != digest(mine):
            problems.append([n, "digest", "differs in structure, number types or order from its counterpart"])
        if it["kind"] == "decay":
            transported.objects["decay" + json.dumps(it["op"]["decay"], sort_keys=False)] = obj
    outs = [public(perform(a, transported)) for a in p["uses"]]
    mixed = []
    for it in p["items"]:  # an equal local chain must be accepted by a builder over the transported decay, and vice versa
        if it["kind"] != "decay":
            continue
        got = transported.objects.get("decay" + json.dumps(it["op"]["decay"], sort_keys=False))
        if got is None:
            continue
        from ampform_dpd import DalitzPlotDecompositionBuilder

        mine = local.decay(it["op"]["decay"])
        for a, b in ((got, mine), (mine, got)):
            builder = DalitzPlotDecompositionBuilder(a)
            marker = object()
            try:
                for chain in b.chains:
                    builder.dynamics_choices.register_builder(chain, marker)
                ok = all(builder.dynamics_choices.get_builder(c) is marker for c in a.chains)
                mixed.append(ok)
            except Exception as e:  # noqa: BLE001
                mixed.append(ops.message(e))
    return {"problems": problems, "outs": outs, "mixed": mixed, "hashable": hashable}


child_reference = base.child_reference


def child_decay(p):
    d = G.make_decay(p["decay"])
    for c in d.chains:
        hash(c)  # must leave nothing in the object that travels
    return base64.b64encode(pickle.dumps(d, protocol=p["protocol"])).decode()


def child_part(p):
    """A worker: formulates parts of a model from a transported decay."""
    import sympy as sp

    from ampform_dpd import DalitzPlotDecompositionBuilder

    decay = pickle.loads(base64.b64decode(p["blob"]))
    a = p["op"]
    m = a["min_ls"]
    b = DalitzPlotDecompositionBuilder(decay, min_ls=tuple(m) if isinstance(m, list) else m)
    out = {}
    try:
        ops.register(b, decay, a["dyn"])
        for i, (hel, k) in p["parts"]:
            part = b.formulate_subsystem_amplitude(*map(sp.Rational, hel), k, use_coefficients=a["coeff"])
            out[str(i)] = base64.b64encode(pickle.dumps(part, protocol=p["protocol"])).decode()
    except Exception as e:  # noqa: BLE001
        return {"err": f"{type(e).__name__}: {ops.message(e)}"}
    return out


def child_merge(p):
    """Collects the answers and compares with a single process."""
    import sympy as sp
    from ..digest import digest

    a = p["op"]
    ctx = Ctx()
    got: dict = {}
    for i, blob in p["answers"]:
        part = pickle.loads(base64.b64decode(blob))
        if i in got and digest(got[i]) != digest(part):
            return {"err": f"two answers for part {i} differ"}
        got.setdefault(i, part)
    try:
        b = ops.amplitude_builder(a, ctx)
        for i, (hel, k) in enumerate(p["parts"]):
            if i not in got:
                return {"err": f"part {i} is missing"}
            mine = b.formulate_subsystem_amplitude(*map(sp.Rational, hel), k, use_coefficients=a["coeff"])
            if digest(mine) != digest(got[i]):
                return {"err": f"part {i} (helicities {hel}, subsystem {k}) differs from the single-process result"}
            if mine != got[i]:
                return {"err": f"part {i} is not equal to the single-process result"}
        model = b.formulate(a["ref"], use_coefficients=a["coeff"])
    except Exception as e:  # noqa: BLE001
        return {"failed": f"{type(e).__name__}: {ops.message(e)}"}
    merged: dict = {}
    params: dict = {}
    for i in range(len(p["parts"])):
        merged.update(got[i].amplitudes)
        params.update(got[i].parameter_defaults)
    for key, value in merged.items():
        if digest(model.amplitudes.get(key)) != digest(value):
            return {"err": f"merged amplitude {key} differs from the single-process model"}
    for key, value in params.items():
        if key not in model.masses and digest(model.parameter_defaults.get(key)) != digest(value):
            return {"err": f"merged parameter {key} differs from the single-process model"}
    return {"ok": len(merged)}


# ------------------------------------------------------------------ the run
def run(script, env):
    return run_workers(script, env) if script["mode"] == "workers" else run_transport(script, env)


def run_workers(script, env):
    a = script["op"]
    blob = env.call("decay", {"decay": a["decay"], "protocol": script["protocol"]}, 0)
    assigned: dict = {}
    for i, w, what in script["events"]:
        if what != "lost":  # a lost worker does its work, but the answer never arrives
            assigned.setdefault(w, []).append([i, script["parts"][i]])
    answers: dict = {}
    errors = []
    for w, parts in sorted(assigned.items()):
        got = env.call("part", {"blob": blob, "op": a, "parts": parts, "protocol": script["protocol"]}, 1 + w)
        if "err" in got:
            errors.append(got["err"])
        answers[w] = got
    violation = None
    arrived = []
    if not errors:
        for e in script["delivery"]:
            i, w, what = script["events"][e]
            if what != "lost":
                arrived.append([i, answers[w][str(i)]])
    merged = env.call("merge", {"op": a, "parts": script["parts"], "answers": arrived}, 0) if not errors else env.call("merge", {"op": a, "parts": [], "answers": []}, 0)
    if errors:
        if "failed" not in merged:  # (which of several errors comes first depends on the distribution)
            violation = {"kind": "worker failed", "message": f"a worker failed with {errors[0]}; a single process: {merged}"}
    elif "ok" not in merged:
        violation = {"kind": "workers", "message": f"formulation in {script['workers']} workers: {merged.get('err') or merged.get('failed')}; {json.dumps(a)[:600]}"}
    count = {
        "operations": len(script["events"]) + 2,
        "fault:answer lost with its worker": sum(e[2] == "lost" for e in script["events"]),
        "fault:duplicated answer": sum(e[2] == "duplicate" for e in script["events"]),
        "fault:reordered answers": sum(a > b for a, b in zip(script["delivery"], script["delivery"][1:])),
        "probe:worker runs": 1,
        "probe:errors among outcomes": len(errors),
    }
    return {"violation": violation, "stats": {"count": count, "nontrivial": not errors, "interleaving": base.sha([script["events"], script["delivery"]])}}


def run_transport(script, env):
    wire = {"protocol": script["protocol"], "cloud": script["cloud"]}
    blobs = env.call("send", {"items": script["items"], "before": script["before"], **wire}, 0)
    if script["hops"] == 2:
        blobs = env.call("forward", {"blobs": blobs, **wire}, 2)
    rec = env.call("receive", {"items": script["items"], "blobs": blobs, "warm": script["warm"], "uses": script["uses"]}, 1)
    refs = env.references("reference", script["uses"], 1)
    violation = None
    for n, kind, text in rec["problems"]:
        violation = violation or {"kind": kind, "message": f"transported {script['items'][n]['kind']} {text}: {json.dumps(script['items'][n])[:900]}"}
    for a, got, want in zip(script["uses"], rec["outs"], refs):
        if not base.same(got, want):
            violation = violation or {"kind": "use", "message": "with a transported decay, " + base.difference(a, got, want)}
    for ok in rec["mixed"]:
        if ok is not True:
            violation = violation or {"kind": "mixed use", "message": f"a builder over a decay does not take the equal chains of its transported counterpart: {ok}"}
    count = {
        "operations": len(script["uses"]) + len(script["before"]) + len(script["warm"]) + len(script["items"]),
        "fault:transport to a process with another hash seed": script["hops"],
        "probe:hashable objects": rec["hashable"],
        "probe:objects transported": sum(b is not None for b in blobs),
        "probe:errors among outcomes": sum("err" in r for r in refs),
    }
    for it in script["items"]:
        count[f"probe:kind {it['kind']}"] = count.get(f"probe:kind {it['kind']}", 0) + 1
    return {"violation": violation, "stats": {"count": count, "nontrivial": any(b is not None for b in blobs)}}


def shrink(script, rec):
    if script["mode"] == "workers":
        n = len(script["parts"])
        for keep in base.drop_each(list(range(n))):
            if keep:
                new = {j: i for i, j in enumerate(keep)}
                events, old = [], []
                for e, (i, w, what) in enumerate(script["events"]):
                    if i in new:
                        events.append([new[i], w, what])
                        old.append(e)
                pos = {e: i for i, e in enumerate(old)}
                yield {**script, "parts": [script["parts"][i] for i in keep], "events": events, "delivery": [pos[e] for e in script["delivery"] if e in pos]}
        for op in base.simplify_action(script["op"]):
            if op.get("decay") == script["op"]["decay"]:
                yield {**script, "op": op}
        return
    for key in ("items", "before", "warm", "uses"):
        for rest in base.drop_each(script[key]):
            yield {**script, key: rest}
    if script["hops"] == 2:
        yield {**script, "hops": 1}
    if script["cloud"]:
        yield {**script, "cloud": False}
    yield from base.shrink_actions(script, "uses")
    for i, it in enumerate(script["items"]):
        for op in base.simplify_action(it["op"]):
            yield {**script, "items": [*script["items"][:i], {**it, "op": op}, *script["items"][i + 1 :]]}
