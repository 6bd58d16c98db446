"""Parts shared by the simulations of processes that share a cache directory (C01-C06)."""
from __future__ import annotations

import json
import math
import shutil
import tempfile

from . import base
from .. import exprs
from ..world import child_direct, child_phase, child_uncached  # noqa: F401 - called in the simulator images

REAL = (
    "ampform_dpd.io.cached and all it uses (ampform's cache, tensorwaves, SymPy, JAX, NumPy, cloudpickle), with real files,"
    " real processes and real threads"
)
STUB = (
    "process and thread scheduling (lock-step controller), the raw layer of file operations (pass-through with faults), "
    "power loss (damage to unsynced files), the first two digits of entry names in scripts that put all entries into one directory, version numbers of the installed software, process identifiers"
)
INTERLEAVING = "distinct sequences of (file operation or line, process or thread) at which the baton changed hands"


# ------------------------------------------------------------------ generation
def gen_node_sched(rng) -> dict:
    x = rng.random()
    seed = rng.getrandbits(32)
    if x < 0.4:
        return {"policy": "random", "seed": seed, "p": rng.choice([0.1, 0.3, 0.6])}
    if x < 0.7:
        return {"policy": "pct", "seed": seed, "depth": rng.randint(1, 5)}
    return {"policy": "lockstep", "seed": seed}


def gen_thread_sched(rng) -> dict:
    s = base.gen_sched(rng, 2)
    if s["policy"] == "pct":
        s["length"] = rng.choice([50, 200, 800])
    return s


def node(i: int, threads: list, **kw) -> dict:
    return {"id": i, "env": {"COMPWA_CACHE_DIR": "$ROOT/cache", "HOME": "$ROOT/home", "TMPDIR": "$ROOT/tmp"}, "threads": threads, **kw}


def phase(nodes: list, sched=None, **kw) -> dict:
    return {"nodes": nodes, "sched": sched or {"policy": "none"}, "dirs": ["cache", "tmp"], **kw}


def gen_time(rng, phases: list) -> None:
    """Time that passes between the phases, and clocks that go wrong."""
    for ph in phases:
        if rng.random() < 0.25:
            ph["elapsed"] = rng.choice([60, 3700, 90000, 86400 * 8, 86400 * 45, 86400 * 400, -3700, -86400 * 400])
        for nd in ph["nodes"]:
            if rng.random() < 0.08:
                nd["clock"] = rng.choice([-3600, 3600, 86400 * 400, -86400 * 400])


PROGRAMS = [["$ROOT/home/fit.py"], ["/usr/lib/python3/ipykernel_launcher.py", "-f", "kernel.json"], [""], ["-c"], ["$ROOT/home/fit.py", "--seed", "3"], ["-m", "pytest"]]
PERSONAL = {
    "USER": ["alice", "bob"],
    "LOGNAME": ["alice", "bob"],
    "LANG": ["C", "de_DE.UTF-8"],
    "TZ": ["UTC", "Asia/Tokyo"],
    "TERM": ["dumb", "xterm-256color"],
    "HOSTNAME": ["node1", "node2"],
    "SLURM_JOB_ID": ["17", "18"],
    "OMP_NUM_THREADS": ["1", "4"],
    "VIRTUAL_ENV": ["$ROOT/home/venv", "/opt/conda"],
    "COLUMNS": ["80", "132"],
}


def gen_people(rng, phases: list, p: float = 0.4) -> None:
    """Programs, users and terminals behind the processes, none of which is part of a request."""
    if rng.random() >= p:
        return
    for ph in phases:
        for nd in ph["nodes"]:
            if rng.random() < 0.7:
                nd["program"] = rng.choice(PROGRAMS)
            nd["env"].update({k: rng.choice(v) for k, v in PERSONAL.items() if rng.random() < 0.3})


def gen_narrow(rng, phases: list, p: float = 0.3) -> None:
    """Entries that meet in one subdirectory."""
    if rng.random() < p:
        for ph in phases:
            for nd in ph["nodes"]:
                nd["narrow"] = True


def split(rng, actions: list, parts: int) -> list:
    out: list = [[] for _ in range(parts)]
    for a in actions:
        rng.choice(out).append(a)
    return out


def gen_faults(rng, nodes: list, n: int) -> list:
    out = []
    for _ in range(n):
        i = rng.randrange(len(nodes))
        t = rng.randrange(len(nodes[i]["threads"]))
        if not nodes[i]["threads"][t]:
            continue
        kind = rng.choices(["crash", "crash_after", "crash_mid", "errno", "short", "interrupt"], [3, 2, 4, 4, 2, 2])[0]
        f = {"node": i, "thread": t, "action": rng.randrange(len(nodes[i]["threads"][t])), "at": rng.randint(1, 9), "kind": kind}
        if kind == "errno":
            f["errno"] = rng.choice(["EIO", "EIO", "ENOSPC", "EACCES", "EMFILE", "ESTALE"])
            f["sticky"] = rng.random() < 0.3
        if kind in {"short", "crash_mid"}:
            # strikes at the first suitable operation from then on
            f["sticky"] = kind == "crash_mid" or rng.random() < 0.5
        if kind in {"short", "crash_mid", "errno"}:
            f["frac"] = rng.choice([0.0, 0.02, 0.3, 0.5, 0.9, 0.999])
        if kind == "errno" and rng.random() < 0.5:
            f["ops"] = rng.choice([["write"], ["read"], ["open_r"], ["open_w"], ["mkdir"], ["close"], ["stat"]])
            f["at"] = 1
            f["sticky"] = True
        out.append(f)
    return out


# ------------------------------------------------------------------ execution
def play(script: dict, env, k: int = 0) -> list:
    """Runs the phases of a script on one fresh scratch tree."""
    root = tempfile.mkdtemp(prefix="dst-")
    try:
        records = []
        for ph in script["phases"]:
            records.append(env.call("phase", {**ph, "root": root}, k + ph.get("image", 0)))
        return records
    finally:
        shutil.rmtree(root, ignore_errors=True)


def requests_of(script: dict) -> list:
    return [a for ph in script["phases"] for n in ph["nodes"] for t in n["threads"] for a in t]


def is_request(a: dict) -> bool:
    return a["do"] not in {"update", "eval", "params", "mutate", "crowd"}


def plain(a: dict) -> dict:
    return {k: v for k, v in a.items() if k not in {"slot", "interrupt_at"}}


def equal_key(a: dict, out: dict | None) -> str:
    """Requests with the same key are equal in Python (1 == 1.0), whatever their number types.

    A process may answer a request from its memory of an equal one; only the first of them
    is expected to leave an entry in the directory.
    """
    return json.dumps([a["do"], a.get("backend"), (out or {}).get("same")])


def entry_key(a: dict, out: dict) -> str:
    """The entry of the directory that belongs to a completed request."""
    style = a.get("style") == "str" and a.get("params") is None
    return json.dumps([a["do"], a.get("backend"), style, out.get("key")])


def ambiguous(outs: list) -> set:
    """Requests that a process made in several equal forms: only one of them leaves an entry.

    Takes the (action, outcome) pairs of one process; returns their equal_key.
    """
    forms: dict = {}
    for a, out in outs:
        forms.setdefault(equal_key(a, out), set()).add(entry_key(a, out or {}))
    return {k for k, v in forms.items() if len(v) > 1}


def uncached(script: dict, env, k: int = 0) -> dict:
    """Outcomes of all requests of a script with caching disabled."""
    todo = {}
    for a in requests_of(script):
        if is_request(a):
            todo.setdefault(json.dumps(plain(a)), {"actions": [plain(a)]})
    outs = env.references("uncached", list(todo.values()), k)
    return {key: out[0] for key, out in zip(todo, outs)}


def direct(script: dict, env, k: int = 0) -> dict:
    """Outcomes of all requests of a script, of the libraries themselves."""
    todo = {}
    for a in requests_of(script):
        if is_request(a):
            todo.setdefault(json.dumps(plain(a)), {"actions": [plain(a)]})
    outs = env.references("direct", list(todo.values()), k)
    return {key: out[0] for key, out in zip(todo, outs)}


def close(a: float, b: float, scale: float) -> bool:
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= 1e-9 * max(scale, 1e-3)


def same_fn(g: dict, w: dict) -> str | None:
    for key in ("type", "args", "parameters", "error", "shape", "dtype", "array"):
        if g.get(key) != w.get(key):
            return f"{key} {g.get(key)} instead of {w.get(key)}"
    gv, wv = g.get("values", []), w.get("values", [])
    if len(gv) != len(wv):
        return f"{len(gv)} values instead of {len(wv)}"
    for (a, b), (c, d) in zip(gv, wv):
        scale = max(abs(c), abs(d)) if all(map(math.isfinite, (c, d))) else 1.0
        if not (close(a, c, scale) and close(b, d, scale)):
            return f"values {gv} instead of {wv}"
    return None


def differs(got: dict, want: dict) -> str | None:
    """Why an outcome is not the uncached outcome (None if it is)."""
    if "err" in want or "err" in got:
        if (got.get("err"), got.get("msg")) == (want.get("err"), want.get("msg")):
            return None
        if "err" in got:
            return f"raised {got['err']}: {got['msg'][:200]}" + ("" if "err" not in want else f" instead of {want['err']}: {want['msg'][:200]}")
        return f"succeeded, but without a cache it raises {want['err']}: {want['msg'][:200]}"
    if "expr" in want:
        return None if got.get("expr") == want["expr"] else "returned another expression"
    if "fn" in want:
        return same_fn(got.get("fn", {}), want["fn"])
    if "parameters" in want:
        return None if got.get("parameters") == want["parameters"] else f"parameters {got.get('parameters')} instead of {want['parameters']}"
    return None


def each(script: dict, records: list):
    """(phase, node, thread, action number, action, outcome) in order of the script."""
    for p, (ph, rec) in enumerate(zip(script["phases"], records)):
        for i, nd in enumerate(ph["nodes"]):
            for t, actions in enumerate(nd["threads"]):
                outs = rec["nodes"][i]["threads"][t]
                for j, a in enumerate(actions):
                    yield p, i, t, j, a, outs[j]


SYMBOLIC = {"doit", "unfold", "subs", "xreplace", "simplify", "trigsimp"}


def torn(a: dict, out: dict | None) -> bool:
    """Known finding: ampform's cache does not cope with entries that are not complete."""
    return bool(out) and a["do"] in SYMBOLIC and (out.get("err"), out.get("msg")) in {
        ("EOFError", "Ran out of input"),
        ("UnpicklingError", "pickle data was truncated"),
        ("UnpicklingError", "invalid load key, '\\x00'."),
    }


TORN = "incomplete entry of a symbolic operation"


def first(violations: list) -> dict | None:
    """The violation to report: one that is not a known finding, if there is any."""
    for v in violations:
        if v["kind"] != TORN:
            return v
    return violations[0] if violations else None


def where(p, i, t, j) -> str:
    return f"phase {p}, process {i}, thread {t}, call {j}"


def trouble(script: dict, records: list) -> str | None:
    """Deadlocks and errors that escaped from the threads of a process."""
    for p, rec in enumerate(records):
        for i, nd in enumerate(rec["nodes"]):
            info = nd["info"]
            if info.get("abort"):
                return f"phase {p}, process {i}: {info['abort']}"
            if info.get("errors"):
                return f"phase {p}, process {i}: {info['errors'][0]}"
    return None


def count(script: dict, records: list) -> dict:
    c: dict = {"operations": 0, "steps": 0, "processes": 0}
    for ph, rec in zip(script["phases"], records):
        c["processes"] += len(ph["nodes"])
        c["steps"] += rec["steps"] + sum(n["info"].get("steps") or 0 for n in rec["nodes"])
        for f in rec["faults"]:
            key = f"fault:{f[3]}{' ' + f[4] if f[4] else ''} at {f[5]}"
            c[key] = c.get(key, 0) + 1
        if ph.get("elapsed"):
            c["fault:clock jump between processes"] = c.get("fault:clock jump between processes", 0) + 1
        if skewed := sum("clock" in n for n in ph["nodes"]):
            c["fault:process with a skewed clock"] = c.get("fault:process with a skewed clock", 0) + skewed
        if any(n.get("narrow") for n in ph["nodes"]):
            c["probe:phases with all entries in one directory"] = c.get("probe:phases with all entries in one directory", 0) + 1
        if rec["power_lost"]:
            c["fault:power loss"] = c.get("fault:power loss", 0) + 1
        for _, how in rec["damage"]:
            key = f"fault:unsynced file {how}"
            c[key] = c.get(key, 0) + (how != "keep")
        c["fault:process switches"] = c.get("fault:process switches", 0) + max(0, len(rec["trace"]) - 1)
        c["fault:thread switches"] = c.get("fault:thread switches", 0) + sum(len(n["info"].get("trace") or []) for n in rec["nodes"])
        c["fault:stalled process"] = c.get("fault:stalled process", 0) + len(ph.get("stalls", []))
        c["fault:process died"] = c.get("fault:process died", 0) + sum(n["died"] for n in rec["nodes"])
    for *_, a, out in each(script, records):
        c["operations"] += 1
        c["probe:" + a["do"]] = c.get("probe:" + a["do"], 0) + 1
        if out:
            if out.get("interrupted"):
                c["fault:interrupt in a call"] = c.get("fault:interrupt in a call", 0) + 1
            if "err" in out:
                c["probe:errors among outcomes"] = c.get("probe:errors among outcomes", 0) + 1
            elif is_request(a):
                key = "probe:answered by work" if out["work"] else "probe:answered from a cache"
                c[key] = c.get(key, 0) + 1
    return c


def interleaving(records: list) -> str:
    return base.sha([[r["trace"], [n["info"].get("trace") for n in r["nodes"]], r["faults"]] for r in records])


def result(script, records, violation, **kw) -> dict:
    c = count(script, records)
    c.update(kw)
    return {
        "violation": violation,
        "trace": [[r["trace"], [n["info"].get("trace") for n in r["nodes"]]] for r in records],
        "stats": {"count": c, "nontrivial": c["operations"] > 0, "interleaving": interleaving(records)},
    }


# ------------------------------------------------------------------ minimisation
def shrink(script: dict, rec: dict):
    phases = script["phases"]
    for rest in base.drop_each(phases):
        if rest:
            yield {**script, "phases": rest}
    for p, ph in enumerate(phases):
        def put(new, p=p):
            return {**script, "phases": [*phases[:p], new, *phases[p + 1 :]]}

        if ph.get("elapsed"):
            yield put({**ph, "elapsed": 0})
        for key in ("faults", "stalls", "files"):
            if ph.get(key):
                for rest in base.drop_each(ph[key]):
                    yield put({**ph, key: rest})
        if ph.get("power_loss"):
            yield put({k: v for k, v in ph.items() if k != "power_loss"})
        if ph.get("image"):
            yield put({**ph, "image": 0})
        for i, nd in enumerate(ph["nodes"]):
            plain = {**{k: v for k, v in nd.items() if k != "program"}, "env": {k: v for k, v in nd["env"].items() if k not in PERSONAL}}
            if plain != nd:
                yield put({**ph, "nodes": [*ph["nodes"][:i], plain, *ph["nodes"][i + 1 :]]})
            if nd.get("narrow"):
                yield {**script, "phases": [{**ph2, "nodes": [{k: v for k, v in n2.items() if k != "narrow"} for n2 in ph2["nodes"]]} for ph2 in phases]}
            for t, actions in enumerate(nd["threads"]):
                for rest in base.drop_each(actions):
                    yield put({**ph, "nodes": [*ph["nodes"][:i], {**nd, "threads": [*nd["threads"][:t], rest, *nd["threads"][t + 1 :]]}, *ph["nodes"][i + 1 :]]})
            if len(nd["threads"]) > 1:
                for t in range(len(nd["threads"])):
                    yield put({**ph, "nodes": [*ph["nodes"][:i], {**nd, "threads": nd["threads"][:t] + nd["threads"][t + 1 :]}, *ph["nodes"][i + 1 :]]})
        if len(ph["nodes"]) > 1:
            for i, nd in enumerate(ph["nodes"]):
                if not any(nd["threads"]):
                    faults = [{**f, "node": f["node"] - (f["node"] > i)} for f in ph.get("faults", []) if f["node"] != i]
                    yield put({**ph, "nodes": ph["nodes"][:i] + ph["nodes"][i + 1 :], "faults": faults, "stalls": []})
    for x in simpler_requests(script):
        yield x


def simpler_requests(script: dict):
    for p, ph in enumerate(script["phases"]):
        for i, nd in enumerate(ph["nodes"]):
            for t, actions in enumerate(nd["threads"]):
                for j, a in enumerate(actions):
                    cands = []
                    if a.get("params"):
                        cands += [{**a, "params": rest} for rest in base.drop_each(a["params"])]
                    if a.get("backend") == "jax":
                        cands.append({**a, "backend": "numpy"})
                    if a.get("data"):
                        cands.append({**a, "data": 0})
                    for b in cands:
                        text, new = json.dumps(a), b
                        # the same request everywhere
                        yield json_replace(script, text, new)
                        s = json.loads(json.dumps(script))
                        s["phases"][p]["nodes"][i]["threads"][t][j] = b
                        yield s


def json_replace(x, text: str, new):
    if isinstance(x, dict):
        if "do" in x and json.dumps(x) == text:
            return new
        return {k: json_replace(v, text, new) for k, v in x.items()}
    if isinstance(x, list):
        return [json_replace(v, text, new) for v in x]
    return x


def pin(script: dict, rec: dict):
    """The seeded schedules replaced by the switches that they made."""
    trace = rec.get("trace")
    if not trace or len(trace) != len(script["phases"]):
        return None
    phases = []
    for ph, (switches, threads) in zip(script["phases"], trace):
        nodes = [{**nd, "sched": {"policy": "explicit", "points": tr}} if tr is not None and len(nd["threads"]) > 1 else nd for nd, tr in zip(ph["nodes"], threads)]
        phases.append({**ph, "nodes": nodes, "sched": {"policy": "explicit", "points": switches}, "stalls": []})
    return {**script, "phases": phases}


def shrink_schedule(script: dict):
    phases = script["phases"]
    for p, ph in enumerate(phases):
        for rest in base.drop_each(ph["sched"].get("points", [])):
            yield {**script, "phases": [*phases[:p], {**ph, "sched": {"policy": "explicit", "points": rest}}, *phases[p + 1 :]]}
        for i, nd in enumerate(ph["nodes"]):
            for rest in base.drop_each(nd.get("sched", {}).get("points", [])):
                new = {**nd, "sched": {"policy": "explicit", "points": rest}}
                yield {**script, "phases": [*phases[:p], {**ph, "nodes": [*ph["nodes"][:i], new, *ph["nodes"][i + 1 :]]}, *phases[p + 1 :]]}
