"""C06: the cache keeps to its own directory."""
from __future__ import annotations

import json
import posixpath

from . import cache
from .. import exprs, fsim
from .cache import INTERLEAVING, REAL, STUB, child_direct, child_phase, child_uncached, pin, shrink, shrink_schedule  # noqa: F401

SIMS = {"quick": 600, "thorough": 30000}
ZYGOTES = 2
RULE = (
    "One simulation = 1-3 phases of 1-3 processes, each with its own environment (COMPWA_CACHE_DIR absolute, relative, nested,"
    " not yet existing or unset; XDG_CACHE_HOME, HOME, TMPDIR, NO_CACHE; working directory), on a tree that holds files of other programs"
    " next to and inside the cache directories and beside every entry; requests that succeed and fail; crashes, power loss, interruptions and I/O faults."
    " Oracle: every creating, writing, renaming or deleting operation (file-system seam and audit hook) and every difference"
    " between the tree before and after lies below a cache directory of the processes and spares the files of others; with"
    " NO_CACHE nothing is opened or changed. Non-trivial: at least one file operation; distinct by script."
)
ASSUMPTIONS = ["an empty XDG_CACHE_HOME (which ampform takes as the working directory) is not generated"]

FOREIGN = [
    "cache/ampform/README.txt", "cache/ampform/00/notes", "cache/ampform/ff/0123456789abcdef.tmp", "cache/ampform/tmp/x.pkl", "cache/ampform/.keep",
    "cache/pip/http/data", "cache/jax/entry", "home/.cache/ampform/CACHEDIR.TAG", "home/.cache/fontconfig/x", "home/project/model.json", "home/.compwa",
    "tmp/other.tmp", "tmp/ampform/a", "other/ampform/b", "xdg/ampform/aa/keep", "home/ampform/precious",
]


BESIDE = ["README", "0123456789abcdef", "fedcba9876543210.pkl", ".DS_Store", "copy of {}", "{}.mine", "notes.tmp"]  # no names that a cache might give its own files


def gen_env(rng) -> tuple:
    """(environment, working directory, cache directory relative to the tree, disabled)."""
    e = {"HOME": "$ROOT/home"}
    cwd = rng.choice(["home", "home/project", "tmp", "cache"])
    if rng.random() < 0.7:
        e["TMPDIR"] = "$ROOT/tmp"
    x = rng.random()
    if x < 0.5:
        e["XDG_CACHE_HOME"] = "$ROOT/xdg"
    system = "xdg" if x < 0.5 else "home/.cache"
    y = rng.random()
    if y < 0.25:
        where = system
    elif y < 0.3:
        e["COMPWA_CACHE_DIR"] = ""
        where = system
    elif y < 0.4:
        e["COMPWA_CACHE_DIR"] = "local-cache"
        where = posixpath.join(cwd, "local-cache")
    elif y < 0.5:
        e["COMPWA_CACHE_DIR"] = "$ROOT/new/deep/cache"
        where = "new/deep/cache"
    elif y < 0.6:
        e["COMPWA_CACHE_DIR"] = "$ROOT/cache with space/é"
        where = "cache with space/é"
    else:
        e["COMPWA_CACHE_DIR"] = "$ROOT/cache"
        where = "cache"
    off = rng.random() < 0.2
    if off:
        e["NO_CACHE"] = rng.choice(["1", "", "true", "0"])
    return e, cwd, where, off


def gen(rng, cfg):
    requests = exprs.gen_requests(rng, rng.choice([1, 2, 3]), jax=0.15, symbolic=0.35)
    if rng.random() < 0.2:
        requests.append({"do": "lambdify", "expr": ["shape", "PhaseSpaceFactor", ["s", "ma", "mb"], {}], "params": [], "backend": "numpy", "data": 0})
    if rng.random() < 0.1:
        requests.append({**requests[0], "backend": "no-such-backend"} if requests[0]["do"] == "lambdify" else requests[0])
    files = [[f, "precious " + f] for f in FOREIGN if rng.random() < 0.6]
    phases = []
    usual = gen_env(rng)
    loyal = rng.choice([0.0, 0.7, 1.0])
    for p in range(rng.choice([1, 2, 2, 3])):
        nodes = []
        for i in range(rng.choice([1, 1, 2, 3])):
            e, cwd, where, off = usual if rng.random() < loyal else gen_env(rng)
            actions = [dict(rng.choice(requests)) for _ in range(rng.randint(1, 3))]
            nd = cache.node(i, [actions], cwd="$ROOT/" + cwd, where=where, off=off, generation=p)
            nd["env"] = dict(e)
            nodes.append(nd)
        faults = cache.gen_faults(rng, nodes, rng.choice([0, 1, 2, 3]))
        ph = cache.phase(nodes, cache.gen_node_sched(rng), faults=faults, files=files if p == 0 else [])
        ph["dirs"] = ["cache", "tmp", "home/project", "xdg", "other"]
        if p and rng.random() < 0.6:
            ph["beside"] = rng.sample(BESIDE, rng.randint(1, 4))
        if rng.random() < 0.4:
            ph["power_loss"] = {"step": rng.choice([None, rng.randint(2, 30)]), "seed": rng.getrandbits(32)}
        phases.append(ph)
    cache.gen_time(rng, phases)
    cache.gen_people(rng, phases)
    cache.gen_narrow(rng, phases)
    return {"phases": phases}


def below(rel: str, where: str) -> bool:
    return rel == where or rel.startswith(where + "/")


def run(script, env):
    records = cache.play(script, env)
    found = []
    problem = cache.trouble(script, records)
    if problem:
        found.append({"kind": "blocked", "message": problem})
    foreign = {f for ph in script["phases"] for f, _ in ph.get("files", [])}
    foreign |= {f for rec in records for f in rec["beside"]}
    operations = 0
    for p, (ph, rec) in enumerate(zip(script["phases"], records)):
        dirs = [nd["where"] for nd in ph["nodes"] if not nd["off"]]
        for i, nd in enumerate(ph["nodes"]):
            where, got = nd["where"], rec["nodes"][i]
            events = got["events"] + [e[:4] for e in got["info"].get("log", [])]
            operations += len(got["events"])
            setting = f"phase {p}, process {i} with {json.dumps(nd['env'])} in {nd['cwd']}"
            for _t, _j, op, rel in events:
                if rel in foreign and op not in {"stat", "list", "open_r", "read", "close"}:
                    found.append({"kind": "foreign file", "message": f"{setting}: {op} of {rel}, which belongs to another program"})
                if nd["off"]:
                    if op not in {"stat"}:
                        found.append({"kind": "disabled cache", "message": f"{setting}: {op} of {rel} although caching is disabled"})
                elif op in fsim.WRITES and not below(rel, where) and not (op == "mkdir" and below(where, rel)):
                    found.append({"kind": "outside", "message": f"{setting}: {op} of {rel}, outside of the cache directory {where}"})
            for what in got["info"].get("outside", []):
                found.append({"kind": "outside", "message": f"{setting}: {what} outside of the cache directory"})
        change = rec["tree"]
        for rel in change["created"]:
            if not any(below(rel, w) or below(w, rel) for w in dirs):
                found.append({"kind": "outside", "message": f"phase {p}: {rel} appeared outside of the cache directories {dirs}"})
        for rel in change["changed"] + change["removed"]:
            if rel in foreign:
                found.append({"kind": "foreign file", "message": f"phase {p}: {rel}, which belongs to another program, was changed or removed"})
            elif not any(below(rel, w) for w in dirs):
                found.append({"kind": "outside", "message": f"phase {p}: {rel} was changed or removed outside of the cache directories {dirs}"})
    for p, i, t, j, a, out in cache.each(script, records):
        if out is None and not records[p]["nodes"][i]["died"]:
            found.append({"kind": "no answer", "message": f"{cache.where(p, i, t, j)}: the call never returned: {json.dumps(a)}"})
    rec = cache.result(script, records, cache.first(found), **{"probe:file operations": operations})
    rec["stats"]["nontrivial"] = operations > 0
    return rec
