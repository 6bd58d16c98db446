"""C13: the particle database loads completely or not at all."""
from __future__ import annotations

import _thread
import errno
import glob
import json
import os
import shutil
import tempfile

from . import base
from .. import boot, engine, fsim
from ..digest import digest
from ..engine import INJECT, Scheduler

SIMS = {"quick": 140, "thorough": 12000}
RULE = (
    "One simulation = one process with 1-3 threads, each of which loads the particle database 1-4 times, changes and checks"
    " the databases it received, while reads of the package's definition file and of the default definitions of qrules fail, come up short or are interrupted at a chosen read. In some worlds the"
    " default particles and the package's definitions overlap, or there are more of the latter. The working directory"
    " contains decoys of the definition files or does not exist any more. Oracle: each load returns exactly the default"
    " particles plus the package's definitions (all properties), or raises the injected error; afterwards each database"
    " equals its model under its owner's changes. Non-trivial: a fault struck, or two threads; distinct by script."
)
REAL = "ampform_dpd.adapter.qrules.load_particles, qrules, particle, PyYAML, CPython threads and text I/O"
STUB = "raw layer of file operations (pass-through with faults), thread scheduler, package directories are read-only"
INTERLEAVING = "distinct traces of (thread, step, next thread)"
ASSUMPTIONS = ["the definition files on disk are intact; only reading them fails", "the PDG tables of the particle package are read when qrules is imported, before any load"]
FILES = ["particle-definitions.yml", "additional_definitions.yml"]


# ------------------------------------------------------------------ generation
def gen(rng, cfg):
    n = rng.choice([1, 1, 1, 2, 2, 3])
    threads = []
    for _ in range(n):
        actions, slots = [], []
        for _ in range(rng.choice([1, 2, 2, 3, 4]) if n == 1 else rng.choice([1, 1, 2])):
            actions.append({"do": "load", "slot": len(slots)})
            slots.append(len(slots))
            for _ in range(rng.choice([0, 0, 1, 2])):
                s = rng.choice(slots)
                actions.append({"do": "change", "slot": s, "how": rng.choice(["remove", "add", "replace", "clear", "remove own", "replace own"]), "n": rng.randrange(10**6)})
        threads.append(actions)
    faults = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        t = rng.randrange(n)
        j = rng.choice([j for j, a in enumerate(threads[t]) if a["do"] == "load"])
        kind = rng.choice(["errno", "errno", "errno", "short", "interrupt", *["call"] * (n == 1)])
        if kind == "call":
            threads[t][j] = {**threads[t][j], "interrupt_at": rng.randint(1, 10)}
            continue
        f = {"thread": t, "action": j, "kind": kind, "file": rng.choice([*FILES, FILES[0], None]), "at": 1}
        if kind == "errno":
            f["errno"] = rng.choice(["EIO", "EMFILE", "EACCES", "ENOENT", "ESTALE", "EINTR"])
            f["ops"] = ["read"] if f["errno"] in {"EIO", "ESTALE", "EINTR"} and rng.random() < 0.7 else rng.choice([["open_r"], ["open_r"], ["open_r", "stat", "list"]])
        elif kind == "interrupt":
            f["ops"] = rng.choice([["read"], ["open_r"], ["close"]])
        else:
            f["ops"], f["sticky"], f["frac"] = ["read"], True, rng.choice([0.0, 0.01, 0.5, 0.999])
        if f["ops"] == ["read"] and kind != "short":
            f["at"] = rng.choice([1, 1, 2, 3, 6, 10, 20])
        faults.append(f)
    return {
        "threads": threads,
        "faults": faults,
        "data": rng.choice(["stock", "stock", "default overlaps", "own overrides"]),
        "cwd": rng.choice(["plain", "decoys", "decoys", "gone"]),
        "sched": base.gen_sched(rng, n) if n > 1 else {"policy": "none"},
    }


# ------------------------------------------------------------------ in the forks
def content(db) -> dict:
    """What the database holds: by name, by iteration and by PDG number."""
    out = {}
    for p in db:
        d = digest(p)
        if p.name in out:
            d = "listed twice"
        out[p.name] = d
    for name in list(out):
        try:
            if digest(db[name]) != out[name]:
                out[name] += " (other particle by name)"
        except KeyError:
            out[name] += " (not found by name)"
    if len(db) != len(out):
        out["(length)"] = len(db)
    return out


def definitions() -> list:
    found = sorted(glob.glob(boot.SRC + boot.PKG + "/**/particle-definitions.yml", recursive=True))
    return found or sorted(glob.glob(boot.SRC + boot.PKG + "/**/*.y*ml", recursive=True))


def doctor(kind: str, directory: str) -> dict:
    """Definition files of another release: {file of the installed packages: stand-in}."""
    import qrules
    import yaml

    if kind == "stock":
        return {}
    default = os.path.join(os.path.dirname(qrules.__file__), "additional_definitions.yml")
    (own,) = definitions()
    texts = {f: yaml.safe_load(open(f)) for f in (default, own)}
    first = texts[own]["particles"][0]
    if kind == "default overlaps":  # the default particles contain one of the own definitions, with other properties
        texts[default]["particles"] += [{**first, "mass": first["mass"] + 1, "width": 0.5}]
    else:  # there are several own definitions, of which some replace default particles
        stock = texts[default]["particles"]
        texts[own]["particles"] += [
            {**first, "name": "Lambda(2001)", "pid": 11111112, "mass": first["mass"] + 0.125},
            {**stock[0], "mass": stock[0]["mass"] + 0.25},
            {**stock[-1], "name": stock[-1]["name"] + "X", "pid": 11111113, "mass": stock[-1]["mass"] + 0.375},
        ]
    out = {}
    for f, text in texts.items():
        out[os.path.abspath(f)] = os.path.join(directory, os.path.basename(f))
        with open(out[os.path.abspath(f)], "w") as stream:
            yaml.safe_dump(text, stream, sort_keys=False)
    return out


def child_expected(kind: str) -> dict:
    """The complete database, from its sources, without the repository's code."""
    import particle
    import qrules

    root = tempfile.mkdtemp(prefix="dst-")
    redirect = doctor(kind, root)
    fs = fsim.install(root, lambda *_: None)
    fs.installed = [boot.SRC.rstrip("/"), os.path.dirname(qrules.__file__)]
    fs.redirect = redirect
    fs.context[_thread.get_ident()] = [0, -1, 0]
    fs.on = True
    db = qrules.load_default_particles()
    own = [qrules.io.load(f) for f in definitions()]
    for x in own:
        db.update(x)
    fs.on = False
    shutil.rmtree(root, ignore_errors=True)
    return {"all": content(db), "own": sorted(p.name for x in own for p in x)}


def child_loads(script: dict) -> dict:
    import attrs
    import particle
    import qrules

    from ampform_dpd.adapter import qrules as adapter

    expected = script["expected"]["all"]
    own = script["expected"]["own"]
    root = tempfile.mkdtemp(prefix="dst-")
    work = os.path.join(root, "work")
    os.makedirs(work)
    os.chdir(work)
    if script["cwd"] == "decoys":
        for name in ("particle-definitions.yml", "additional_definitions.yml"):
            for d in ("", "ampform_dpd/", "src/ampform_dpd/", "adapter/"):
                os.makedirs(os.path.join(work, d), exist_ok=True)
                with open(os.path.join(work, d + name), "w") as f:
                    f.write("particles: []\n")
    elif script["cwd"] == "gone":
        os.rmdir(work)
    applied: list = []
    seen: dict = {}

    def ask(ctx, op, rel, info):
        for k, f in enumerate(script["faults"]):
            if (f["thread"], f["action"]) != (ctx[0], ctx[1]) or op not in f["ops"]:
                continue
            if f["file"] and f["file"] not in rel:
                continue
            seen[k] = seen.get(k, 0) + 1
            if seen[k] == f["at"] or (f.get("sticky") and seen[k] > f["at"]):
                if seen[k] == f["at"]:
                    applied.append([ctx[0], ctx[1], f["kind"], f.get("errno"), os.path.basename(rel), op])
                return f
        return None

    sizes = {f: os.stat(f).st_size for f in definitions()}
    os.mkdir(os.path.join(root, "data"))
    redirect = doctor(script["data"], os.path.join(root, "data"))
    fs = fsim.install(root, ask)
    fs.redirect = redirect
    fs.installed = [boot.SRC.rstrip("/"), os.path.dirname(qrules.__file__), os.path.dirname(particle.__file__)]
    threads = script["threads"]
    outs: list[list] = [[] for _ in threads]

    def compare(db, model) -> list | None:
        got = content(db)
        if got == model:
            return None
        return [sorted(set(model) - set(got)), sorted(set(got) - set(model)), sorted(k for k in got if k in model and got[k] != model[k])]

    def change(db, model, a) -> None:
        names = [k for k in sorted(model) if k in own] if "own" in a["how"] else sorted(model)
        name = names[a["n"] % len(names)] if names else None
        how = a["how"].split()[0]
        if how == "clear":
            for p in list(db)[:: 1 + a["n"] % 7]:
                db.discard(p)
                del model[p.name]
        elif how == "add":
            p = qrules.particle.Particle(name=f"X{a['n']}", pid=7 * 10**7 + a["n"], mass=1.0 + a["n"], spin=0.5)
            db.add(p)
            model[p.name] = digest(p)
        elif name is not None:
            p = db[name]
            db.discard(p)
            del model[name]
            if how == "replace":
                p = attrs.evolve(p, mass=p.mass + 1.5, width=0.125)
                db.add(p)
                model[name] = digest(p)

    def body(i):
        def fn(_t):
            me = _thread.get_ident()
            slots: dict = {}
            ctx = fs.context[me] = [i, -1, 0]
            for j, a in enumerate(threads[i]):
                ctx[1], ctx[2] = j, 0
                if a["do"] == "change":
                    fs.quiet.add(me)
                    if a["slot"] in slots:
                        change(*slots[a["slot"]], a)
                    outs[i].append({})
                    fs.quiet.discard(me)
                    continue
                out: dict = {}
                INJECT.countdown = a.get("interrupt_at")
                try:
                    db = adapter.load_particles()
                    INJECT.countdown = None
                    fs.quiet.add(me)
                    out["wrong"] = compare(db, expected)
                    slots[a["slot"]] = (db, dict(expected) if out["wrong"] is None else content(db))
                except engine.SimAbort:
                    raise
                except BaseException as e:  # noqa: BLE001
                    out["err"], out["msg"] = type(e).__name__, str(e)[:300]
                    if isinstance(e, OSError):
                        out["errno"] = e.errno
                finally:
                    INJECT.countdown = None
                    fs.quiet.discard(me)
                if a.get("interrupt_at") and INJECT.fired:
                    out["interrupted"], INJECT.fired = INJECT.fired, None
                outs[i].append(out)
            fs.quiet.add(me)
            finals.append([i, {str(s): compare(*x) for s, x in slots.items()}])

        return fn

    finals: list = []
    fs.on = fs.points = True
    record: dict = {}
    if len(threads) > 1:
        sched = Scheduler(script["sched"])
        for i in range(len(threads)):
            sched.add(body(i))
        engine.SCHED = sched
        fs.sched_point = sched.point
        engine.monitoring(line=True, call=any(a.get("interrupt_at") for t in threads for a in t))
        sched.run()
        engine.monitoring()
        engine.SCHED = None
        record = {"trace": sched.trace, "steps": sched.total, "abort": sched.abort, "errors": [f"thread {t.tid}: {type(t.error).__name__}: {t.error}" for t in sched.threads if t.error]}
    else:
        if any(a.get("interrupt_at") for a in threads[0]):
            engine.monitoring(call=True)
        body(0)(None)
        engine.monitoring()
    fs.on = False
    os.chdir("/")
    shutil.rmtree(root, ignore_errors=True)
    return {
        **record,
        "outs": outs,
        "finals": sorted(finals),
        "faults": applied,
        "outside": [[y.replace(root, "$ROOT") for y in x] for x in fs.outside],
        "files": [f for f, n in sizes.items() if os.stat(f).st_size != n],
    }


# ------------------------------------------------------------------ oracle
def run(script, env):
    expected = env.references("expected", [script["data"]])[0]
    rec = env.call("loads", {**script, "expected": expected})
    found = []
    if rec.get("abort") or rec.get("errors"):
        found.append({"kind": "blocked", "message": str(rec.get("abort") or rec["errors"])})
    n_threads = len(script["threads"])
    loads = failed = 0
    for i, (actions, outs) in enumerate(zip(script["threads"], rec["outs"])):
        for j, a in enumerate(actions):
            if a["do"] != "load":
                continue
            loads += 1
            place = f"thread {i}, call {j}"
            if j >= len(outs):
                found.append({"kind": "no answer", "message": f"{place}: load_particles() never returned"})
                continue
            out = outs[j]
            faults = [f for f in rec["faults"] if f[:2] == [i, j]]
            if "err" in out:
                failed += 1
                if out["err"] == "KeyboardInterrupt" and (out.get("interrupted") or any(f[2] == "interrupt" for f in faults)):
                    continue
                if any(f[2] == "errno" and (out.get("errno") == getattr(errno, f[3]) or (f[5] in {"stat", "list"} and "errno" in out)) for f in faults):
                    continue  # (a file whose state cannot be found out may be reported as missing)
                found.append({"kind": "failing load", "message": f"{place}: load_particles() raised {out['err']}: {out['msg']}; faults {faults}, all faults {rec['faults']}"})
            elif out["wrong"] is not None:
                missing, extra, changed = out["wrong"]
                found.append({"kind": "wrong database", "message": f"{place}: load_particles() returned a database with {len(missing)} particles missing {missing[:8]}, {len(extra)} extra {extra[:8]}, {len(changed)} changed {changed[:8]}; faults {rec['faults']}"})
    for i, slots in rec["finals"]:
        for s, wrong in slots.items():
            if wrong is not None:
                missing, extra, changed = wrong
                found.append({"kind": "database of another caller changed", "message": f"thread {i}: the database of load {s} changed behind its owner: missing {missing[:8]}, extra {extra[:8]}, changed {changed[:8]}; actions {json.dumps(script['threads'])[:1500]}"})
    if rec["outside"] or rec["files"]:
        found.append({"kind": "files written", "message": f"load_particles() wrote files: {rec['outside'][:3]} {rec['files'][:3]}"})
    violation = found[0] if found else None
    count = {"operations": sum(map(len, script["threads"])), "steps": rec.get("steps") or 0, "probe:loads": loads, "probe:failed loads": failed}
    for f in rec["faults"]:
        key = f"fault:{f[2]}{' ' + f[3] if f[3] else ''} at {f[5]} of {f[4]}"
        count[key] = count.get(key, 0) + 1
    for outs in rec["outs"]:
        for o in outs:
            if o.get("interrupted"):
                count["fault:interrupt in the call"] = count.get("fault:interrupt in the call", 0) + 1
    count["fault:thread switches"] = len(rec.get("trace") or [])
    count["fault:" + script["cwd"] + " working directory"] = 1
    count["fault:other definitions, " + script["data"]] = 1
    return {
        "violation": violation,
        "trace": rec.get("trace"),
        "rec": {k: v for k, v in rec.items() if k != "expected"},
        "stats": {"count": count, "nontrivial": bool(rec["faults"]) or n_threads > 1 or failed > 0, "interleaving": base.sha([rec.get("trace"), rec["faults"]])},
    }


# ------------------------------------------------------------------ minimisation
def shrink(script, rec):
    for rest in base.drop_each(script["faults"]):
        yield {**script, "faults": rest}
    threads = script["threads"]
    if len(threads) > 1:
        for t in range(len(threads)):
            faults = [{**f, "thread": f["thread"] - (f["thread"] > t)} for f in script["faults"] if f["thread"] != t]
            yield {**script, "threads": threads[:t] + threads[t + 1 :], "faults": faults}
    for t, actions in enumerate(threads):
        for j in range(len(actions)):
            faults = [{**f, "action": f["action"] - (f["thread"] == t and f["action"] > j)} for f in script["faults"] if (f["thread"], f["action"]) != (t, j)]
            yield {**script, "threads": [*threads[:t], actions[:j] + actions[j + 1 :], *threads[t + 1 :]], "faults": faults}
            if actions[j].get("interrupt_at"):
                b = {k: v for k, v in actions[j].items() if k != "interrupt_at"}
                yield {**script, "threads": [*threads[:t], [*actions[:j], b, *actions[j + 1 :]], *threads[t + 1 :]]}
    if script["cwd"] != "plain":
        yield {**script, "cwd": "plain"}
    if script["data"] != "stock":
        yield {**script, "data": "stock"}


def pin(script, rec):
    if len(script["threads"]) == 1 or not rec.get("trace"):
        return None
    return {**script, "sched": {"policy": "explicit", "points": rec["trace"]}}


def shrink_schedule(script):
    for rest in base.drop_each(script["sched"].get("points", [])):
        yield {**script, "sched": {"policy": "explicit", "points": rest}}
