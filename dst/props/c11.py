"""C11: the same input gives the same output in every process."""
from __future__ import annotations

from . import base
from ..ops import Ctx, Pool, message, perform, public

SIMS = {"quick": 110, "thorough": 8000}
ZYGOTES = 3
RULE = (
    "One simulation = 3-8 public operations that three processes execute with different hash seeds, address layouts,"
    " clocks, time zones, locales, terminals and other environment variables, working directories and random states, one of them in reversed order. Oracle: the"
    " ordered structural digests (chains, amplitudes, variables, parameters, summation terms in order), and the str,"
    " LaTeX and Markdown texts are literally equal. Non-trivial: at least two operations succeeded; distinct by script."
)
REAL = "all of ampform_dpd, sympy, ampform, qrules; separate interpreters with their own PYTHONHASHSEED"
STUB = "clock, random state and environment variables of each process"
INTERLEAVING = "none: the processes do not interact; searched are combinations of process environments"
SIMULATED_TIME = "clocks of the processes are set to seeded dates up to 60 years apart; "
ASSUMPTIONS = ["Error messages that list the types in a set (mixed Markdown tables) are not generated."]

ENVIRONMENT = {
    "COLUMNS": ["1", "30", "80", "400"],
    "LINES": ["1", "24", "100"],
    "TERM": ["dumb", "xterm-256color"],
    "HOME": ["/", "/nonexistent"],
    "USER": ["root", "nobody"],
    "NO_COLOR": ["1"],
    "CI": ["true"],
    "DEBUG": ["1"],
    "SYMPY_USE_CACHE": ["no"],
    "SYMPY_CACHE_SIZE": ["3"],
    "OMP_NUM_THREADS": ["1", "4"],
    "PYTHONOPTIMIZE": ["1"],
    "PYTEST_CURRENT_TEST": ["test_x"],
    "READTHEDOCS": ["True"],
    "EXECUTE_NB": ["yes"],
    "SOURCE_DATE_EPOCH": ["0"],
}


def gen(rng, cfg):
    pool = Pool(rng)
    x = rng.random()
    focus = None
    if x < 0.25:
        focus = ["formulate", "shared_formulate", "subsystem_amplitude", "aligned_amplitude"]
    elif x < 0.5:
        focus = ["import_model", "import_chain", "import_decay", "aligned_import"]
    elif x < 0.75:
        focus = ["transitions", "transition_tools", "render"]
    ops_ = [pool.make(focus) for _ in range(rng.randint(3, 8))]
    if rng.random() < 0.1:
        ops_.append(pool.make(["full_expression"]))
    nodes = [
        {
            "garbage": rng.randrange(1, 2000),
            "time": rng.randrange(0, 2_000_000_000),
            "TZ": rng.choice(["UTC", "Asia/Tokyo", "America/New_York"]),
            "LANG": rng.choice(["C", "C.UTF-8", "de_DE.UTF-8"]),
            "cwd": rng.choice(["/", "/usr", "/etc"]),
            "random": rng.randrange(1 << 30),
            "reverse": k == 2,
            "env": {name: rng.choice(values) for name, values in ENVIRONMENT.items() if rng.random() < 0.7},
        }
        for k in range(3)
    ]
    return {"ops": ops_, "nodes": nodes}


def texts(result):
    """Literal renderings of all parts of a result."""
    import sympy as sp
    from ampform_dpd import AmplitudeModel, DefinedExpression
    from ampform_dpd.io import aslatex

    out = []

    def walk(x, depth=0):
        if isinstance(x, AmplitudeModel):
            walk(x.decay)
            walk(x.intensity)
            for d in (x.amplitudes, x.variables, x.parameter_defaults, x.masses, x.invariants):
                walk(d)
        elif isinstance(x, DefinedExpression):
            walk(x.expression)
            walk(x.parameters)
        elif isinstance(x, sp.Basic):
            out.append(str(x))
            out.append(sp.latex(x))
            out.append(sp.srepr(x))
        elif isinstance(x, dict):
            for k, v in x.items():
                walk(k)
                walk(v)
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y)
        elif isinstance(x, (set, frozenset)):
            out.extend(sorted(str(y) for y in x) if False else [str(len(x))])
        elif type(x).__module__.startswith("ampform_dpd"):
            out.append(str(x))
            try:
                out.append(aslatex(x))
            except NotImplementedError:
                pass
        elif not type(x).__module__.startswith("qrules"):
            out.append(str(x))

    walk(result)
    return out


def child_node(p):
    import hashlib
    import os
    import random
    import time

    n = p["node"]
    os.environ.update(TZ=n["TZ"], LANG=n["LANG"], LC_ALL=n["LANG"], **n.get("env", {}))
    time.tzset()
    os.chdir(n["cwd"])
    t0 = n["time"]
    time.time = lambda: float(t0)
    time.time_ns = lambda: t0 * 10**9
    random.seed(n["random"])
    garbage = [bytearray(random.randrange(16, 300)) for _ in range(n["garbage"])]
    garbage = garbage[:: random.randrange(1, 4)]
    ctx = Ctx()
    outs: list = [None] * len(p["ops"])
    order = range(len(outs))
    for i in reversed(order) if n["reverse"] else order:
        a = p["ops"][i]
        keep: list = []
        out = public(perform(a, ctx, keep=keep))
        if keep:
            try:
                parts = texts(keep[0][1])
            except Exception as e:  # noqa: BLE001
                parts = [f"{type(e).__name__}: {message(e)}"]
            out["text"] = hashlib.md5("\x00".join(parts).encode()).hexdigest()
            if p.get("full"):
                out["full"] = parts
        outs[i] = out
    return outs


def run(script, env):
    recs = [env.call("node", {"ops": script["ops"], "node": n}, k) for k, n in enumerate(script["nodes"])]
    violation = None
    for i, a in enumerate(script["ops"]):
        for k in range(1, len(recs)):
            if violation is None and recs[k][i] != recs[0][i]:
                detail = ""
                full = [env.call("node", {"ops": [a], "node": {**script["nodes"][j], "reverse": False}, "full": True}, j)[0].get("full", []) for j in (0, k)]
                for x, y in zip(*full):
                    if x != y:
                        pos = next((q for q in range(min(len(x), len(y))) if x[q] != y[q]), 0)
                        detail = f"; first different text: ...{x[max(0, pos - 60):pos + 120]!r} versus ...{y[max(0, pos - 60):pos + 120]!r}"
                        break
                kind = "text" if recs[k][i].get("ok") == recs[0][i].get("ok") else "structure"
                violation = {"kind": kind, "message": f"operation {a['op']} differs between process 0 and {k}: {recs[0][i]} versus {recs[k][i]}{detail}"}
    okays = sum("ok" in r for r in recs[0])
    count = {
        "operations": len(script["ops"]) * 3,
        "fault:other hash seed": 2,
        "fault:clock jump": 2,
        "fault:other environment": len({(n["TZ"], n["LANG"], n["cwd"]) for n in script["nodes"]}) - 1,
        "fault:reversed order of calls": 1,
        "probe:errors among outcomes": len(recs[0]) - okays,
    }
    for a in script["ops"]:
        count[f"probe:op {a['op']}"] = count.get(f"probe:op {a['op']}", 0) + 1
    return {"violation": violation, "stats": {"count": count, "nontrivial": okays >= 2}}


def shrink(script, rec):
    for rest in base.drop_each(script["ops"]):
        if rest:
            yield {**script, "ops": rest}
    if len(script["nodes"]) > 2:
        for k in range(1, 3):
            yield {**script, "nodes": [script["nodes"][0], script["nodes"][k]]} if k == 1 else {**script, "nodes": script["nodes"][:1] + script["nodes"][2:]}
    for k, n in enumerate(script["nodes"]):
        plain = {**n, "garbage": 1, "time": 0, "TZ": "UTC", "LANG": "C", "cwd": "/", "random": 0, "reverse": False}
        if n != plain:
            yield {**script, "nodes": [*script["nodes"][:k], plain, *script["nodes"][k + 1 :]]}
    yield from base.shrink_actions(script, "ops")
