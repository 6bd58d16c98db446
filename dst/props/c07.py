"""C07: concurrent use gives the results of isolated use under every interleaving."""
from __future__ import annotations

from . import base
from .base import child_reference, child_threads  # noqa: F401
from ..ops import Pool

SIMS = {"quick": 700, "thorough": 12000}
RULE = (
    "One simulation = 2-4 real threads running 1-4 public operations each on shared and on confusingly similar"
    " decays, builders and model definitions, under one seeded schedule of the baton (random, PCT, site-biased or"
    " lock-step policy; the baton can move at every executed line and call of the repository's code), followed by"
    " the same operations once more in sequence. Oracle: each outcome (result digest with order, warnings, error)"
    " equals that of the operation alone in a pristine process. Non-trivial: at least one switch between two"
    " unfinished threads; distinct by script and switch trace."
)
INTERLEAVING = "distinct traces of (thread, step, next thread)"
REAL = "all of ampform_dpd, sympy, ampform, qrules, CPython threads"
STUB = "thread scheduler (seeded baton), locks created by the repository (simulated, deadlock-detecting)"
ASSUMPTIONS = [
    "Threads switch at the lines and calls of the repository's code; the inside of SymPy, qrules and CPython calls is atomic, except where they call back into the repository.",
]


def gen(rng, cfg):
    pool = Pool(rng)
    n = rng.choice([2, 2, 2, 3, 4])
    focus = None
    x = rng.random()
    if x < 0.25:
        focus = ["formulate", "shared_formulate", "subsystem_amplitude"]
    elif x < 0.4:
        focus = ["shared_formulate"]
    elif x < 0.55:
        focus = ["import_model", "import_chain", "import_decay"]
    elif x < 0.65:
        focus = ["transitions", "transition_tools", "inspect_decay", "render"]
    elif x < 0.75:
        focus = ["builder", "lineshape", "render_dynamics", "product", "angle", "spin"]
    elif x < 0.85:
        focus = ["decay", "bad_decay", "inspect_decay", "subsystem", "find_chain", "masses", "render"]
    m = 1 if x < 0.4 and rng.random() < 0.5 else rng.randint(1, 3)
    threads = [[pool.make(focus) for _ in range(m)] for _ in range(n)]
    if rng.random() < 0.3:
        threads[-1] = [dict(a) for a in threads[0]]
    flat = [a for t in threads for a in t]
    after = [rng.choice(flat) for _ in range(min(2, len(flat)))] + ([pool.make(focus)] if rng.random() < 0.5 else [])
    return {
        "threads": threads,
        "after": after,
        "materialise": rng.random() < 0.7,
        "grain": rng.choice(["line", "line", "both"]),
        "sched": base.gen_sched(rng, n),
    }


def run(script, env):
    rec = env.call("threads", script)
    violation = None
    flat = [a for t in script["threads"] for a in t] + script["after"]
    refs = dict(zip(map(base.sha, flat), env.references("reference", flat)))
    if rec["abort"]:
        violation = {"kind": "no progress", "message": f"{rec['abort']} after {rec['steps']} steps"}
    elif rec["errors"]:
        violation = {"kind": "thread died", "message": "; ".join(rec["errors"])}
    else:
        for i, t in enumerate(script["threads"]):
            for j, a in enumerate(t):
                got, want = rec["outs"][i][j], refs[base.sha(a)]
                if not base.same(got, want):
                    violation = violation or {"kind": "concurrent result", "message": f"thread {i}: " + base.difference(a, got, want)}
        for a, got in zip(script["after"], rec["after"]):
            if violation is None and not base.same(got, refs[base.sha(a)]):
                violation = {"kind": "result after concurrency", "message": base.difference(a, got, refs[base.sha(a)])}
    switches = len([p for p in rec["trace"] if p[1] > 0])
    count = {
        "steps": rec["steps"],
        "operations": len(flat),
        "switches": switches,
        "fault:thread switch": switches,
        "probe:errors among outcomes": sum("err" in r for r in refs.values()),
        "probe:warnings among outcomes": sum(bool(r["warn"]) for r in refs.values()),
        f"probe:policy {script['sched']['policy']}": 1,
        "probe:distinct switch sites (sum)": rec["switch_sites"],
    }
    for a in flat:
        count[f"probe:op {a['op']}"] = count.get(f"probe:op {a['op']}", 0) + 1
    trace_id = base.sha(rec["trace"])
    return {
        "violation": violation,
        "trace": rec["trace"],
        "stats": {"count": count, "nontrivial": switches > 0, "fingerprint": base.sha([script["threads"], trace_id]), "interleaving": trace_id},
    }


shrink = base.shrink_threads
pin = base.pin_threads
shrink_schedule = base.shrink_points
