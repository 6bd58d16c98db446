"""C08: results do not depend on earlier calls, and belong to the caller."""
from __future__ import annotations

from random import Random

from . import base
from .base import child_reference  # noqa: F401
from ..ops import Ctx, Pool, arguments_digest, perform, public, vandalise

SIMS = {"quick": 400, "thorough": 20000}
RULE = (
    "One simulation = a history of 4-14 public operations in one process, on shared and on confusingly similar"
    " objects (same names, equal values of another type, permuted chains, one changed number); after some operations"
    " the caller vandalises the containers of the result, and at the end early operations are repeated. Oracle: each"
    " outcome equals that of the operation in a pristine process, arguments keep their digest, and results that the"
    " caller left alone keep theirs until the end. Non-trivial: at least 3 operations succeeded; distinct by script."
)
REAL = "all of ampform_dpd, sympy, ampform, qrules"
STUB = "none (the caller is simulated)"
INTERLEAVING = "none: one thread; the searched space is the order of operations and of caller-side modifications"
ASSUMPTIONS = ["Vandalism touches dictionaries, lists and the attributes of DefinedExpression in results, never immutable objects."]


def gen(rng, cfg):
    pool = Pool(rng)
    focus = None
    x = rng.random()
    if x < 0.2:
        focus = ["formulate", "shared_formulate", "formulate_twice", "subsystem_amplitude", "aligned_amplitude", "masses"]
    elif x < 0.4:
        focus = ["import_model", "import_chain", "import_decay", "aligned_import", "lookup_function", "edited", "edited"]
    elif x < 0.5:
        focus = ["transitions", "transition_tools", "render", "inspect_decay"]
    elif x < 0.65:
        focus = ["builder", "lineshape", "render_dynamics", "product", "angle", "spin", "masses"]
    elif x < 0.75:
        focus = ["decay", "bad_decay", "inspect_decay", "subsystem", "find_chain", "masses", "render", "default_model"]
    ops_ = [pool.make(focus) for _ in range(rng.randint(4, 10))]
    if x > 0.95:
        ops_.append(pool.make(["full_expression"]))
    ops_ += [dict(rng.choice(ops_)) for _ in range(rng.randint(1, 4))]
    return {"ops": ops_, "vandal": [rng.random() < 0.4 for _ in ops_], "seed": rng.getrandbits(32), "share": rng.random() < 0.6}


def child_history(script):
    from ..digest import digest

    ctx = Ctx(share=script.get("share", True))
    rng = Random(script["seed"])
    outs, kept, mutated, hits = [], [], [], 0
    args: dict = {}
    for i, (a, vandal) in enumerate(zip(script["ops"], script["vandal"])):
        key = base.sha([a.get("decay"), a.get("model"), a["op"] in {"decay", "bad_decay"}])
        before = None
        try:
            if ctx.share:
                before = args.setdefault(key, (a, arguments_digest(a, ctx)))[1]
        except Exception:  # noqa: BLE001 - arguments that cannot be built: the operation will tell
            pass
        keep: list = []
        out = perform(a, ctx, keep=keep)
        outs.append(public(out))
        if before is not None and arguments_digest(a, ctx) != before:
            mutated.append(i)
        if keep:
            result = keep[0][1]
            if vandal and a["op"] != "lookup_function":  # (that one returns a part of its argument)
                hits += vandalise(result, rng)
            else:
                kept.append((i, result, out["ok"]))
    changed = [i for i, result, d in kept if digest(result) != d]
    late = [i for i, (a, d) in enumerate(args.values()) if arguments_digest(a, ctx) != d]
    return {"outs": outs, "mutated": mutated, "changed": changed, "late": late, "vandalised": hits}


def run(script, env):
    rec = env.call("history", script)
    refs = env.references("reference", script["ops"])
    violation = None
    for i, (a, got, want) in enumerate(zip(script["ops"], rec["outs"], refs)):
        if not base.same(got, want):
            violation = {"kind": "history", "message": f"call {i}: " + base.difference(a, got, want)}
            break
        if i in rec["mutated"]:
            violation = {"kind": "argument", "message": f"call {i} ({a['op']}) modified an argument"}
            break
    if violation is None and rec["changed"]:
        i = rec["changed"][0]
        violation = {"kind": "result changed", "message": f"result of call {i} ({script['ops'][i]['op']}) changed after it was returned"}
    if violation is None and rec["late"]:
        violation = {"kind": "argument", "message": "an argument was modified through a result"}
    okays = sum("ok" in r for r in refs)
    count = {
        "operations": len(script["ops"]),
        "fault:results vandalised": rec["vandalised"],
        "probe:errors among outcomes": sum("err" in r for r in refs),
        "probe:repeated operations": len(script["ops"]) - len({base.sha(a) for a in script["ops"]}),
    }
    for a in script["ops"]:
        count[f"probe:op {a['op']}"] = count.get(f"probe:op {a['op']}", 0) + 1
    return {"violation": violation, "stats": {"count": count, "nontrivial": okays >= 3}}


def shrink(script, rec):
    n = len(script["ops"])
    for keep in base.drop_each(list(range(n))):
        if keep:
            yield {**script, "ops": [script["ops"][i] for i in keep], "vandal": [script["vandal"][i] for i in keep]}
    for i in range(n):
        if script["vandal"][i]:
            yield {**script, "vandal": script["vandal"][:i] + [False] + script["vandal"][i + 1 :]}
    yield from base.shrink_actions(script, "ops")
