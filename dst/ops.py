"""Operations of the public interface that simulated histories are made of.

An operation is {"op": name, ...JSON arguments}; `perform` executes it on objects built
from its specifications (shared objects come from `ctx.shared`), and returns an outcome:
the digest of the result or of the exception, and the warnings it emitted.
"""
from __future__ import annotations

import copy
import json
import operator
import zlib
from random import Random

from . import gen
from .digest import Canon, describe, digest
from .engine import WARN, SimAbort

OPS: dict = {}
WEIGHT: dict = {}


def op(weight: float = 1.0):
    def deco(fn):
        OPS[fn.__name__.removeprefix("op_")] = fn
        WEIGHT[fn.__name__.removeprefix("op_")] = weight
        return fn

    return deco


class CallbackError(Exception):
    """Raised by user callbacks of the simulation."""

    def __str__(self) -> str:
        return self.args[0]


FAILURES = (Exception, KeyError, TypeError, AttributeError, ValueError, NotImplementedError, IndexError, FileNotFoundError)


def failure(tag: str) -> CallbackError:
    """A failure of a user callback, of a kind that only depends on its tag."""
    kind = FAILURES[zlib.crc32(tag.encode()) % len(FAILURES)]
    bases = (CallbackError,) if kind is Exception else (CallbackError, kind)
    return type("CallbackError", bases, {})(tag)


class NotIntact(Exception):
    """An argument or an earlier result was modified; never the expected outcome."""


def intact(condition: bool, what: str) -> None:
    if not condition:
        raise NotIntact(what)


class Ctx:
    """Objects shared between the operations of one run."""

    def __init__(self, share: bool = True) -> None:
        self.share = share
        self.objects: dict = {}
        self.args: list = []  # (description, object, digest before)

    def shared(self, kind: str, spec, make):
        if not self.share:
            return make(copy.deepcopy(spec))
        key = kind + json.dumps(spec, sort_keys=False)
        if key not in self.objects:
            self.objects[key] = make(copy.deepcopy(spec))
        return self.objects[key]

    def decay(self, spec):
        return self.shared("decay", spec, gen.make_decay)

    def model(self, spec):
        return self.shared("model", spec, lambda s: s)


# ------------------------------------------------------------------- callbacks
PHSP = ["PhaseSpaceFactor", "PhaseSpaceFactorAbs", "PhaseSpaceFactorComplex", "PhaseSpaceFactorSWave"]


def make_builder(spec: dict, ctx: Ctx | None = None):
    import sympy as sp
    from ampform.dynamics import phasespace
    from ampform_dpd import DefinedExpression
    from ampform_dpd.dynamics.builder import BreitWignerBuilder, formulate_breit_wigner_with_form_factor

    kind = spec["kind"]
    if kind == "bw":
        return BreitWignerBuilder(
            energy_dependent_width=spec["edw"],
            decay_form_factor=spec["dff"],
            production_form_factor=spec["pff"],
            phsp_factor=getattr(phasespace, spec["phsp"]),
        )
    if kind == "default":
        return formulate_breit_wigner_with_form_factor
    calls = {"n": 0}
    kept = (ctx or Ctx()).shared("kept expression", [spec["tag"], spec.get("value", 1.0)], make_kept) if spec.get("keep") else None

    def custom(chain):
        calls["n"] += 1
        if spec.get("raise") and calls["n"] == spec["raise"]:
            raise failure(spec["tag"])
        if spec.get("nested"):
            perform({**spec["nested"]}, ctx or Ctx(), quiet=True)
        if kept is not None:
            intact(digest(kept[0]) == kept[1], "the expression of a dynamics builder was modified")
            return kept[0]
        k = chain.spectator.index
        sym = sp.Symbol(f"D^{spec['tag']}_{chain.resonance.latex}_{k}")
        return DefinedExpression(sym**2 + 1, {sym: spec.get("value", 1.0)})

    return custom


def make_kept(spec):
    """An expression that a user creates once and returns from every call, with its digest."""
    import sympy as sp
    from ampform_dpd import DefinedExpression

    tag, value = spec
    sym = sp.Symbol(f"K^{tag}")
    expr = DefinedExpression(sym**2 + 1, {sym: value})
    return expr, digest(expr)


def gen_builder(rng: Random, tag: str) -> dict:
    x = rng.random()
    if x < 0.35:
        return {"kind": "bw", "edw": rng.random() < 0.6, "dff": rng.random() < 0.5, "pff": rng.random() < 0.5, "phsp": rng.choice(PHSP)}
    if x < 0.45:
        return {"kind": "default"}
    return {"kind": "custom", "tag": tag, "value": rng.choice([1.0, 2, 0.5]), "keep": rng.random() < 0.25}


def register(builder, decay, regs, ctx=None) -> None:
    for selector, spec in regs:
        ident = selector["name"] if "name" in selector else decay.chains[selector["chain"] % len(decay.chains)]
        builder.dynamics_choices.register_builder(ident, make_builder(spec, ctx))


def amplitude_builder(a, ctx):
    from ampform_dpd import DalitzPlotDecompositionBuilder

    decay = ctx.decay(a["decay"])
    m = a.get("min_ls", True)
    b = DalitzPlotDecompositionBuilder(
        decay, min_ls=tuple(m) if isinstance(m, list) else m, all_subsystems=a.get("all", False)
    )
    register(b, decay, a.get("dyn", []), ctx)
    return b


# ------------------------------------------------------------------- amplitude models
@op(3)
def op_formulate(a, ctx):
    b = amplitude_builder(a, ctx)
    return b.formulate(a.get("ref"), cleanup_summations=a.get("cleanup", False), use_coefficients=a.get("coeff", False))


@op(1)
def op_formulate_twice(a, ctx):
    """Two models from one builder; the second one is the result."""
    b = amplitude_builder(a, ctx)
    first = prelude(lambda: b.formulate(a.get("ref2"), use_coefficients=not a.get("coeff", False)))
    before = digest(first)
    second = b.formulate(a.get("ref"), cleanup_summations=a.get("cleanup", False), use_coefficients=a.get("coeff", False))
    intact(before == digest(first), "the first model changed")
    return second


@op(2)
def op_shared_formulate(a, ctx):
    """Formulates with a builder object that other operations of the run use as well."""
    spec = {k: a[k] for k in ("decay", "min_ls", "all", "dyn")}
    b = ctx.shared("builder", spec, lambda s: amplitude_builder(s, ctx))
    return b.formulate(a.get("ref"), cleanup_summations=a.get("cleanup", False), use_coefficients=a.get("coeff", False))


@op(1)
def op_subsystem_amplitude(a, ctx):
    import sympy as sp

    b = amplitude_builder(a, ctx)
    hel = [sp.Rational(x) for x in a["hel"]]
    return b.formulate_subsystem_amplitude(*hel, a["k"], use_coefficients=a.get("coeff", False))


@op(1)
def op_aligned_amplitude(a, ctx):
    import sympy as sp

    b = amplitude_builder(a, ctx)
    return b.formulate_aligned_amplitude(*sp.symbols("lambda:4", rational=True), a.get("ref"))


@op(0.3)
def op_full_expression(a, ctx):
    return amplitude_builder(a, ctx).formulate(a.get("ref")).full_expression


@op(0.25)
def op_own_model(a, ctx):
    """Models belong to the caller: what it changes in them is in their full expression."""
    import sympy as sp

    m = amplitude_builder(a, ctx).formulate(a.get("ref"))
    for i, edits in enumerate(a["edits"]):
        if a["look"]:
            prelude(lambda: m.full_expression)
        for j, kind in edits:
            k = list(m.amplitudes)[j % len(m.amplitudes)]
            m.amplitudes[k] = {"zero": sp.S.Zero, "symbol": sp.Symbol(f"A{i}_{j}"), "double": 2 * m.amplitudes[k]}[kind]
    return m.full_expression, m


@op(0.5)
def op_default_model(a, ctx):
    from ampform_dpd import AmplitudeModel

    return AmplitudeModel(ctx.decay(a["decay"]))


@op(0.7)
def op_masses(a, ctx):
    from ampform_dpd import create_mass_symbol_mapping, formulate_invariants

    decay = ctx.decay(a["decay"])
    return create_mass_symbol_mapping(decay), formulate_invariants(decay)


@op(0.4)
def op_third_mandelstam(a, ctx):
    from ampform_dpd import formulate_third_mandelstam

    return formulate_third_mandelstam(ctx.decay(a["decay"]), a["i"], a["j"])


# ------------------------------------------------------------------- decays
@op(1)
def op_decay(a, ctx):
    return gen.make_decay(a["decay"])


@op(1)
def op_bad_decay(a, ctx):
    """Inconsistent decays are rejected, whatever came before."""
    from ampform_dpd.decay import State, ThreeBodyDecay

    spec = copy.deepcopy(a["decay"])
    states = gen.make_states(spec)
    chains = [gen.make_chain(states, c) for c in spec["chains"]]
    if a["how"] == "state":
        spec["states"][a["i"]][4] += 1
        return ThreeBodyDecay(gen.make_states(spec), chains)
    if a["how"] == "index":
        s = states[a["i"]]
        states[a["i"]] = State(s.name, s.latex, s.spin, s.parity, s.mass, s.width, index=(a["i"] % 3) + 1 if a["i"] else 1)
        return [gen.make_chain(states, c) for c in spec["chains"]]
    spec["states"][a["i"]][2] = "1/3"
    return gen.make_decay(spec)


@op(1)
def op_inspect_decay(a, ctx):
    decay = ctx.decay(a["decay"])
    return [
        decay.initial_state,
        decay.final_state,
        [
            (c.final_state, c.resonance, c.spectator, c.decay_products, c.decay_node, c.production_node, c.incoming_ls, c.outgoing_ls, c.decay_node.children)
            for c in decay.chains
        ],
    ]


@op(0.7)
def op_subsystem(a, ctx):
    from ampform_dpd.decay import get_decay_product_ids

    return ctx.decay(a["decay"]).get_subsystem(a["k"]), get_decay_product_ids(a["k"])


@op(0.5)
def op_find_chain(a, ctx):
    return ctx.decay(a["decay"]).find_chain(a["name"])


# ------------------------------------------------------------------- dynamics
@op(1.5)
def op_builder(a, ctx):
    decay = ctx.decay(a["decay"])
    return make_builder(a["builder"], ctx)(decay.chains[a["i"] % len(decay.chains)])


@op(0.7)
def op_product(a, ctx):
    """Products of defined expressions leave their factors alone."""
    import sympy as sp
    from ampform_dpd import DefinedExpression

    decay = ctx.decay(a["decay"])
    d1 = make_builder(a["builder"], ctx)(decay.chains[0])
    d2 = make_builder(a["builder2"], ctx)(decay.chains[-1])
    before = digest([d1, d2])
    x = sp.Symbol("x")
    def products():
        return [d1 * d2, d1 * (x, {x: 1.0}), d1 * x, DefinedExpression(), DefinedExpression() * d2]

    out = products()
    for p in products():
        p.parameters.clear()
        p.parameters[x] = 7.5
        p.expression = x
    same, first = before == digest([d1, d2]), digest(out)
    for d in (d1, d2):
        d.parameters[x] = 7.5
        d.expression = x
    intact(same, "a factor was modified through or by its product")
    intact(first == digest(out), "a product was modified through its factor")
    return out


@op(1.2)
def op_lineshape(a, ctx):
    import sympy as sp
    from ampform.dynamics import phasespace
    from ampform_dpd import dynamics as d

    s, m0, g, m1, m2, m3, R, R2 = sp.symbols("s m0 Gamma0 m1 m2 m3 R R2", nonnegative=True)
    L = a["L"]
    phsp = getattr(phasespace, a["phsp"])
    kind = a["kind"]
    if kind == "rbw":
        e = d.RelativisticBreitWigner(s, m0, g, m1, m2, L, R, phsp)
    elif kind == "minl":
        e = d.BreitWignerMinL(s, m0, m3, m1, g, m1, m2, L, a["L2"], R, R2, phsp)
    elif kind == "bugg":
        e = d.BuggBreitWigner(s, m0, g, m1, m2, R)
    elif kind == "flatte":
        e = d.FlattéSWave(s, m0, (g, R), (m1, m2), (m2, m3))
    elif kind == "multi":
        e = d.MultichannelBreitWigner(s, m0, tuple(d.ChannelArguments(s, m0, w, m1, m2, L, R) for w in sp.symbols("g1 g2")[: a["n"]]))
    elif kind == "bw":
        e = d.BreitWigner(s, m0, g, m1, m2, L, R, phsp)
    elif kind == "bw0":
        e = d.BreitWigner(s, m0, g)
    else:
        e = d.SimpleBreitWigner(s, m0, g)
    if a.get("latex"):
        from ampform_dpd.io import aslatex

        return aslatex(e)
    return e, e.doit(deep=a.get("deep", True))


# ------------------------------------------------------------------- angles and spins
@op(1)
def op_angle(a, ctx):
    from ampform_dpd import angles

    fn = getattr(angles, a["fn"])
    return fn(*a["args"])


@op(0.6)
def op_spin(a, ctx):
    from ampform_dpd import spin

    kind = a["fn"]
    if kind == "ls":
        return spin.generate_ls_couplings(*a["args"])
    if kind == "filter":
        ls = spin.generate_ls_couplings(*a["args"])
        before = digest(ls)
        out = spin.filter_parity_violating_ls(ls, *a["parity"])
        intact(before == digest(ls), "the couplings were modified")
        return out
    if kind == "range":
        return spin.create_spin_range(a["args"][0])
    return spin.create_rational_range(-a["args"][0], a["args"][0])


# ------------------------------------------------------------------- serialization
def label(kind, ctx=None, tag="", fail=None):
    n = {"n": 0}

    def fn(x):
        n["n"] += 1
        if fail and n["n"] == fail:
            raise failure(f"label {tag}")
        return {"plain": x, "wrap": rf"\mathrm{{{x}}}", "tag": f"{x}^{{{tag}}}"}[kind]

    return fn


def plugins(spec: list, ctx, log=None) -> dict | None:
    """Custom lineshape builders: [[function type, tag, fail at call n or 0, nested op or None]]."""
    import sympy as sp
    from ampform_dpd import DefinedExpression

    if spec is None:
        return None
    out = {}
    for typ, tag, fail, nested in spec:
        kept = ctx.shared("kept expression", [tag, 1.5], make_kept) if tag.endswith("k") else None

        def build(propagator, resonance, model, _n={"n": 0}, typ=typ, tag=tag, fail=fail, nested=nested, kept=kept):  # noqa: B006
            _n["n"] += 1
            if log is not None:
                log.append([tag, propagator["parametrization"], resonance])
            if fail and _n["n"] == fail:
                raise failure(f"plug-in {tag}")
            if nested is not None:
                perform(nested, ctx, quiet=True)
            if kept is not None:
                intact(digest(kept[0]) == kept[1], "the expression of a custom builder was modified")
                return kept[0]
            sym = sp.Symbol(f"P^{tag}_{resonance}_{propagator['parametrization']}")
            return DefinedExpression(sym, {sym: len(model["functions"])})

        build.__defaults__ = ({"n": 0}, typ, tag, fail, nested, kept)
        out[typ] = build
    return out


@op(2.5)
def op_import_model(a, ctx):
    from ampform_dpd.io.serialization.amplitude import formulate

    model = ctx.model(a["model"])
    kw = {}
    if a.get("label"):
        kw["to_latex"] = label(*a["label"])
    p = plugins(a.get("plugins"), ctx)
    if p is not None:
        kw["additional_builders"] = p
        before = sorted(p), [id(v) for v in p.values()]
    result = formulate(model, cleanup_summations=a.get("cleanup", False), **kw)
    intact(p is None or before == (sorted(p), [id(v) for v in p.values()]), "the plug-ins were modified")
    return result


@op(1)
def op_import_chain(a, ctx):
    import sympy as sp
    from ampform_dpd.io.serialization.amplitude import formulate_chain_amplitude, formulate_recoupling
    from ampform_dpd.io.serialization.dynamics import formulate_dynamics, formulate_form_factor
    from ampform_dpd.io.serialization.format import get_decay_chains

    model = ctx.model(a["model"])
    n = len(get_decay_chains(model))
    i = a["i"] % n
    hel = sp.symbols("lambda(:4)", rational=True)
    chain = get_decay_chains(model)[i]
    p = plugins(a.get("plugins"), ctx)
    return [
        formulate_chain_amplitude(*hel, model, i, label("plain"), p),
        formulate_recoupling(model, i, 0).doit(),
        formulate_recoupling(model, i, 1),
        formulate_dynamics(chain, model, additional_definitions=p),
        [formulate_form_factor(v, model) for v in chain["vertices"]],
    ]


@op(1)
def op_import_decay(a, ctx):
    from ampform_dpd.io.serialization.decay import get_final_state, get_initial_state, get_states, to_decay

    model = ctx.model(a["model"])
    f = label(*a["label"]) if a.get("label") else None
    return to_decay(model, f), get_states(model, f), get_initial_state(model), get_final_state(model, f)


@op(0.4)
def op_aligned_import(a, ctx):
    import sympy as sp
    from ampform_dpd.io.serialization.amplitude import formulate_aligned_amplitude, get_existing_subsystem_ids

    model = ctx.model(a["model"])
    return formulate_aligned_amplitude(model, *sp.symbols("lambda(:4)", rational=True)), get_existing_subsystem_ids(model)


@op(0.4)
def op_lookup_function(a, ctx):
    from ampform_dpd.io.serialization.format import get_function_definition

    return get_function_definition(a["name"], ctx.model(a["model"]))


@op(1.2)
def op_edited(a, ctx):
    """An import from a definition that the caller edits in place after having imported it."""
    private = copy.deepcopy(a["via"])
    ctx = Ctx()
    ctx.model = lambda _: private  # type: ignore[method-assign]
    prelude(lambda: OPS[a["inner"]["op"]](a["inner"], ctx))
    edit(private, a["inner"]["model"], a["depth"])
    return OPS[a["inner"]["op"]](a["inner"], ctx)


def edit(x, y, depth: int) -> None:
    """Gives a JSON object the contents of another one; parts down to a depth stay the same objects."""
    if isinstance(x, list):
        for i, v in enumerate(y[: len(x)]):
            x[i] = edited(x[i], v, depth)
        x[len(y) :] = copy.deepcopy(y[len(x) :])
        return
    new = {k: edited(x[k], v, depth) if k in x else copy.deepcopy(v) for k, v in y.items()}
    x.clear()
    x.update(new)


def edited(x, y, depth: int):
    if depth and isinstance(y, (dict, list)) and type(x) is type(y):
        edit(x, y, depth - 1)
        return x
    return copy.deepcopy(y)


def prelude(fn):
    """Something that the caller did before; neither its errors nor its warnings matter."""
    with WARN.muted():
        try:
            return fn()
        except MemoryError:
            raise
        except Exception:  # noqa: BLE001
            return None


def without_history(a: dict) -> dict:
    """The operation that has the same outcome according to C08."""
    if a["op"] == "edited":
        return a["inner"]
    if a["op"] == "formulate_twice":
        return {**a, "op": "formulate"}
    if a["op"] == "own_model":
        return {**a, "look": False}
    return a


# ------------------------------------------------------------------- transitions
@op(1.5)
def op_transitions(a, ctx):
    from ampform_dpd.adapter import qrules as ad

    ts = gen.make_transitions(a["transitions"])
    m = a.get("min_ls", False)
    return ad.to_three_body_decay(ts, min_ls=tuple(m) if isinstance(m, list) else m)


@op(0.7)
def op_transition_tools(a, ctx):
    from ampform_dpd.adapter import qrules as ad

    ts = gen.make_transitions(a["transitions"])
    norm = ad.normalize_state_ids(ts)
    conv = ad.convert_transitions(norm)
    return [norm, ad.permute_equal_final_states(norm), conv, ad.permute_equal_final_states(conv), ad.filter_min_ls(conv)]


@op(0.7)
def op_filter_ls(a, ctx):
    """Filters with a set of node IDs that the caller uses more than once."""
    from ampform_dpd.adapter import qrules as ad

    ts = ad.convert_transitions(ad.normalize_state_ids(gen.make_transitions(a["transitions"])))
    ids = ctx.shared("node IDs", a["ids"], set)
    out = ad.filter_min_ls(ts, ids)
    intact(ids == set(a["ids"]), "the set of node IDs was modified")
    return out


# ------------------------------------------------------------------- rendering
@op(1)
def op_render(a, ctx):
    from ampform_dpd.io import as_markdown_table, aslatex

    decay = ctx.decay(a["decay"])
    chains, resonances, states = list(decay.chains), [c.resonance for c in decay.chains], list(decay.states.values())
    for x in (chains, resonances, states):  # in the caller's own order
        Random(a.get("order", 0)).shuffle(x)
    before = list(map(list, (chains, resonances, states)))
    items = [
        aslatex(decay),
        as_markdown_table(decay),
        *map(as_markdown_table, (chains, resonances, states)),
        as_markdown_table([c.resonance for c in decay.chains]),
        as_markdown_table(list(decay.states.values())),
        [aslatex(c.resonance, with_jp=True) for c in decay.chains],
        [aslatex(s, only_jp=True) for s in decay.states.values()],
        [aslatex(c, with_jp=a.get("jp", False)) for c in decay.chains],
    ]
    intact(all(len(x) == len(y) and all(map(operator.is_, x, y)) for x, y in zip(before, (chains, resonances, states))), "a list was modified by rendering it")
    return items


@op(0.6)
def op_render_dynamics(a, ctx):
    from ampform_dpd.io import aslatex

    decay = ctx.decay(a["decay"])
    return aslatex(make_builder(a["builder"], ctx)(decay.chains[a["i"] % len(decay.chains)]), terms_per_line=a.get("n", 0)) if False else aslatex(
        make_builder(a["builder"], ctx)(decay.chains[a["i"] % len(decay.chains)])
    )


@op(0.3)
def op_bad_table(a, ctx):
    from ampform_dpd.io import as_markdown_table

    return as_markdown_table(a["items"])


# ------------------------------------------------------------------- generation
class Pool:
    """A few similar decays, models and transition sets, from which a history draws."""

    def __init__(self, rng: Random, tiny: bool = False) -> None:
        self.rng = rng
        self.decays = [gen.gen_decay(rng, tiny=tiny)]
        for _ in range(rng.randint(1, 2)):
            self.decays.append(gen.mutate_decay(rng, rng.choice(self.decays)))
        if rng.random() < 0.4:
            self.decays.append(gen.gen_decay(rng, tiny=tiny))
        self.models = [gen.gen_model(rng)]
        for _ in range(rng.randint(1, 2)):
            self.models.append(gen.mutate_model(rng, rng.choice(self.models)))
        self.transitions = [gen.gen_transitions(rng)]
        for _ in range(rng.choice([0, 1, 2])):
            self.transitions.append(gen.mutate_transitions(rng, rng.choice(self.transitions)))
        self.builders: list = []
        self.max_builders = 3
        self.n = 0

    def tag(self) -> str:
        self.n += 1
        return f"t{self.n}"

    def dyn(self, decay) -> list:
        rng = self.rng
        out = []
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            i = rng.randrange(len(decay["chains"]))
            sel = {"name": decay["chains"][i]["res"][0]} if rng.random() < 0.5 else {"chain": i}
            out.append([sel, gen_builder(rng, self.tag())])
        return out

    def shared_builder(self) -> dict:
        rng = self.rng
        if not self.builders or (len(self.builders) < self.max_builders and rng.random() < 0.3):
            d = copy.deepcopy(rng.choice(self.decays))
            ls = all(c["dec"] and c["prod"] for c in d["chains"])
            self.builders.append({
                "decay": d, "min_ls": rng.choice([True, False, [True, False]]) if ls else True,
                "all": rng.random() < 0.1, "dyn": self.dyn(d)})
        return rng.choice(self.builders)

    def plug(self):
        rng = self.rng
        x = rng.random()
        if x < 0.25:
            return None
        out = [["Custom", self.tag() + rng.choice(["", "", "k"]), 0, None]]
        if rng.random() < 0.4:
            out.append([rng.choice(["BreitWigner", "MultichannelBreitWigner"]), self.tag(), 0, None])
        return out

    def make(self, names=None) -> dict:
        rng = self.rng
        names = names or list(OPS)
        name = rng.choices(names, [WEIGHT[n] for n in names])[0]
        d = copy.deepcopy(rng.choice(self.decays))
        a: dict = {"op": name}
        if name in {"formulate", "shared_formulate", "formulate_twice", "subsystem_amplitude", "aligned_amplitude", "full_expression", "own_model"}:
            ls = all(c["dec"] and c["prod"] for c in d["chains"])
            a["decay"] = d
            a["min_ls"] = rng.choice([True, False, [True, False], [False, True]]) if ls or rng.random() < 0.1 else True
            a["coeff"] = rng.random() < 0.3
            a["dyn"] = self.dyn(d)
            subs = sorted({c["k"] for c in d["chains"]})
            a["ref"] = rng.choice([None, *subs, *subs, 1])
            if name == "shared_formulate":
                b = self.shared_builder()
                a.update(copy.deepcopy(b))
                a["ref"] = rng.choice([None, *sorted({c["k"] for c in b["decay"]["chains"]}), 1])
            if name in {"formulate", "shared_formulate"}:
                a["cleanup"] = rng.random() < 0.3
                a.setdefault("all", rng.random() < 0.15)
            if name == "own_model":
                a["look"] = True
                a["edits"] = [[[rng.randrange(9), rng.choice(["zero", "symbol", "double"])] for _ in range(rng.choice([1, 1, 2]))] for _ in range(rng.choice([1, 1, 2]))]
            if name == "formulate_twice":
                a["ref2"] = rng.choice(subs)
            if name == "subsystem_amplitude":
                a["k"] = rng.choice([*subs, *subs, 1, 2, 3])
                a["hel"] = [rng.choice(gen._proj(s[2])) for s in d["states"]]
        elif name in {"default_model", "masses", "decay", "inspect_decay", "render"}:
            a["decay"] = d
            if name == "render":
                a["jp"] = rng.random() < 0.3
                a["order"] = rng.randrange(5)
        elif name == "third_mandelstam":
            a["decay"] = d
            a["i"], a["j"] = rng.sample([1, 2, 3], 2)
        elif name == "bad_decay":
            a["decay"] = d
            a["how"] = rng.choice(["state", "index", "spin"])
            a["i"] = rng.randrange(4)
        elif name == "subsystem":
            a["decay"] = d
            a["k"] = rng.choice([1, 2, 3])
        elif name == "find_chain":
            a["decay"] = d
            a["name"] = rng.choice(gen.NAMES)
        elif name in {"builder", "render_dynamics", "product"}:
            a["decay"] = d
            a["builder"] = {**gen_builder(rng, self.tag()), "keep": False}  # (its results are the caller's)
            a["i"] = rng.randrange(4)
            if name == "product":
                a["builder2"] = {**gen_builder(rng, self.tag()), "keep": False}
        elif name == "lineshape":
            a.update(kind=rng.choice(["rbw", "minl", "bugg", "flatte", "multi", "bw", "bw", "bw0", "simple"]), L=rng.choice([0, 1, 2]),
                     L2=rng.choice([0, 1]), phsp=rng.choice(PHSP), n=rng.choice([1, 2]), deep=rng.random() < 0.6, latex=rng.random() < 0.2)
        elif name == "angle":
            fn = rng.choice(["formulate_scattering_angle", "formulate_theta_hat_angle", "formulate_zeta_angle", "formulate_zeta_angle"])
            lo = [0, 1, 2, 3, 1, 2, 3]
            a.update(fn=fn, args=[rng.choice(lo) for _ in range(3 if "zeta" in fn else 2)])
        elif name == "spin":
            a.update(fn=rng.choice(["ls", "ls", "filter", "range", "rrange"]), args=[rng.choice([0, 0.5, 1, 1.5, 2]) for _ in range(3)],
                     parity=[rng.choice([1, -1]) for _ in range(3)])
            if rng.random() < 0.4 and a["fn"] in {"ls", "filter"}:
                a["args"].append(rng.choice([1, 2, 4]))
        elif name in {"import_model", "import_chain", "import_decay", "aligned_import", "lookup_function"}:
            m = copy.deepcopy(rng.choice(self.models))
            a["model"] = m
            if name in {"import_model", "import_chain"}:
                a["plugins"] = self.plug()
                if a["plugins"] and name == "import_chain":
                    a["plugins"][0][1] = a["plugins"][0][1].rstrip("k")
                a["i"] = rng.randrange(4)
                a["cleanup"] = rng.random() < 0.3
            if name in {"import_model", "import_decay"} and rng.random() < 0.6:
                a["label"] = [rng.choice(["plain", "wrap", "tag"]), None, self.tag()]
            if name == "lookup_function":
                a["name"] = rng.choice([f["name"] for f in m["functions"]] + ["L1520_Breit", "nope"])
        elif name == "edited":
            a["inner"] = self.make(["import_model", "import_model", "import_chain", "import_decay", "aligned_import", "lookup_function"])
            a["depth"] = rng.choice([0, 1, 2, 9])
            a["via"] = copy.deepcopy(rng.choice([*self.models, gen.mutate_model(rng, a["inner"]["model"])]))
        elif name == "filter_ls":
            a["transitions"] = copy.deepcopy(rng.choice(self.transitions))
            a["ids"] = rng.choice([[], [0], [1], [0, 1]])
        elif name in {"transitions", "transition_tools"}:
            a["transitions"] = copy.deepcopy(rng.choice(self.transitions))
            a["min_ls"] = rng.choice([False, True, [True, False], [False, True]])
        elif name == "bad_table":
            a["items"] = rng.choice([[], [1, 2], 3, ["a"]])
        return a


# ------------------------------------------------------------------- execution
class Outcome(dict):
    pass


def arguments_digest(a, ctx) -> str:
    """State of the argument objects of an operation (they must not change)."""
    c = Canon()
    parts = []
    if "decay" in a and a["op"] not in {"decay", "bad_decay"}:
        parts.append(c(ctx.decay(a["decay"])))
    if "model" in a:
        parts.append(c(ctx.model(a["model"])))
    return "|".join(parts)


def perform(a: dict, ctx: Ctx, quiet: bool = False, keep: list | None = None) -> dict:
    """Executes one operation; never raises anything but simulator aborts and injected errors."""
    fn = OPS[a["op"]]
    if quiet:
        return {"result": fn(a, ctx)}
    sink = WARN.start()
    try:
        result = fn(a, ctx)
        out = {"ok": digest(result), "warn": list(sink)}
        if keep is not None:
            keep.append((a, result))
        out["_text"] = ""
        out["_result"] = result
    except SimAbort:
        raise
    except (KeyboardInterrupt, MemoryError) as e:
        out = {"err": f"{type(e).__name__}: {e}", "warn": list(sink), "_exc": e, "_injected": True}
    except Exception as e:  # noqa: BLE001 - the error is the outcome
        out = {"err": f"{type(e).__name__}: {message(e)}", "warn": list(sink), "_exc": e}
    finally:
        WARN.stop()
    return out


def message(e: BaseException) -> str:
    if isinstance(e, (TypeError, AttributeError)) and " at 0x" in str(e):
        import re

        return re.sub(r" at 0x[0-9a-f]+", "", str(e))
    return str(e)


def public(out: dict) -> dict:
    return {k: v for k, v in out.items() if not k.startswith("_")}


def vandalise(result, rng: Random) -> bool:
    """Modifies the containers of a result, as the caller that owns it may."""
    import sympy as sp
    from ampform_dpd import AmplitudeModel, DefinedExpression

    hit = False
    stack = [result]
    while stack:
        x = stack.pop()
        if isinstance(x, AmplitudeModel):
            for d in (x.amplitudes, x.variables, x.parameter_defaults, x.masses, x.invariants):
                if isinstance(d, dict):
                    stack.append(d)
        elif isinstance(x, DefinedExpression):
            if isinstance(x.parameters, dict):
                stack.append(x.parameters)
            x.expression = sp.Symbol("vandal")
            hit = True
        elif isinstance(x, dict):
            keys = list(x)
            if rng.random() < 0.3:
                x.clear()
            else:
                for k in keys:
                    x[k] = sp.Symbol("vandal")
            x["vandal"] = 1
            hit = True
        elif isinstance(x, list):
            stack.extend(x)
            x.append("vandal")
            if len(x) > 1 and rng.random() < 0.5:
                del x[0]
            hit = True
        elif isinstance(x, tuple):
            stack.extend(x)
    return hit


__all__ = ["OPS", "Ctx", "Pool", "perform", "public", "vandalise", "describe"]
