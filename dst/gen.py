"""Generators (JSON specifications) and constructors (objects from specifications).

Everything that a simulated run works on is described by plain JSON, so that a script can
be replayed in another process.  Names are drawn from a tiny pool on purpose: different
objects that share names, hashes or values are what a faulty memo table confuses.
"""
from __future__ import annotations

import copy
import json
from fractions import Fraction
from random import Random

NAMES = ["R", "Q", "K(892)", "L(1520)", "R2", "L(1520)+"]
FINAL = ["a", "b", "c"]


# ---------------------------------------------------------------------------- helpers
def rat(x: str) -> float:
    return float(Fraction(x))


def _ls_options(j: str, s1: str, s2: str, max_l: int = 3) -> list[tuple[int, str]]:
    j_, a, b = Fraction(j), Fraction(s1), Fraction(s2)
    out = []
    s = abs(a - b)
    while s <= a + b:
        for L in range(max_l + 1):
            if abs(L - s) <= j_ <= L + s:
                out.append((L, str(s)))
        s += 1
    return sorted(out)


def products(k: int) -> tuple[int, int]:
    return {1: (2, 3), 2: (3, 1), 3: (1, 2)}[k]


# ---------------------------------------------------------------------------- decays
def gen_particle(rng: Random, name: str, spins: list[str], mass: float, width: float) -> list:
    latex = name if rng.random() < 0.7 else rng.choice([rf"{{{name}}}", rf"\mathrm{{{name}}}", name + "^*"])
    return [name, latex, rng.choice(spins), rng.choice([1, -1, None]), mass, width]


def gen_large_decay(rng: Random) -> dict:
    """Spec of a decay of spinless particles with as many chains as real analyses have."""
    states = [[n, n, "0", rng.choice([1, -1]), m, 0.0] for n, m in zip(["X", *FINAL], [5.0, 0.5, 0.9, 1.1])]
    chains = []
    with_ls = rng.random() < 0.7
    n = rng.randint(6, 24)
    names = [f"R{i}" for i in range(rng.choice([3, n, n]))]
    for _ in range(n):
        name = rng.choice(names) if len(names) == 3 else names[len(chains) % n]
        spin = str(rng.choice([0, 0, 0, 1]))
        ls = [int(spin), "0"]
        chain = {
            "res": [name, name, spin, 1, 1.5 + 0.01 * names.index(name), 0.1], "k": rng.choice([1, 1, 2, 3]),
            "dec": list(ls) if with_ls else None, "prod": [int(spin), spin] if with_ls else None, "swap": False,
        }
        if chain not in chains:
            chains.append(chain)
    return {"states": states, "chains": chains, "order": [0, 1, 2, 3]}


def gen_decay(rng: Random, *, ls: bool | None = None, tiny: bool = False, max_chains: int = 4) -> dict:
    """Spec of a three-body decay, small enough to formulate in tens of milliseconds."""
    if max_chains > 2 and not tiny and ls is None and rng.random() < 0.03:
        return gen_large_decay(rng)
    fermions = rng.choice([0, 0, 1, 2] if not tiny else [0, 0, 0, 2])
    final_spins = ["0", "0", "0"]
    init = rng.choice(["0", "1"]) if not tiny else "0"
    if fermions == 1:  # initial and one final state are fermions
        init = "1/2"
        final_spins[rng.randrange(3)] = "1/2"
    elif fermions == 2:
        i, j = rng.sample(range(3), 2)
        final_spins[i] = final_spins[j] = "1/2"
        init = rng.choice(["0", "1"]) if not tiny else "0"
    elif rng.random() < 0.2 and not tiny:
        final_spins[rng.randrange(3)] = "1"
    masses = rng.choice([[5.0, 0.5, 0.9, 1.1], [5, 0.5, 0.5, 0.5], [4.5, 0.14, 0.5, 0.94], [5.0, 0.5, 0.5, 1]])
    names = ["X", *FINAL]
    if rng.random() < 0.25:
        names[2] = names[1]
    states = [[n, n, s, rng.choice([1, -1]), m, 0.0] for n, s, m in zip(names, [init, *final_spins], masses)]
    chains = []
    with_ls = rng.random() < 0.7 if ls is None else ls
    pool = rng.sample(NAMES, k=rng.choice([1, 2, 2, 3]))
    shapes: dict = {}
    for _ in range(rng.randint(1, max_chains)):
        name = rng.choice(pool)
        k = rng.choice([1, 1, 2, 3])
        i, j = products(k)
        half = (Fraction(states[i][2]) + Fraction(states[j][2])).denominator == 2
        spin = rng.choice(["1/2", "3/2"] if half else ["0", "1", "1", "2"] if not tiny else ["0", "1"])
        if half and tiny:
            spin = "1/2"
        key = (name, spin)
        if key not in shapes:
            shapes[key] = gen_particle(rng, name, [spin], rng.choice([1.5, 1.52, 2, 2.0]), rng.choice([0.1, 0.05, 0.0, 0]))
        res = list(shapes[key])
        dec = prod = None
        if with_ls:
            o1 = _ls_options(spin, states[i][2], states[j][2])
            o2 = _ls_options(init, spin, states[k][2])
            if not o1 or not o2:
                continue
            dec, prod = list(rng.choice(o1[:3])), list(rng.choice(o2[:3]))
        chain = {"res": res, "k": k, "dec": dec, "prod": prod, "swap": rng.random() < 0.15}
        if chain not in chains:
            chains.append(chain)
    if not chains:
        return gen_decay(rng, ls=ls, tiny=tiny, max_chains=max_chains)
    return {"states": states, "chains": chains, "order": rng.choice([[0, 1, 2, 3], [0, 1, 2, 3], [0, 3, 1, 2]])}


def mutate_decay(rng: Random, spec: dict) -> dict:
    """A decay that is confusingly similar to `spec`."""
    for _ in range(20):
        new = copy.deepcopy(spec)
        what = rng.randrange(15)
        chain = rng.choice(new["chains"])
        if what == 0:
            chain["res"][4] += rng.choice([0.01, 1])
        elif what == 1:
            chain["res"][5] = rng.choice([0.2, 0.07, 1])
        elif what == 2:
            chain["res"][1] = chain["res"][1] + rng.choice(["'", "^{+}"])
        elif what == 3 and chain["dec"]:
            i, j = products(chain["k"])
            chain["dec"] = list(rng.choice(_ls_options(chain["res"][2], new["states"][i][2], new["states"][j][2])))
        elif what == 4 and chain["prod"]:
            chain["prod"] = list(rng.choice(_ls_options(new["states"][0][2], chain["res"][2], new["states"][chain["k"]][2])))
        elif what == 5 and len(new["chains"]) > 1:
            new["chains"].remove(chain)
        elif what == 6 and len(new["chains"]) > 1:
            rng.shuffle(new["chains"])
        elif what == 7:
            new["states"][rng.randrange(1, 4)][4] += 0.1
        elif what == 8:
            chain["res"][3] = rng.choice([1, -1, None])
        elif what == 9:
            # same values, other number types
            chain["res"][4] = float(chain["res"][4]) if isinstance(chain["res"][4], int) else (
                int(chain["res"][4]) if chain["res"][4] == int(chain["res"][4]) else chain["res"][4]
            )
            if chain["dec"]:
                chain["dec"][0] = float(chain["dec"][0])
        elif what in {10, 11}:
            # two final states exchange their masses, or one gives some of it to another
            i, j = rng.sample([1, 2, 3], 2)
            si, sj = new["states"][i], new["states"][j]
            if si[4] != sj[4]:
                si[4], sj[4] = sj[4], si[4]
            else:
                si[4], sj[4] = si[4] + 0.125, sj[4] - 0.125
        elif what == 12 and len(new["chains"]) > 1:
            # two resonances exchange their masses and widths
            c, d = rng.sample(new["chains"], 2)
            if c["res"][0] != d["res"][0] or c["res"][2] != d["res"][2]:
                c["res"][4:], d["res"][4:] = d["res"][4:], c["res"][4:]
        elif what == 13:
            # two final states exchange their parities, or two names
            i, j = rng.sample([1, 2, 3], 2)
            at = rng.choice([3, 3, 0])
            new["states"][i][at], new["states"][j][at] = new["states"][j][at], new["states"][i][at]
        elif what == 14:
            # the same decay through another pair of particles
            k = rng.choice([1, 2, 3])
            if all(s[2] == "0" for s in new["states"][1:]):
                chain["k"] = k
        if json.dumps(new) != json.dumps(spec):
            return new
    return new


def make_particle(p: list):
    import sympy as sp
    from ampform_dpd.decay import Particle

    name, latex, spin, parity, mass, width = p
    return Particle(name=name, latex=latex, spin=sp.Rational(spin), parity=parity, mass=mass, width=width)


def make_states(spec: dict) -> dict:
    import sympy as sp
    from ampform_dpd.decay import State

    return {
        i: State(name=n, latex=t, spin=sp.Rational(s), parity=p, mass=m, width=w, index=i)
        for i, (n, t, s, p, m, w) in enumerate(spec["states"])
    }


def make_chain(states: dict, c: dict):
    import sympy as sp
    from ampform_dpd.decay import IsobarNode, LSCoupling, ThreeBodyDecayChain

    def ls(x):
        return None if x is None else LSCoupling(x[0], sp.Rational(x[1]))

    i, j = products(c["k"])
    decay_node = IsobarNode(make_particle(c["res"]), states[i], states[j], ls(c["dec"]))
    spectator = states[c["k"]]
    children = (spectator, decay_node) if c.get("swap") else (decay_node, spectator)
    return ThreeBodyDecayChain(IsobarNode(states[0], *children, ls(c["prod"])))


def make_decay(spec: dict):
    from ampform_dpd.decay import ThreeBodyDecay

    states = make_states(spec)
    return ThreeBodyDecay(
        states={i: states[i] for i in spec.get("order", [0, 1, 2, 3])},
        chains=tuple(make_chain(states, c) for c in spec["chains"]),
    )


# ---------------------------------------------------------------------------- transitions
def gen_transitions(rng: Random) -> dict:
    """Synthetic qrules transitions of one decay: resonances x LS combinations x helicities."""
    shift = rng.choice([0, 0, 1])  # qrules labels: -1 -> 0 1 2, or already 0 -> 1 2 3
    half = rng.random() < 0.5
    init = "1/2" if half else rng.choice(["0", "1"])
    spins = ["1/2", "0", "0"] if half else ["0", "0", "0"]
    rng.shuffle(spins)
    names = ["b1", "b2", "b3"]
    if rng.random() < 0.3:
        names[1] = names[0]
        spins[1] = spins[0]
    particles = [["X", init, 5.0, 0.0, 1]] + [
        [n, s, m, 0.0, rng.choice([1, -1])] for n, s, m in zip(names, spins, rng.choice([[0.5, 0.9, 1.1], [0.5, 0.5, 0.5]]))
    ]
    particles[2][2:] = particles[1][2:] if names[1] == names[0] else particles[2][2:]
    transitions = []
    helicity = rng.random() < 0.25
    many = rng.random() < 0.06
    for r in range(rng.randint(8, 20) if many else rng.randint(1, 3)):
        k = rng.choice([1, 2, 3])
        i, j = products(k)
        hs = (Fraction(particles[i][1]) + Fraction(particles[j][1])).denominator == 2
        spin = rng.choice(["1/2", "3/2"] if hs else ["0", "1", "2"])
        # qrules particles are equal if only their names differ: give each its own mass
        name = f"R{r + 1}" if many else rng.choice(["R1", "R2"])
        res = [name, spin, rng.choice([1.5, 1.6]) + 0.2 * (int(name[1:]) - 1), 0.1, rng.choice([1, -1])]
        o1 = _ls_options(spin, particles[i][1], particles[j][1])
        o2 = _ls_options(init, spin, particles[k][1])
        if not o1 or not o2:
            continue
        dec_all = rng.sample(o1, k=min(len(o1), rng.randint(1, 2)))
        prod_all = rng.sample(o2, k=min(len(o2), rng.randint(1, 3)))
        for dec in dec_all:
            for prod in prod_all:
                for proj in rng.choice([[0], [0, 1]]):
                    t = {"res": res, "k": k, "dec": list(dec), "prod": list(prod), "proj": proj}
                    if helicity:
                        t["dec"] = t["prod"] = None
                    if t not in transitions:
                        transitions.append(t)
    if not transitions:
        return gen_transitions(rng)
    return {"shift": shift, "particles": particles, "transitions": transitions}


def mutate_transitions(rng: Random, spec: dict) -> dict:
    """A set of transitions that is confusingly similar to `spec`."""
    for _ in range(20):
        new = copy.deepcopy(spec)
        what = rng.randrange(7)
        ts = new["transitions"]
        t = rng.choice(ts)
        if what == 0:  # helicity basis
            for t in ts:
                t["dec"] = t["prod"] = None
        elif what == 1:  # LS couplings for one of the nodes only
            key = rng.choice(["dec", "prod"])
            for t in ts:
                t[key] = None
        elif what == 2 and len(ts) > 1:
            ts.remove(t)
        elif what == 3:
            rng.shuffle(ts)
        elif what == 4:
            new["shift"] = 1 - new["shift"]
        elif what == 5:
            new["particles"][rng.randrange(1, 4)][2] += 0.1
        elif what == 6:
            mass, width = rng.choice([1.55, 1.75]), rng.choice([0.1, 0.2])
            for x in ts:
                if x["res"][0] == t["res"][0]:
                    x["res"][2], x["res"][3] = mass, width
        unique: list = []
        for x in ts:
            if x not in unique:
                unique.append(x)
        new["transitions"] = unique
        if new["particles"][1][0] == new["particles"][2][0]:
            new["particles"][2][2:] = new["particles"][1][2:]
        if json.dumps(new) != json.dumps(spec):
            return new
    return new


def make_transition(spec: dict, t: dict):
    import qrules
    from qrules.quantum_numbers import InteractionProperties, Parity
    from qrules.topology import FrozenTransition, create_isobar_topologies
    from qrules.transition import State

    def particle(name, spin, mass, width, parity):
        return qrules.particle.Particle(
            name=name, latex=None, pid=abs(hash_name(name)), spin=rat(spin), mass=mass, width=width, parity=Parity(parity)
        )

    (topology,) = create_isobar_topologies(3)  # -1 -> 0 (3 -> 1 2)
    k = t["k"]
    i, j = products(k)
    order = {0: k, 1: min(i, j), 2: max(i, j)}  # position in topology -> state id
    if spec["shift"]:
        topology = topology.relabel_edges({-1: 0, 3: 4, 0: order[0], 1: order[1], 2: order[2]})
        init_id, res_id, offset = 0, 4, 0
    else:
        topology = topology.relabel_edges({0: order[0] - 1, 1: order[1] - 1, 2: order[2] - 1})
        init_id, res_id, offset = -1, 3, -1
    states = {init_id: State(particle(*spec["particles"][0]), 0)}
    for s in (1, 2, 3):
        states[s + offset] = State(particle(*spec["particles"][s]), 0)
    states[res_id] = State(particle(*t["res"]), t["proj"])
    inter = {}
    for node, ls in ((0, t["prod"]), (1, t["dec"])):
        inter[node] = InteractionProperties() if ls is None else InteractionProperties(
            l_magnitude=ls[0], l_projection=0, s_magnitude=rat(ls[1]), s_projection=0
        )
    return FrozenTransition(topology, states, inter)


def hash_name(name: str) -> int:
    return sum((i + 1) * ord(c) for i, c in enumerate(name)) + 1000


def make_transitions(spec: dict) -> list:
    return [make_transition(spec, t) for t in spec["transitions"]]


# ---------------------------------------------------------------------------- serialized models
def gen_model(rng: Random, max_chains: int = 4) -> dict:
    """Definition of a serialized amplitude model (helicity vertices)."""
    half = rng.random() < 0.5
    spins = ["1/2" if half else "0", "1/2" if half else "0", "0", "0"]
    masses = rng.choice([[2.3, 0.94, 0.14, 0.49], [2.3, 0.5, 0.5, 0.5]])
    names = ["Lc", "p", "pi", "K"]
    functions: list = []
    chains: list = []

    def function(name, typ):
        for f in functions:
            if f["name"] == name:
                return name
        d = rng.choice([1.5, 1, 3.0])
        if typ == "BreitWigner":
            functions.append({"name": name, "type": typ, "mass": rng.choice([1.2, 1.5]), "width": 0.1, "ma": 0.5, "mb": 0.9, "l": rng.choice([0, 1, 2]), "d": d})
        elif typ == "MultichannelBreitWigner":
            functions.append({"name": name, "type": typ, "mass": 1.4, "channels": [
                {"gsq": 0.23 + 0.1 * n, "ma": 0.9 + 0.1 * n, "mb": 0.49, "l": rng.choice([0, 1]), "d": d} for n in range(rng.choice([2, 2, 3]))]})
        elif typ == "BlattWeisskopf":
            functions.append({"name": name, "type": typ, "l": int(name[-1]), "radius": d})
        else:
            functions.append({"name": name, "type": typ, "x": rng.choice([1, 2])})
        return name

    for _ in range(rng.randint(1, max_chains)):
        k = rng.choice([1, 2, 3])
        i, j = products(k)
        fs = [Fraction(s) for s in spins]
        jr = rng.choice(["1/2", "3/2"] if (fs[i] + fs[j]).denominator == 2 else ["0", "1"])
        name = rng.choice(["L1520", "K892", "D1232"])
        typ = rng.choice(["BreitWigner", "BreitWigner", "MultichannelBreitWigner", "Custom"])
        par = function(f"{name}_{typ}", typ)
        more = []  # further factors of the lineshape
        if rng.random() < 0.12:
            typ = rng.choice(["BreitWigner", "Custom"])
            more.append(function(f"{name}_{typ}_2", typ))
        hel = {s: rng.choice([h for h in _proj(spins[s])]) for s in (1, 2, 3)}
        hr = rng.choice(_proj(jr))
        ff_d = function(f"BW_l{rng.choice([1, 2])}", "BlattWeisskopf") if rng.random() < 0.4 else ""
        ff_p = function(f"BWp_l{rng.choice([1, 2])}", "BlattWeisskopf") if rng.random() < 0.3 else ""
        dec = {"type": rng.choice(["parity", "helicity"]), "helicities": [hel[i], hel[j]], "node": [i, j], "formfactor": ff_d}
        if dec["type"] == "parity":
            dec["parity_factor"] = rng.choice(["+", "-"])
        prod = {"type": "helicity", "helicities": [hr, hel[k]], "node": [[i, j], k], "formfactor": ff_p}
        chain = {
            "propagators": [{"spin": jr, "node": [i, j], "parametrization": p} for p in [par, *more]],
            "weight": rng.choice(["1.5 + 0.5i", "2.0", "-0.3 - 1.25i", "1"]),
            "vertices": [prod, dec],
            "topology": [[i, j], k],
            "name": name,
        }
        chains.append(chain)
    k = rng.choice([c["topology"][1] for c in chains])
    model = {
        "distributions": [{
            "name": "m", "type": "HadronicUnpolarizedIntensity",
            "decay_description": {
                "kinematics": {
                    "initial_state": {"index": 0, "name": names[0], "spin": spins[0], "mass": masses[0]},
                    "final_state": [{"index": s, "name": names[s], "spin": spins[s], "mass": masses[s]} for s in (1, 2, 3)],
                },
                "reference_topology": [list(products(k)), k],
                "chains": chains,
                "appendix": {},
            },
            "variables": [], "parameters": [],
        }],
        "functions": functions,
        "domains": [], "misc": {}, "parameter_points": [],
    }
    return model


def _proj(spin: str) -> list[str]:
    s = Fraction(spin)
    out = []
    x = -s
    while x <= s:
        out.append(str(x))
        x += 1
    return out


def mutate_model(rng: Random, model: dict) -> dict:
    for _ in range(20):
        new = copy.deepcopy(model)
        dd = new["distributions"][0]["decay_description"]
        chain = rng.choice(dd["chains"])
        what = rng.randrange(8)
        if what == 0:
            chain["weight"] = rng.choice(["1.5 - 0.5i", "3", "0.1i + 2"])
        elif what == 1 and new["functions"]:
            f = rng.choice(new["functions"])
            for key in ("mass", "radius", "l", "x"):
                if key in f:
                    f[key] += 1
                    break
        elif what == 2 and len(dd["chains"]) > 1:
            dd["chains"].remove(chain)
        elif what == 3:
            rng.shuffle(dd["chains"])
        elif what == 4:
            chain["vertices"][1]["formfactor"] = ""
            chain["vertices"][0]["formfactor"] = ""
        elif what == 5:
            dd["kinematics"]["final_state"][rng.randrange(3)]["mass"] += 0.1
        elif what == 6:
            chain["name"] = rng.choice(["L1520", "K892", "D1232", "N1440"])
        elif what == 7:
            topologies = [c["topology"] for c in dd["chains"]]
            dd["reference_topology"] = rng.choice(topologies)
        if json.dumps(new) != json.dumps(model):
            return new
    return new
