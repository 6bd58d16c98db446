"""Expressions, parameter sets and data for the simulated users of the cache.

Everything is described by JSON ("S-expressions").  `family` draws a set of requests that
are nearly identical to one another: equal Python hashes, equal printed forms, equal
values of different type, the same symbols in other roles.
"""
from __future__ import annotations

import zlib
from random import Random

PHSP = ["PhaseSpaceFactor", "PhaseSpaceFactorAbs", "PhaseSpaceFactorComplex", "PhaseSpaceFactorSWave"]


# ------------------------------------------------------------------ construction
def symbol(x):
    import sympy as sp

    if isinstance(x, list) and x[0] == "sym":
        return sp.Symbol(x[1], **x[2])
    if isinstance(x, list) and x[0] == "idx":
        return sp.IndexedBase(x[1])[tuple(build(i) for i in x[2:])]
    return sp.Symbol(x)


def build(x):
    """The SymPy expression of an S-expression."""
    import sympy as sp

    if isinstance(x, str):
        return sp.Symbol(x)
    if isinstance(x, bool):
        return sp.true if x else sp.false
    if isinstance(x, int):
        return sp.Integer(x)
    if isinstance(x, float):
        return sp.Float(x)
    head, *args = x
    if head in {"sym", "idx"}:
        return symbol(x)
    if head == "rat":
        return sp.Rational(*args)
    if head == "prec":
        return sp.Float(args[0], args[1])
    if head == "I":
        return sp.I
    if head == "model":
        from . import ops

        b = ops.amplitude_builder(args[0], ops.Ctx())
        return b.formulate(args[0]["ref"], use_coefficients=args[0]["coeff"], cleanup_summations=args[0]["cleanup"]).full_expression
    if head == "intensity":
        from . import ops

        b = ops.amplitude_builder(args[0], ops.Ctx())
        return b.formulate(args[0]["ref"], use_coefficients=args[0]["coeff"], cleanup_summations=args[0]["cleanup"])
    if head == "amplitude":
        from . import ops

        b = ops.amplitude_builder(args[0], ops.Ctx())
        m = b.formulate(args[0]["ref"], use_coefficients=args[0]["coeff"], cleanup_summations=args[0]["cleanup"])
        return list(m.amplitudes.values())[args[1] % len(m.amplitudes)]
    if head == "released":
        return released()(*map(build, args))
    if head == "shape":
        import ampform.dynamics as ad
        import ampform.dynamics.form_factor as ff
        import ampform.dynamics.phasespace as ps
        import ampform_dpd.dynamics as dd
        from ampform.kinematics.phasespace import Kallen

        name, a, opts = args
        opts = {k: getattr(ps, v) if k == "phsp_factor" else v for k, v in opts.items()}
        cls = {"Kallen": Kallen}.get(name)
        for module in (dd, ad, ff, ps):
            cls = cls or getattr(module, name, None)
        return cls(*map(build, a), **opts)
    if head == "poolsum":
        from ampform.sympy import PoolSum

        return PoolSum(build(args[0]), *[(sp.Symbol(i), tuple(map(build, v))) for i, v in args[1]])
    if head == "doit":
        return build(args[0]).doit()
    if head == "derivative":
        return sp.Derivative(*map(build, args))
    if head == "integral":
        return sp.Integral(build(args[0]), tuple(map(build, args[1])))
    if head == "sum":
        return sp.Sum(build(args[0]), tuple(map(build, args[1])))
    if head == "noeval":
        return {"add": sp.Add, "mul": sp.Mul}[args[0]](*map(build, args[1:]), evaluate=False)
    fn = {
        "add": sp.Add,
        "mul": sp.Mul,
        "pow": sp.Pow,
        "sin": sp.sin,
        "cos": sp.cos,
        "exp": sp.exp,
        "sqrt": sp.sqrt,
        "abs": sp.Abs,
        "acos": sp.acos,
        "conj": sp.conjugate,
        "tuple": sp.Tuple,
    }[head]
    return fn(*map(build, args))


_RELEASED: list = []


def released():
    """Class of expressions whose meaning changes with the releases of the software.

    `release()` is what it adds to its argument, in doit() as well as in numerical code.
    """
    if not _RELEASED:
        import sympy as sp

        class Released(sp.Expr):
            def doit(self, **hints):
                return self.args[0].doit(**hints) + release()

            def _numpycode(self, printer):
                return f"({printer._print(self.args[0])} + {release()})"

            _pythoncode = _jaxcode = _numpycode

        Released.__module__ = __name__
        Released.__qualname__ = "Released"
        globals()["Released"] = Released
        _RELEASED.append(Released)
    return _RELEASED[0]


def release() -> int:
    from . import world

    return 0 if world.STAMP in {"-", "{}"} else zlib.crc32(world.STAMP.encode()) % 10007


def number(v):
    """Parameter value: int, float, ["c", re, im], ["b", bool], ["np", kind, value]."""
    if isinstance(v, list):
        if v[0] == "c":
            return complex(v[1], v[2])
        if v[0] == "b":
            return bool(v[1])
        if v[0] == "np":
            import numpy as np

            return getattr(np, v[1])(v[2])
    return v


def parameters(spec):
    if spec is None:
        return None
    return {build(k): number(v) for k, v in spec}


def data_for(names, kind: int):
    """Deterministic arrays for the arguments of a function."""
    import numpy as np

    out = {}
    for n in names:
        base = 0.35 + (zlib.crc32(n.encode()) % 1000) / 700 + 0.21 * kind
        values = base + np.array([0.0, 0.61, 1.37])
        out[n] = values * (1 + 0.3j) if kind == 2 else values
    return out


# ------------------------------------------------------------------ families
def _tiny(rng: Random) -> list:
    a = ["sym", "x", {"real": True}]
    b = ["sym", "x", {"positive": True}]
    choices = [
        # hash(-1) == hash(-2)
        [["pow", "x", -1], ["pow", "x", -2], ["pow", "x", ["rat", -1, 2]]],
        [["mul", -1, "x"], ["mul", -2, "x"], ["mul", -1.0, "x"]],
        [["add", "x", -1], ["add", "x", -2]],
        # number types and precision
        [["mul", 2, "x", "a"], ["mul", 2.0, "x", "a"], ["mul", ["prec", "2.0", 30], "x", "a"], ["mul", ["rat", 5, 2], "x", "a"]],
        [["add", ["mul", ["rat", 1, 10], "x"], "a"], ["add", ["mul", 0.1, "x"], "a"], ["add", ["mul", ["prec", "0.1", 25], "x"], "a"]],
        # same printed form
        [["mul", a, "a"], ["mul", "x", "a"], ["mul", b, "a"]],
        [["sqrt", ["pow", "x", 2]], ["sqrt", ["pow", a, 2]], ["sqrt", ["pow", b, 2]]],
        [["abs", "x"], ["abs", a], ["abs", ["sym", "x", {"imaginary": True}]]],
        # symbols that print as numbers, as sums or as elements of arrays
        [["mul", 2, "x"], ["mul", ["sym", "2", {}], "x"], ["sym", "2*x", {}]],
        [["add", "x", "y"], ["sym", "x + y", {}], ["mul", "y", ["sym", "x + y", {}]], ["mul", "y", ["add", "x", "y"]]],
        [["mul", ["idx", "H", 0], "x"], ["mul", ["sym", "H[0]", {}], "x"], ["idx", "H", 0, "x"]],
        # same symbols, other structure
        [["add", "x", ["mul", -1, "y"]], ["add", "y", ["mul", -1, "x"]], ["mul", "x", ["pow", "y", -1]], ["mul", "y", ["pow", "x", -1]]],
        [["add", ["mul", "a", "x"], "b"], ["add", ["mul", "b", "x"], "a"], ["add", ["mul", "a", "x"], "c"]],
        [["sin", ["mul", "a", "x"]], ["cos", ["mul", "a", "x"]], ["exp", ["mul", "a", "x"]]],
        [["noeval", "add", "x", "x"], ["mul", 2, "x"], ["noeval", "mul", 2, "x"]],
        # constant expressions and single symbols
        ["x", a, 1, 1.0, ["I"]],
        # indexed parameters, as the couplings of models
        [["mul", ["idx", "H", 0], "x"], ["mul", ["idx", "H", 1], "x"], ["mul", ["idx", "H", -1], "x"], ["mul", ["idx", "H", ["rat", 1, 2]], "x"]],
        # complex
        [["mul", ["I"], "x"], ["mul", -1, ["I"], "x"], ["conj", ["mul", ["I"], "x"]], ["mul", ["add", 1, ["I"]], "a", "x"]],
    ]
    return rng.choice(choices)


def _shapes(rng: Random) -> list:
    s, m, w, ma, mb = "s", "m", "g", "ma", "mb"
    base = [s, m, w, ma, mb, 1, 1]
    out = []
    x = rng.random()
    if x < 0.4:
        for p in rng.sample(PHSP[:3], 3):
            out.append(["shape", rng.choice(["RelativisticBreitWigner", "EnergyDependentWidth"]), base, {"phsp_factor": p}])
        out.append(["shape", "RelativisticBreitWigner", [*base[:5], 0, 1], {}])
    elif x < 0.6:
        out += [["shape", "SimpleBreitWigner", [s, m, w], {}], ["shape", "SimpleBreitWigner", [s, w, m], {}], ["shape", "BreitWigner", [s, m, w], {}]]
        out.append(["shape", "BreitWigner", [s, m, w, ma, mb, 1, 1], {"phsp_factor": rng.choice(PHSP[:3])}])
    elif x < 0.8:
        out += [["shape", "Kallen", [s, ma, mb], {}], ["shape", "Kallen", [ma, s, mb], {}], ["shape", "BreakupMomentum", [s, ma, mb], {}], ["shape", "PhaseSpaceFactor", [s, ma, mb], {}]]
    else:
        out += [["shape", "FormFactor", [s, ma, mb, L, 1], {}] for L in (0, 1, 2)]
        out.append(["shape", "FormFactor", [s, ma, mb, 1, "R"], {}])
    return out


def _sums(rng: Random) -> list:
    e = ["mul", ["pow", "x", "i"], ["add", "a", "i"]]
    return [
        ["poolsum", e, [["i", [0, 1]]]],
        ["poolsum", e, [["i", [1, 0]]]],
        ["poolsum", e, [["i", [-1, 1]]]],
        ["poolsum", e, [["i", [-2, 1]]]],
        ["poolsum", ["mul", "x", "i"], [["i", [["rat", -1, 2], ["rat", 1, 2]]]]],
    ]


def _undone(rng: Random) -> list:
    """Expressions on which doit() has an effect."""
    x = rng.random()
    if x < 0.3:
        return _shapes(rng)
    if x < 0.5:
        return _sums(rng)
    f = rng.choice([["mul", "a", ["pow", "x", 2]], ["sin", ["mul", "a", "x"]], ["mul", "a", ["exp", "x"]]])
    if x < 0.7:
        return [["derivative", f, "x"], ["derivative", f, "x", "x"], ["derivative", f, "a"], f]
    if x < 0.85:
        return [["integral", f, ["x", 0, 1]], ["integral", f, ["x", 0, 2]], ["integral", f, ["x", 1, 0]], ["add", f, ["integral", f, ["x", 0, "b"]]]]
    g = ["mul", "x", ["pow", "n", 2]]
    return [["sum", g, ["n", 0, 2]], ["sum", g, ["n", 0, 3]], ["sum", g, ["n", -1, 2]], ["sum", g, ["n", -2, 2]]]


def symbols_of(x) -> list:
    """The free symbols of an S-expression, as S-expressions, without duplicates."""
    found: list = []

    def walk(y, bound):
        if isinstance(y, str):
            if y not in bound and y not in found:
                found.append(y)
        elif isinstance(y, list) and y:
            if y[0] in {"sym", "idx"}:
                if y not in found:
                    found.append(y)
            elif y[0] == "poolsum":
                walk(y[1], bound | {i for i, _ in y[2]})
            elif y[0] == "shape":
                for z in y[2]:
                    walk(z, bound)
            elif y[0] in {"integral", "sum"}:
                walk(y[1], bound | {y[2][0]})
                for z in y[2][1:]:
                    walk(z, bound)
            elif y[0] in {"prec", "rat", "model", "intensity", "amplitude"}:
                return
            elif y[0] == "noeval":
                for z in y[2:]:
                    walk(z, bound)
            else:
                for z in y[1:]:
                    walk(z, bound)

    walk(x, frozenset())
    return found


VALUES = [1, 1.0, ["c", 1.0, 0.0], ["b", True], -1, -2, -1.0, -2.0, 0, 0.0, ["b", False], 0.5, 2.5, ["c", 0.5, 0.25], ["c", 0.0, -1.0], ["np", "float64", 1.0], ["np", "float32", 0.5]]
TWINS = [[1, 1.0, ["c", 1.0, 0.0], ["b", True], ["np", "float64", 1.0]], [-1, -2], [-1.0, -2.0], [0, 0.0, ["b", False], ["c", 0.0, 0.0]], [0.5, 2.5]]


def gen_parameters(rng: Random, expr) -> list | None:
    names = symbols_of(expr)
    x = rng.random()
    if x < 0.2:
        return None
    if x < 0.26:
        return []
    chosen = [n for n in names if rng.random() < 0.6]
    if rng.random() < 0.08:
        chosen.append("unused")
    rng.shuffle(chosen)
    return [[n, rng.choice(VALUES)] for n in chosen]


def vary_parameters(rng: Random, params) -> list | None:
    """A parameter set that is easily confused with `params`."""
    if params is None:
        return rng.choice([None, []])
    x = rng.random()
    p = [list(e) for e in params]
    if not p or x < 0.08:
        return rng.choice([None, p])
    if x < 0.2:
        p.reverse()
    elif x < 0.3:
        # another symbol of the same name
        i = rng.randrange(len(p))
        k = p[i][0]
        if isinstance(k, str):
            p[i][0] = ["sym", k, {rng.choice(["real", "positive", "integer"]): True}]
        elif k[0] == "sym":
            p[i][0] = k[1] if rng.random() < 0.5 else ["sym", k[1], {"real": False}]
    elif x < 0.75:
        i = rng.randrange(len(p))
        twins = [t for t in TWINS if p[i][1] in t]
        p[i][1] = rng.choice(rng.choice(twins) if twins and rng.random() < 0.7 else VALUES)
    elif x < 0.9 and len(p) > 1:
        v = [e[1] for e in p]
        v = v[1:] + v[:1]
        p = [[e[0], w] for e, w in zip(p, v)]
    else:
        p.pop(rng.randrange(len(p)))
    return p


def model_spec(rng: Random) -> dict:
    from . import gen, ops

    d = gen.gen_decay(rng, ls=True, tiny=True, max_chains=2)
    builder = {"kind": "bw", "edw": rng.random() < 0.5, "dff": rng.random() < 0.5, "pff": False, "phsp": "PhaseSpaceFactor"}
    del ops
    return {"decay": d, "min_ls": True, "all": False, "dyn": [[{"chain": 0}, builder]], "ref": rng.choice([1, 2, 3]), "coeff": rng.random() < 0.3, "cleanup": True}


def gen_expr_family(rng: Random, models: float = 0.0) -> list:
    """Nearly identical expressions."""
    x = rng.random()
    if x < models:
        spec = model_spec(rng)
        return [["amplitude", spec, 0], ["amplitude", spec, 1], ["amplitude", {**spec, "ref": spec["ref"] % 3 + 1}, 0]]
    x = rng.random()
    if x < 0.6:
        return _tiny(rng)
    if x < 0.85:
        return _shapes(rng)
    if x < 0.94:
        return _sums(rng)
    return _undone(rng)


def _released(rng: Random) -> list:
    return [["released", "x"], ["released", ["mul", "a", "x"]], ["mul", "a", ["released", "x"]], ["add", "x", ["pow", ["released", "a"], 2]]]


def gen_requests(rng: Random, n: int, *, jax: float = 0.25, symbolic: float = 0.25, models: float = 0.0) -> list:
    """n requests (operations of the cache), many of them easily confused with one another."""
    families = [gen_expr_family(rng, models) for _ in range(rng.choice([1, 1, 2]))]
    backend = "jax" if rng.random() < jax else "numpy"
    out: list = []
    while len(out) < n:
        x = rng.random()
        if out and x < 0.25:
            out.append({**rng.choice(out)})
            continue
        if out and x < 0.55:
            prev = rng.choice(out)
            if prev["do"] == "lambdify":
                a = {**prev, "params": vary_parameters(rng, prev["params"])}
                if rng.random() < 0.12:
                    a["backend"] = "numpy" if prev["backend"] == "jax" else "jax"
                out.append(a)
                continue
        expr = rng.choice(rng.choice(families))
        if rng.random() < symbolic:
            out.append(gen_symbolic(rng, expr))
        else:
            if isinstance(expr, list) and expr[0] in {"shape", "poolsum", "amplitude", "model", "derivative", "integral", "sum"} and rng.random() < 0.95:
                expr = ["doit", expr]
            out.append({"do": "lambdify", "expr": expr, "params": gen_parameters(rng, expr), "backend": backend, "style": rng.choice(["kw", "kw", "kw", "str"]), "data": rng.choice([0, 1, 2])})
    return out


def gen_symbolic(rng: Random, expr) -> dict:
    if rng.random() < 0.35:
        expr = rng.choice(_undone(rng))
    x = rng.random()
    if x < 0.35:
        return {"do": "doit", "expr": expr}
    if x < 0.5:
        return {"do": "unfold", "expr": expr, "subs": gen_subs(rng, expr)}
    if x < 0.8:
        return {"do": rng.choice(["subs", "xreplace"]), "expr": expr, "subs": gen_subs(rng, expr)}
    if isinstance(expr, list) and expr[0] in {"shape", "amplitude", "integral", "sum", "derivative"}:
        return {"do": "doit", "expr": expr}
    return {"do": rng.choice(["simplify", "trigsimp"]), "expr": expr}


def gen_subs(rng: Random, expr) -> list:
    names = symbols_of(expr)
    out = []
    for n in names:
        if rng.random() < 0.6:
            out.append([n, rng.choice([1, 1.0, -1, -2, "y", "z", ["rat", 1, 2], ["mul", 2, "z"], *names])])
    rng.shuffle(out)
    return out


def large(rng: Random, request: dict) -> dict:
    """The request with so many terms that its entry takes several blocks on the disk."""
    expr = request["expr"]
    if isinstance(expr, list) and expr[0] == "tuple":
        return request
    terms = [["mul", rng.randint(2, 9), ["sin", ["mul", i + 2, "x"]]] for i in range(rng.choice([15, 40]))]
    return {**request, "expr": ["add", expr, *terms]}
