"""Canonical structural digests of results.

Two results are equal iff their canonical forms are equal: types, values, symbol
assumptions, non-SymPy arguments and - unless asked otherwise - the order of mappings and
sequences are part of the form; memory addresses, object identity and dummy counters are
not.
"""
from __future__ import annotations

import hashlib
import types
from collections import abc
from functools import partial
from types import FunctionType

import attrs
import numpy as np
import sympy as sp


class Canon:
    def __init__(self, ordered: bool = True, args_sorted: bool = False) -> None:
        self.ordered = ordered
        self.args_sorted = args_sorted
        self.memo: dict = {}
        self.keep: list = []
        self.dummies: dict = {}

    def __call__(self, obj) -> str:
        if isinstance(obj, sp.Basic):
            key = id(obj)
            got = self.memo.get(key)
            if got is None:
                got = self._h(self.basic(obj))
                self.memo[key] = got
                self.keep.append(obj)  # ids stay valid
            return got
        return self.plain(obj)

    @staticmethod
    def _h(text: str) -> str:
        if len(text) < 40:
            return text
        return hashlib.blake2b(text.encode("utf-8", "surrogatepass"), digest_size=10).hexdigest()

    def basic(self, obj) -> str:
        name = type(obj).__module__ + "." + type(obj).__qualname__
        if isinstance(obj, sp.Dummy):
            n = self.dummies.setdefault(obj, len(self.dummies))
            return f"Dummy({obj.name!r},{n},{sorted(obj.assumptions0.items())})"
        if isinstance(obj, sp.Symbol):
            return f"Symbol({obj.name!r},{sorted(obj.assumptions0.items())})"
        if isinstance(obj, (sp.Integer, sp.Rational)):
            return f"Q({obj.p}/{obj.q})"
        if isinstance(obj, sp.Float):
            return f"F({obj._mpf_},{obj._prec})"
        if not obj.args:
            extra = getattr(obj, "name", None)
            return f"{name}({sp.srepr(obj) if extra is None else repr(extra)})"
        args = [self(a) for a in obj.args]
        if self.args_sorted and isinstance(obj, (sp.Add, sp.Mul)):
            args = sorted(args)
        extra = [
            getattr(obj, f.name, None)
            for f in getattr(type(obj), "__dataclass_fields__", {}).values()
            if f.metadata.get("sympify", True) is False
        ]
        return f"{name}({','.join(args)};{','.join(self(e) for e in extra)})"

    def plain(self, obj) -> str:
        if obj is None or isinstance(obj, (bool, str, bytes)):
            return repr(obj)
        if isinstance(obj, (int, float, complex)):
            return f"{type(obj).__name__}:{obj!r}"
        if isinstance(obj, np.ndarray):
            return f"nd:{obj.dtype}:{obj.shape}:" + hashlib.md5(np.ascontiguousarray(obj).tobytes()).hexdigest()
        if isinstance(obj, np.generic):
            return f"np:{obj.dtype}:{obj!r}"
        if isinstance(obj, BaseException):
            return f"E:{type(obj).__module__}.{type(obj).__qualname__}:" + ",".join(
                self(a) for a in obj.args
            )
        if attrs.has(type(obj)):
            fields = [
                f"{f.name}={self(getattr(obj, f.name))}" for f in attrs.fields(type(obj))
            ]
            return self._h(f"{type(obj).__module__}.{type(obj).__qualname__}({','.join(fields)})")
        if isinstance(obj, abc.Mapping):
            items = [f"{self(k)}:{self(v)}" for k, v in obj.items()]
            if not self.ordered:
                items.sort()
            return self._h(f"{type(obj).__name__}{{{';'.join(items)}}}")
        if isinstance(obj, (set, frozenset)):
            return self._h(f"{type(obj).__name__}{{{';'.join(sorted(self(i) for i in obj))}}}")
        if isinstance(obj, (list, tuple)):
            return self._h(f"{type(obj).__name__}[{';'.join(self(i) for i in obj)}]")
        if isinstance(obj, type):
            return f"class {obj.__module__}.{obj.__qualname__}"
        if isinstance(obj, (FunctionType, types.BuiltinFunctionType, partial)):
            return f"function {getattr(obj, '__module__', '')}.{getattr(obj, '__qualname__', '')}"
        if isinstance(obj, abc.Iterable) and hasattr(obj, "__len__"):
            return self._h(f"{type(obj).__name__}<{';'.join(self(i) for i in obj)}>")
        return f"object {type(obj).__module__}.{type(obj).__qualname__}"


class Equality(Canon):
    """Coarser form: at least all that is equal in Python (1 == 1.0) has the same form."""

    def basic(self, obj) -> str:
        if isinstance(obj, sp.Float):
            return f"F({float(obj)!r})"
        return super().basic(obj)

    def plain(self, obj) -> str:
        if isinstance(obj, (bool, int, float, complex, np.generic)):
            return str(complex(obj))
        return super().plain(obj)


def equality(expr, params) -> str:
    canon = Equality(ordered=False)
    text = canon(expr) + "|" + ("" if params is None else canon(dict(params)))
    return hashlib.blake2b(text.encode("utf-8", "surrogatepass"), digest_size=10).hexdigest()


def digest(obj, *, ordered: bool = True, args_sorted: bool = False) -> str:
    text = Canon(ordered, args_sorted)(obj)
    if len(text) > 60:
        text = hashlib.blake2b(text.encode("utf-8", "surrogatepass"), digest_size=12).hexdigest()
    return text


def describe(obj, limit: int = 300) -> str:
    """Short human-readable rendering for counterexample messages."""
    try:
        text = repr(obj) if not isinstance(obj, sp.Basic) else str(obj)
    except Exception as e:  # pragma: no cover
        text = f"<{type(obj).__name__}: {e}>"
    return text if len(text) <= limit else text[:limit] + "..."
