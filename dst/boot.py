"""Process set-up: deterministic interpreter, and import of /repo's sources as they are now.

The repository is compiled from source at every start (no .pyc is read or written), so
that a check always judges the current working tree.
"""
from __future__ import annotations

import ast
import ctypes
import importlib.machinery
import importlib.util
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src") + "/"
PKG = "ampform_dpd"
PYTHON = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")

THREAD_ENV = {
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
    "JAX_PLATFORMS": "cpu",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONNOUSERSITE": "1",
    "TZ": "UTC",
    "LC_ALL": "C.UTF-8",
}


def no_aslr() -> bool:
    """Switch address-space randomisation off for what is exec'ed next (best effort)."""
    try:
        libc = ctypes.CDLL(None, use_errno=True)
        cur = libc.personality(0xFFFFFFFF)
        if cur == -1:
            return False
        return libc.personality(cur | 0x0040000) != -1
    except Exception:
        return False


class CodeTable:
    """All code objects of the repository, with the lines that faults must not hit."""

    def __init__(self) -> None:
        self.codes: dict[types.CodeType, str] = {}
        self.generated: dict[types.CodeType, str] = {}
        self.protected: dict[str, set[int]] = {}
        self._lines: dict[types.CodeType, dict[int, int]] = {}

    def add_module(self, code: types.CodeType, path: str, source: bytes) -> None:
        rel = os.path.relpath(path, SRC)
        stack = list(code.co_consts)
        while stack:
            c = stack.pop()
            if isinstance(c, types.CodeType):
                self.codes[c] = rel
                stack.extend(c.co_consts)
        lines: set[int] = set()
        for node in ast.walk(ast.parse(source)):
            blocks = []
            if isinstance(node, (ast.Try, getattr(ast, "TryStar", ast.Try))):
                blocks += [node.finalbody] + [h.body for h in node.handlers]
            if isinstance(node, ast.FunctionDef) and node.name in {
                "__exit__",
                "__del__",
            }:
                blocks.append(node.body)
            for block in blocks:
                for st in block:
                    lines.update(range(st.lineno, (st.end_lineno or st.lineno) + 1))
        self.protected[path] = lines

    def add_generated(self) -> None:
        """The methods that attrs generates for the classes of the repository."""
        self.generated.clear()
        for name in sorted(n for n in sys.modules if n == PKG or n.startswith(PKG + ".")):
            for cls in list(vars(sys.modules[name]).values()):
                if not isinstance(cls, type) or cls.__module__ != name:
                    continue
                for fn in list(vars(cls).values()):
                    code = getattr(fn, "__code__", None)
                    if isinstance(code, types.CodeType) and code.co_filename.startswith("<attrs generated"):
                        self.generated[code] = f"{name}.{cls.__qualname__}"

    def line_of(self, code: types.CodeType, offset: int) -> int:
        table = self._lines.get(code)
        if table is None:
            table = {}
            for i, (line, *_rest) in enumerate(code.co_positions()):
                table[2 * i] = line or code.co_firstlineno
            self._lines[code] = table
        return table.get(offset, code.co_firstlineno)

    def is_protected(self, code: types.CodeType, line: int) -> bool:
        return line in self.protected.get(code.co_filename, ())


TABLE = CodeTable()


class _Loader(importlib.machinery.SourceFileLoader):
    _memo: dict[str, types.CodeType] = {}

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        code = self._memo.get(path)
        if code is None:
            source = self.get_data(path)
            code = compile(source, path, "exec", dont_inherit=True, optimize=int(os.environ.get("DST_OPTIMIZE", "0")))
            self._memo[path] = code
            TABLE.add_module(code, path, source)
        return code


class _Finder:
    @staticmethod
    def find_spec(fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        base = SRC + fullname.replace(".", "/")
        for file, sub in ((base + "/__init__.py", [base]), (base + ".py", None)):
            if os.path.isfile(file):
                return importlib.util.spec_from_file_location(
                    fullname,
                    file,
                    loader=_Loader(fullname, file),
                    submodule_search_locations=sub,
                )
        return None


def install() -> None:
    sys.dont_write_bytecode = True
    if not any(isinstance(f, type) and f is _Finder for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder)


def import_dependencies() -> None:
    import ampform.dynamics  # noqa: F401
    import ampform.io  # noqa: F401
    import ampform.sympy  # noqa: F401
    import cloudpickle  # noqa: F401
    import jax  # noqa: F401
    import jax.numpy  # noqa: F401
    import numpy as np  # noqa: F401
    import particle  # noqa: F401
    import qrules  # noqa: F401
    import yaml  # noqa: F401
    import sympy  # noqa: F401
    import sympy.physics.quantum.spin  # noqa: F401
    import tensorwaves.function.sympy  # noqa: F401
    import tensorwaves.function._backend  # noqa: F401


REPO_MODULES = [
    "ampform_dpd",
    "ampform_dpd.decay",
    "ampform_dpd.angles",
    "ampform_dpd.spin",
    "ampform_dpd.dynamics",
    "ampform_dpd.dynamics.builder",
    "ampform_dpd.adapter.qrules",
    "ampform_dpd.io",
    "ampform_dpd.io.cached",
    "ampform_dpd.io.serialization",
    "ampform_dpd.io.serialization.format",
    "ampform_dpd.io.serialization.decay",
    "ampform_dpd.io.serialization.dynamics",
    "ampform_dpd.io.serialization.amplitude",
]
CACHE_MODULES = ("ampform.sympy._cache", "ampform.sympy.cached")


def import_repo() -> None:
    for m in REPO_MODULES:
        importlib.import_module(m)
    TABLE.add_generated()


def reimport_repo() -> None:
    """Import the repository and the caching modules anew, as a fresh process would."""
    import linecache

    linecache.checkcache()
    for m in [
        m
        for m in sys.modules
        if m == PKG or m.startswith(PKG + ".") or m in CACHE_MODULES
    ]:
        del sys.modules[m]
    for m in CACHE_MODULES:
        importlib.import_module(m)
    import_repo()
