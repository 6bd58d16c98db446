"""Simulated processes that share a cache directory.

`child_phase` runs in a fork of the simulator image and plays the controller: it forks one
real process per simulated process, and lets exactly one of them run at any time.  A process
runs until its next file operation and then waits for the controller, which picks the process
that goes on and the fault that strikes, from the seed (or from an explicit list).  A crash
ends the process without flushing buffers; power loss ends all of them and damages what was
not synced.  Threads inside a process run under the scheduler of engine.py.
"""
from __future__ import annotations

import _thread
import hashlib
import json
import os
import posix
import signal
import struct
import sys
from random import Random

from . import boot, engine, exprs, fsim
from .digest import digest, equality
from .engine import Scheduler

VERSIONED = ["ampform", "ampform-dpd", "cloudpickle", "jax", "sympy", "tensorwaves"]


# ------------------------------------------------------------------ set-up of one process
def norm(name: str) -> str:
    return name.replace("_", "-").lower()


def fake_versions(versions: dict) -> None:
    """Makes the process believe in other versions of its software."""
    import importlib.metadata as md

    fake = {norm(k): v for k, v in versions.items() if k != "python"}
    real_version = md.version
    real_property = md.Distribution.version

    def version(name):
        return fake[norm(name)] if norm(name) in fake else real_version(name)

    def prop(self):
        name = norm(self.metadata["Name"])
        return fake[name] if name in fake else real_property.fget(self)

    md.version = version
    md.Distribution.version = property(prop)
    for name, v in fake.items():
        mod = sys.modules.get(name.replace("-", "_"))
        if mod is not None and hasattr(mod, "__version__"):
            mod.__version__ = v
    if "python" in versions:
        import platform

        major, minor, micro = (int(x) for x in versions["python"].split("."))

        class VersionInfo(tuple):
            major = property(lambda s: s[0])
            minor = property(lambda s: s[1])
            micro = property(lambda s: s[2])
            releaselevel = property(lambda s: s[3])
            serial = property(lambda s: s[4])

        sys.version_info = VersionInfo((major, minor, micro, "final", 0))
        sys.hexversion = (major << 24) | (minor << 16) | (micro << 8) | 0xF0
        sys.version = f"{major}.{minor}.{micro} (simulated)"
        platform.python_version = lambda: f"{major}.{minor}.{micro}"
        platform.python_version_tuple = lambda: (str(major), str(minor), str(micro))


WORK: dict[int, int] = {}  # thread -> number of times that the real work was done
STAMP = "-"


def count_work() -> None:
    """Counts symbolic work, and marks its products with the process's software state."""
    import sympy as sp

    real = sp.lambdify

    def lambdify(*args, **kw):
        me = _thread.get_ident()
        WORK[me] = WORK.get(me, 0) + 1
        out = real(*args, **kw)
        try:
            out.__dst_stamp__ = STAMP
        except Exception:  # noqa: BLE001
            pass
        return out

    sp.lambdify = lambdify
    sys.modules["sympy.utilities.lambdify"].lambdify = lambdify


def narrow_directories() -> None:
    """Puts all entries into one subdirectory of the cache, like those of a cache in long use."""
    mod = sys.modules["ampform.sympy._cache"]
    real = mod.get_readable_hash
    mod.get_readable_hash = lambda obj: "00" + real(obj)[2:]


_counted: set = set()


def count_doit(expr) -> None:
    cls = type(expr)
    if cls in _counted:
        return
    _counted.add(cls)
    real = cls.doit

    def doit(self, *args, **kw):
        me = _thread.get_ident()
        WORK[me] = WORK.get(me, 0) + 1
        return real(self, *args, **kw)

    cls.doit = doit


def stamp_of(func) -> str | None:
    import inspect

    try:
        return getattr(inspect.unwrap(func.function), "__dst_stamp__", None)
    except Exception:  # noqa: BLE001
        return None


def expand(text: str, root: str) -> str:
    return text.replace("$ROOT", root)


ENV_KEYS = ["COMPWA_CACHE_DIR", "XDG_CACHE_HOME", "HOME", "NO_CACHE", "TMPDIR", "TEMP", "TMP"]


def enter(node: dict, root: str) -> None:
    import tempfile

    for k in ENV_KEYS:
        os.environ.pop(k, None)
    for k, v in node.get("env", {}).items():
        os.environ[k] = expand(v, root)
    tempfile.tempdir = None
    if node.get("program"):
        sys.argv = [expand(v, root) for v in node["program"]]
    os.chdir(expand(node.get("cwd", "$ROOT/home"), root))
    if node.get("versions"):
        fake_versions(node["versions"])
    if node.get("clock"):
        engine.CLOCK.skew = node["clock"]
    if node.get("seed_noise"):
        import random

        random.seed(node["seed_noise"])
    # what identifies a process must not be what another simulated process has by accident
    os.getpid = lambda: 1000 + node["id"] * 7 + node.get("generation", 0) * 101


# ------------------------------------------------------------------ actions of the users
class Direct:
    """What the operations of the cache stand for, done by the libraries themselves."""

    @staticmethod
    def lambdify(expr, parameters=None, *, backend="jax"):
        from tensorwaves.function.sympy import create_function, create_parametrized_function

        if isinstance(parameters, str):
            backend, parameters = parameters, None
        if backend == "jax":
            import jax

            jax.config.update("jax_enable_x64", True)
        if parameters is None:
            return create_function(expr, backend)
        return create_parametrized_function(expr, parameters, backend)

    @staticmethod
    def doit(expr):
        return expr.doit()

    @staticmethod
    def simplify(expr):
        import sympy as sp

        return sp.simplify(expr)

    @staticmethod
    def trigsimp(expr):
        import sympy as sp

        return sp.trigsimp(expr)

    @staticmethod
    def xreplace(expr, substitutions):
        return expr.xreplace(substitutions)

    subs = xreplace  # sic: this is what ampform's cached subs does

    @staticmethod
    def unfold(expr, substitutions=None):
        return expr.doit().xreplace({k: v.doit() for k, v in (substitutions or {}).items()})


class User:
    """One owner of functions: the actions of one thread."""

    def __init__(self, shared: dict, direct: bool = False) -> None:
        self.slots = shared
        self.direct = direct
        self.key = None

    def act(self, a: dict):
        if self.direct:
            cached = Direct
        else:
            from ampform_dpd.io import cached

        do = a["do"]
        if do == "crowd":  # many requests of no importance
            self.prepared()
            for i in range(a["n"]):
                cached.lambdify(exprs.build(["add", "x", ["mul", "a", ["pow", "x", i + 2]]]), {exprs.build("a"): i}, backend="numpy")
            return {}
        if do == "lambdify":
            self.slots.pop(a.get("slot"), None)
            expr, params = exprs.build(a["expr"]), exprs.parameters(a["params"])
            kw = {"backend": a["backend"]}
            if a.get("frozen") and params is not None:
                from frozendict import frozendict

                params = frozendict(params)
            before = digest([expr, params])
            key, same = pickle_of(expr, params), equality(expr, params)
            self.key = key
            self.prepared()
            if params is None:
                f = cached.lambdify(expr, a["backend"]) if a.get("style") == "str" else cached.lambdify(expr, **kw)
            else:
                f = cached.lambdify(expr, params, **kw)
            self.finished()
            if digest([expr, params]) != before:
                return {"err": "AssertionError", "msg": "arguments were modified"}
            if a.get("slot") is not None:
                self.slots[a["slot"]] = f
            return {"fn": describe(f, a.get("data", 0)), "stamp": stamp_of(f), "key": key, "same": same}
        if do in {"update", "eval", "params", "mutate"}:
            f = self.slots.get(a["slot"])
            if f is None:
                return {"none": 1}
            if do == "update":
                self.prepared()
                f.update_parameters({k: exprs.number(v) for k, v in a["values"]})
                return {"parameters": param_list(f)}
            if do == "params":
                return {"parameters": param_list(f)}
            if do == "mutate":
                d = f.parameters
                for k in list(d):
                    d[k] = 77.5
                d["intruder"] = 1
                return {"parameters": param_list(f)}
            return {"fn": describe(f, a.get("data", 0))}
        expr = exprs.build(a["expr"])
        if do == "doit":
            count_doit(expr)
            key, same = pickle_of(expr, None), equality(expr, None)
            self.key = key
            self.prepared()
            return {"expr": self.done(cached.doit(expr)), "key": key, "same": same}
        if do in {"simplify", "trigsimp"}:
            self.prepared()
            return {"expr": self.done(getattr(cached, do)(expr))}
        if do == "unfold" and a.get("subs") is None:
            self.prepared()
            return {"expr": self.done(cached.unfold(expr))}
        subs = {exprs.build(k): exprs.build(v) for k, v in a["subs"]}
        self.prepared()
        return {"expr": self.done(getattr(cached, do)(expr, subs))}

    def prepared(self) -> None:
        pass

    def finished(self) -> None:
        pass

    def done(self, result):
        self.finished()
        # SymPy evaluates unevaluated sums and products when they are unpickled
        import pickle

        return digest(pickle.loads(pickle.dumps(result)))


def pickle_of(expr, params) -> str:
    """Identity of a request as far as ampform's cache can see it (it hashes pickles)."""
    import pickle

    from frozendict import frozendict

    data = pickle.dumps((expr, None if params is None else frozendict(params)), protocol=pickle.HIGHEST_PROTOCOL)
    return hashlib.sha1(data).hexdigest()[:16]


def param_list(f) -> list | None:
    p = getattr(f, "parameters", None)
    if p is None:
        return None
    return [[k, type(v).__name__, repr(v)] for k, v in p.items()]


def describe(f, kind: int) -> dict:
    """Everything that a user can see of a numerical function."""
    import numpy as np

    out = {"type": type(f).__name__, "args": list(f.argument_order), "parameters": param_list(f)}
    names = [n for n in f.argument_order if n not in (getattr(f, "parameters", None) or {})]
    engine_mute(1)
    try:
        with np.errstate(all="ignore"):
            data = exprs.data_for(names, kind)
            try:
                v = np.asarray(f(data))
                out["shape"] = list(v.shape)
                out["dtype"] = str(v.dtype)
                out["array"] = type(f(data)).__module__.split(".")[0]
                flat = v.astype(complex).ravel()
                out["values"] = [[float(z.real), float(z.imag)] for z in flat]
            except Exception as e:  # noqa: BLE001
                out["error"] = f"{type(e).__name__}: {str(e)[:200]}"
    finally:
        engine_mute(-1)
    return out


def engine_mute(n: int) -> None:
    """Evaluation of a function is not part of the simulated interaction."""
    me = _thread.get_ident()
    t = engine.SCHED.me() if engine.SCHED is not None else None
    if t is not None:
        t.mute += n
    f = fsim.FSIM
    if f is not None:
        (f.quiet.add if n > 0 else f.quiet.discard)(me)


def scrub(text: str, root: str | None) -> str:
    import re

    if root:
        text = text.replace(root, "$ROOT")
    text = re.sub(r"0x[0-9a-f]{6,}", "0x", text)
    # messages that contain a set of names list it in the order of the hash seed
    text = re.sub(r"\{([^{}]*)\}", lambda m: "{" + ", ".join(sorted(m[1].split(", "))) + "}", text)
    return text[:400]


def perform(user: User, a: dict, root: str | None = None, asked=None) -> dict:
    me = _thread.get_ident()
    before = WORK.get(me, 0)
    f = fsim.FSIM
    if f is not None:
        f.quiet.add(me)

    def prepared():
        if asked is not None and user.key is not None:
            asked(user.key)
        if f is not None:
            f.quiet.discard(me)
        WORK[me] = before
        if a.get("interrupt_at"):
            engine.INJECT.fired = None
            engine.INJECT.countdown = a["interrupt_at"]

    def finished():
        engine.INJECT.countdown = None
        if f is not None:
            f.quiet.add(me)

    user.prepared, user.finished = prepared, finished
    try:
        out = user.act(a)
    except engine.SimAbort:
        raise
    except BaseException as e:  # noqa: BLE001
        out = {"err": type(e).__name__, "msg": scrub(str(e), root)}
        if isinstance(e, OSError):
            out["errno"] = e.errno
    finally:
        finished()
        out_work = WORK.get(me, 0) - before
    out["work"] = out_work
    if a.get("interrupt_at") and engine.INJECT.fired:
        out["interrupted"] = engine.INJECT.fired
        engine.INJECT.fired = None
    return out


# ------------------------------------------------------------------ pipes
def send(fd: int, obj) -> None:
    data = json.dumps(obj).encode()
    data = struct.pack("!I", len(data)) + data
    while data:
        data = data[posix.write(fd, data) :]


def receive(fd: int):
    def exactly(n):
        out = b""
        while len(out) < n:
            part = posix.read(fd, n - len(out))
            if not part:
                return None
            out += part
        return out

    head = exactly(4)
    if head is None:
        return None
    body = exactly(struct.unpack("!I", head)[0])
    return None if body is None else json.loads(body)


# ------------------------------------------------------------------ one process
def node_main(node: dict, p: dict, up: int, down: int) -> None:
    global STAMP
    root = p["root"]

    def ask(ctx, op, rel, info):
        send(up, ["point", ctx[0], ctx[1], ctx[2], op, rel, info])
        fs.on = False
        try:
            fault, engine.CLOCK.slept = receive(down)
            return fault
        finally:
            fs.on = True

    def sleeper(seconds: float) -> bool:
        ctx = fs.context.get(_thread.get_ident())
        if ctx is None or not fs.points:
            return False
        ctx[2] += 1
        ask(ctx, "sleep", "-", seconds)
        return True

    STAMP = json.dumps(node.get("versions") or {}, sort_keys=True)
    enter(node, root)
    fs = fsim.install(root, ask)
    engine.CLOCK.sleeper = sleeper
    count_work()
    fs.on = True  # an import that touches the disk is an event as well
    boot.reimport_repo()
    if node.get("narrow"):
        narrow_directories()
    send(up, ["ready"])
    receive(down)
    fs.points = True
    threads = node["threads"]
    outs: list[list] = [[] for _ in threads]
    shared: dict = {}

    def body(i):
        def fn(_t):
            user = User(shared if node.get("share_slots") else {})
            ctx = fs.context[_thread.get_ident()] = [i, -1, 0]
            for j, a in enumerate(threads[i]):
                ctx[1], ctx[2] = j, 0
                send(up, ["begin", i, j])
                user.key = None
                outs[i].append(perform(user, a, root, lambda key, j=j: send(up, ["asked", i, j, key])))
                send(up, ["end", i, j, outs[i][-1]])

        return fn

    record = {}
    if len(threads) > 1:
        sched = Scheduler(node["sched"])
        for i in range(len(threads)):
            sched.add(body(i))
        engine.SCHED = sched
        fs.sched_point = sched.point
        add_cache_code()
        engine.monitoring(line=True)
        sched.run()
        engine.monitoring()
        engine.SCHED = None
        record = {
            "trace": sched.trace,
            "steps": sched.total,
            "abort": sched.abort,
            "errors": [f"thread {t.tid}: {type(t.error).__name__}: {t.error}" for t in sched.threads if t.error],
        }
    else:
        if any(a.get("interrupt_at") for a in threads[0]):
            add_cache_code()
            engine.monitoring(call=True)
        body(0)(None)
    fs.on = False
    send(up, ["done", {**record, "log": fs.log, "outside": [[scrub(y, root) for y in x] for x in fs.outside]}])
    posix._exit(0)


def add_cache_code() -> None:
    """Threads may also be switched inside ampform's cache, which the repository wraps."""
    import types

    for name in boot.CACHE_MODULES:
        mod = sys.modules[name]
        stack = [v.__code__ for v in vars(mod).values() if isinstance(v, types.FunctionType) and v.__module__ == name]
        while stack:
            c = stack.pop()
            if c not in boot.TABLE.codes:
                boot.TABLE.codes[c] = name
                stack.extend(x for x in c.co_consts if isinstance(x, types.CodeType))


# ------------------------------------------------------------------ the controller
def tree(root: str) -> dict:
    out = {}
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for n in sorted(dirs):
            out[os.path.relpath(os.path.join(d, n), root)] = "dir"
        for n in sorted(files):
            path = os.path.join(d, n)
            if os.path.islink(path):
                out[os.path.relpath(path, root)] = "link"
                continue
            with open(path, "rb") as f:
                out[os.path.relpath(path, root)] = hashlib.sha1(f.read()).hexdigest()
    return out


class Controller:
    def __init__(self, p: dict) -> None:
        self.p = p
        self.root = p["root"]
        self.nodes = p["nodes"]
        self.spec = p.get("sched", {"policy": "none"})
        self.rng = Random(f"nodes-{self.spec.get('seed', 0)}")
        self.step = 0
        self.clock = 0.0
        self.naps = [0] * len(p["nodes"])
        self.idle = 0  # steps in a row in which nobody did anything but wait
        self.trace: list = []
        self.applied: list = []
        self.dirty: dict = {}
        self.explicit = {a: b for a, b in self.spec.get("points", [])}
        n = len(self.nodes)
        self.up = [-1] * n
        self.down = [-1] * n
        self.pid = [0] * n
        self.state: list = [None] * n  # pending message, or "end"
        self.out = [{"threads": [[None] * len(t) for t in node["threads"]], "begun": [-1] * len(node["threads"]), "died": False, "info": {}, "events": [], "asked": []} for node in self.nodes]
        self.sites: set = set()
        self.prio = [self.rng.random() for _ in range(n)]
        self.changes = sorted(self.rng.randrange(1, 14 * max(n, 1)) for _ in range(self.spec.get("depth", 3)))
        self.history: list = []

    def spawn(self, i: int) -> None:
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                for fd in [*self.up, *self.down, r1, w2]:
                    if fd >= 0:
                        posix.close(fd)
                node_main(self.nodes[i], self.p, w1, r2)
            except BaseException:  # noqa: BLE001
                import traceback

                try:
                    send(w1, ["harness", traceback.format_exc()[-3000:]])
                finally:
                    posix._exit(70)
        os.close(w1)
        os.close(r2)
        self.up[i], self.down[i], self.pid[i] = r1, w2, pid
        self.collect(i)

    def collect(self, i: int) -> None:
        """Reads until the process waits for the controller, or has ended."""
        while True:
            msg = receive(self.up[i])
            if msg is None:
                self.out[i]["died"] = True
                self.end(i)
                return
            what = msg[0]
            if what == "harness":
                raise RuntimeError(msg[1])
            if what == "begin":
                self.out[i]["begun"][msg[1]] = msg[2]
                self.naps[i] = 0
                self.history.append([i, msg[1], msg[2], "begin"])
            elif what == "asked":
                self.out[i]["asked"].append(msg[1:])
            elif what == "end":
                self.out[i]["threads"][msg[1]][msg[2]] = msg[3]
                self.history.append([i, msg[1], msg[2], "end"])
            elif what == "done":
                self.out[i]["info"] = msg[1]
                self.end(i)
                return
            else:  # ready or point
                if what == "point" and msg[4] == "sleep":
                    # a process oversleeps the more, the longer it keeps waiting
                    self.naps[i] += 1
                    msg[6] = self.clock + max(0.001, msg[6]) * 1.2 ** min(self.naps[i], 63)
                self.state[i] = msg
                return

    def end(self, i: int) -> None:
        self.state[i] = "end"
        for fd in (self.up[i], self.down[i]):
            try:
                os.close(fd)
            except OSError:
                pass
        self.up[i] = self.down[i] = -1
        os.waitpid(self.pid[i], 0)

    def fault_for(self, i: int, msg: list):
        if msg[0] != "point":
            return None
        _, thread, action, n, op, rel, _info = msg
        for f in self.p.get("faults", []):
            if f["node"] != i or f.get("thread", 0) != thread or f["action"] != action:
                continue
            allowed = fsim.APPLICABLE[f["kind"]]
            if allowed is not None and op not in allowed:
                continue
            if f.get("ops") and op not in f["ops"]:
                continue
            if f.get("errno") == "ENOSPC" and op not in fsim.WRITES:
                continue
            if f["at"] == n or (f.get("sticky") and n >= f["at"]):
                if f["kind"] == "short" and sum(x[:4] == [i, thread, action, "short"] for x in self.applied) >= 6:
                    continue
                self.applied.append([i, thread, action, f["kind"], f.get("errno"), op])
                return f
        return None

    def track(self, msg: list) -> None:
        """What would not survive a power loss."""
        if msg[0] != "point":
            return
        op, rel, info = msg[4], msg[5], msg[6]
        if op in {"open_w", "write", "truncate"}:
            self.dirty[rel] = True
        elif op == "fsync":
            self.dirty.pop(rel, None)
        elif op == "rename":
            if info in self.dirty:
                self.dirty[rel] = self.dirty.pop(info)
        elif op == "unlink":
            self.dirty.pop(rel, None)

    def pick(self, cur: int | None) -> int:
        ready = [i for i, s in enumerate(self.state) if s != "end"]
        ended = cur is None or self.state[cur] == "end"
        blocked = not ended and self.waits(cur)
        policy = self.spec["policy"]
        stalled = set()
        for s in self.p.get("stalls", []):
            i, n = s
            if i in ready and self.counts[i] == n:
                stalled.add(i)
        if self.idle > 40:
            stalled = set()
        free = [i for i in ready if i not in stalled] or ready
        if blocked and len(free) > 1:
            free = [i for i in free if i != cur]
            if self.idle > 5:
                free = [i for i in free if not self.waits(i)] or free
        if policy == "explicit":
            want = self.explicit.get(self.step)
            if want in ready:
                return want
            return cur if not ended and cur in free else free[0]
        if policy == "none":
            return cur if not ended and cur in free else free[0]
        if policy == "pct":
            while self.changes and self.step >= self.changes[0]:
                self.changes.pop(0)
                if cur is not None:
                    self.prio[cur] -= 1
            return max(free, key=lambda i: self.prio[i])
        if ended or cur not in free:
            return self.rng.choice(free)
        if policy == "lockstep":
            after = [i for i in free if i > cur]
            return after[0] if after else free[0]
        if self.rng.random() < self.spec.get("p", 0.3):
            others = [i for i in free if i != cur]
            return self.rng.choice(others) if others else cur
        return cur

    def waits(self, i: int) -> bool:
        s = self.state[i]
        return s != "end" and s[0] == "point" and (s[4] == "lockwait" or (s[4] == "sleep" and s[6] > self.clock))

    def run(self) -> dict:
        before = tree(self.root)
        for i in range(len(self.nodes)):
            self.spawn(i)
        self.counts = [0] * len(self.nodes)
        cur = None
        lost = False
        loss = self.p.get("power_loss")
        while any(s != "end" for s in self.state):
            if loss and loss["step"] is not None and self.step >= loss["step"]:
                lost = True
                break
            new = self.pick(cur)
            if new != cur:
                self.trace.append([self.step, new])
            cur = new
            msg = self.state[cur]
            self.sites.add((cur, msg[4] if msg[0] == "point" else "-"))
            fault = self.fault_for(cur, msg)
            self.track(msg)
            if msg[0] == "point":
                self.out[cur]["events"].append([msg[1], msg[2], msg[4], msg[5]])
            self.step += 1
            self.counts[cur] += 1
            waiting = msg[0] == "point" and (msg[4] in {"lockwait", "sleep"} or self.naps[cur] > 20)
            self.idle = self.idle + 1 if waiting else 0
            if waiting and msg[4] == "sleep":
                self.clock = max(self.clock, msg[6])
            if self.step > self.p.get("max_steps", 6000) or self.idle > 1500:
                for i, s in enumerate(self.state):
                    if s != "end":
                        os.kill(self.pid[i], signal.SIGKILL)
                        self.end(i)
                return {"hang": f"no progress after {self.step} steps and {self.clock:.0f} s of simulated time; last operation: {msg[4:]}, history {self.history[-6:]}"}
            send(self.down[cur], [fault, self.clock])
            self.collect(cur)
        damage = []
        if loss and (lost or loss["step"] is None):
            for i, s in enumerate(self.state):
                if s != "end":
                    os.kill(self.pid[i], signal.SIGKILL)
                    self.out[i]["died"] = True
                    self.end(i)
            damage = self.damage(loss["seed"], loss.get("stale", False))
        after = tree(self.root)
        change = {
            "created": sorted(set(after) - set(before)),
            "removed": sorted(set(before) - set(after)),
            "changed": sorted(k for k in after if k in before and after[k] != before[k]),
        }
        return {
            "nodes": self.out,
            "trace": self.trace,
            "steps": self.step,
            "faults": self.applied,
            "power_lost": bool(loss and (lost or loss["step"] is None)),
            "damage": damage,
            "tree": change,
            "history": self.history,
        }

    def damage(self, seed: int, stale: bool) -> list:
        rng = Random(f"power-{seed}")
        out = []
        for rel in sorted(self.dirty):
            path = os.path.join(self.root, rel)
            if not os.path.isfile(path):
                continue
            with open(path, "rb") as f:
                data = f.read()
            how = rng.choice(["keep", "empty", "prefix", "zero tail", "zeros", "missing"] + ["sectors"] * 6 * stale)
            cut = rng.randrange(len(data)) if data else 0
            if how == "missing":
                os.unlink(path)
            elif how != "keep":
                new = {"sectors": old_sectors(data, rng), "empty": b"", "prefix": data[:cut], "zero tail": data[:cut] + bytes(len(data) - cut), "zeros": bytes(len(data))}[how]
                with open(path, "wb") as f:
                    f.write(new)
            out.append([rel, how])
        return out


def old_sectors(data: bytes, rng: Random) -> bytes:
    """Some sectors of a file were not written, and hold what was on the disk before."""
    sectors = [data[i : i + 512] for i in range(0, len(data), 512)]
    n = len(sectors)
    if not n:
        return data
    p = rng.choice([0, 0, 0.2, 0.6])
    lost = {i for i in range(n) if rng.random() < p} or {rng.choice([0, n - 1, rng.randrange(n), n // 2])}
    for i in sorted(lost):
        size = len(sectors[i])
        what = rng.choice(["zeros", "noise", "other"])
        sectors[i] = {"zeros": bytes(size), "noise": rng.randbytes(size), "other": rng.choice(sectors)[:size].ljust(size, b"\xff")}[what]
    return b"".join(sectors)


def child_phase(p: dict) -> dict:
    os.makedirs(os.path.join(p["root"], "home"), exist_ok=True)
    for d in p.get("dirs", []):
        os.makedirs(os.path.join(p["root"], d), exist_ok=True)
    for rel, text in p.get("files", []):
        path = os.path.join(p["root"], rel)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(text)
    beside = put_beside(p["root"], p["beside"]) if p.get("beside") else []
    if p.get("elapsed"):
        let_pass(p["root"], p["elapsed"])
    return {**Controller(p).run(), "beside": beside}


def let_pass(root: str, seconds: float) -> None:
    """Time passes (or a clock is set back): every file becomes older."""
    for d, _, files in os.walk(root):
        for path in [d, *(os.path.join(d, f) for f in files)]:
            s = os.lstat(path)
            os.utime(path, (s.st_atime - seconds, s.st_mtime - seconds), follow_symlinks=False)


def put_beside(root: str, names: list) -> list:
    """Files of another program next to every entry that exists; {} is the entry's name."""
    out = []
    for rel, what in tree(root).items():
        if "/ampform/" not in rel or what == "dir":
            continue
        for name in names:
            new = os.path.join(os.path.dirname(rel), name.replace("{}", os.path.basename(rel)))
            path = os.path.join(root, new)
            if not os.path.lexists(path):
                with open(path, "w") as f:
                    f.write("precious " + new)
                out.append(new)
    return sorted(set(out))


def child_direct(p: dict) -> list:
    """The outcome of actions of which the repository has no part."""
    for k in ENV_KEYS:
        os.environ.pop(k, None)
    user = User({}, direct=True)
    return [perform(user, a) for a in p["actions"]]


def child_uncached(p: dict) -> list:
    """The outcome of actions with caching disabled, in a process of its own."""
    global STAMP
    for k in ENV_KEYS:
        os.environ.pop(k, None)
    os.environ["NO_CACHE"] = "1"
    os.environ["HOME"] = "/nonexistent"
    if p.get("versions"):
        STAMP = json.dumps(p["versions"], sort_keys=True)
        fake_versions(p["versions"])
    boot.reimport_repo()
    user = User({})
    return [perform(user, a) for a in p["actions"]]
