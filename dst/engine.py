"""Deterministic scheduler for real threads, and fault injection at call sites.

Real threads run one at a time: a thread holds the baton until the scheduler - driven by
one seed, or by an explicit list of switches when a run is replayed - hands it on.  Points
at which the baton can change hands are the LINE events of the repository's own code
objects (sys.monitoring), lock operations, and the explicit points of the file-system seam.
"""
from __future__ import annotations

import _thread
import contextlib
import sys
import threading
import time
import warnings
from random import Random

from . import boot

MON = sys.monitoring
TOOL = 3
E = MON.events
_REAL_LOCK = _thread.allocate_lock
_REAL_SLEEP = time.sleep
_REAL_RLOCK = threading._CRLock if hasattr(threading, "_CRLock") else threading.RLock


class SimAbort(BaseException):
    """Ends a simulated thread when a run is given up (budget, deadlock)."""


class Budget(Exception):
    """The run took more steps than allowed."""


class SimThread:
    def __init__(self, sched, tid: int, fn) -> None:
        self.sched = sched
        self.tid = tid
        self.fn = fn
        self.sem = _REAL_LOCK()
        self.sem.acquire()
        self.steps = 0
        self.done = False
        self.waiting = None  # lock that this thread waits for
        self.timed = False
        self.prio = 0.0
        self.error: BaseException | None = None
        self.ident = None
        self.mute = 0
        self.naps = 0

    def body(self) -> None:
        self.ident = _thread.get_ident()
        self.sched.by_ident[self.ident] = self
        self.sem.acquire()
        try:
            if self.sched.abort is None:
                self.fn(self)
        except SimAbort:
            pass
        except BaseException as e:  # noqa: BLE001 - reported by the run
            self.error = e
        finally:
            self.done = True
            self.sched.thread_end(self)


class Scheduler:
    """Hands the baton from thread to thread.

    spec: {"policy": "none"} | {"policy": "random", "seed": s, "p": p}
        | {"policy": "pct", "seed": s, "depth": d, "length": n}
        | {"policy": "sites", "seed": s, "k": k}
        | {"policy": "lockstep", "seed": s, "burst": b}
        | {"policy": "explicit", "points": [[tid, step, target], ...]}
    """

    def __init__(self, spec: dict, max_steps: int = 3_000_000) -> None:
        self.spec = spec
        self.rng = Random(f"sched-{spec.get('seed', 0)}")
        self.policy = spec["policy"]
        self.threads: list[SimThread] = []
        self.by_ident: dict[int, SimThread] = {}
        self.current: SimThread | None = None
        self.total = 0
        self.max_steps = max_steps
        self.trace: list[list[int]] = []
        self.abort: str | None = None
        self.finished = _REAL_LOCK()
        self.finished.acquire()
        self.sites: dict = {}
        self.switch_sites: set = set()
        self.order = 0
        self.explicit = {}
        if self.policy == "explicit":
            self.explicit = {(a, b): c for a, b, c in spec["points"]}
        self.p = spec.get("p", 0.01)
        self.chosen: set = set()
        if self.policy == "pct":
            length = max(spec.get("length", 2000), 1)
            self.changes = sorted(
                self.rng.randrange(1, length + 1) for _ in range(spec.get("depth", 3))
            )
        self.low = 0.0
        self.burst = spec.get("burst", 1)

    # ---------------------------------------------------------------- set-up and run
    def add(self, fn) -> SimThread:
        t = SimThread(self, len(self.threads), fn)
        self.threads.append(t)
        return t

    def run(self) -> None:
        real = []
        for t in self.threads:
            t.prio = self.rng.random() + 1
            th = threading.Thread(target=t.body, daemon=True, name=f"sim-{t.tid}")
            th.start()
            real.append(th)
        while len(self.by_ident) < len(self.threads):
            _REAL_SLEEP(0.0005)
        first = self._first()
        if first is not None:
            self.current = first
            first.sem.release()
            self.finished.acquire()
        for th in real:
            th.join(5)

    def _first(self) -> SimThread | None:
        if not self.threads:
            return None
        if self.policy == "explicit":
            return self.threads[self.explicit.get((-1, 0), 0)]
        if self.policy == "none":
            return self.threads[0]
        t = self.rng.choice(self.threads)
        if self.policy == "pct":
            t = max(self.threads, key=lambda x: x.prio)
        self.trace.append([-1, 0, t.tid])
        return t

    # ---------------------------------------------------------------- decisions
    def runnable(self) -> list[SimThread]:
        return [t for t in self.threads if not t.done and t.waiting is None]

    def me(self) -> SimThread | None:
        return self.by_ident.get(_thread.get_ident())

    def point(self, site=None) -> None:
        """Possible change of thread."""
        t = self.by_ident.get(_thread.get_ident())
        if t is None or t.mute or t is not self.current:
            return
        if self.abort is not None:
            raise SimAbort
        t.steps += 1
        self.total += 1
        if self.total > self.max_steps:
            self.give_up("step budget exceeded")
        target = self._pick(t, site)
        if target is not t:
            self.trace.append([t.tid, t.steps, target.tid])
            if site is not None:
                self.switch_sites.add(site)
            self._hand_over(t, target)

    def _pick(self, t: SimThread, site) -> SimThread:
        policy = self.policy
        if policy == "explicit":
            want = self.explicit.get((t.tid, t.steps))
            if want is None:
                return t
            target = self.threads[want] if want < len(self.threads) else t
            return target if not target.done and target.waiting is None else t
        if policy == "random":
            if self.rng.random() >= self.p:
                return t
            return self._other(t)
        if policy == "pct":
            if self.changes and self.total >= self.changes[0]:
                self.changes.pop(0)
                self.low -= 1
                t.prio = self.low
            return max(self.runnable(), key=lambda x: x.prio)
        if policy == "sites":
            # a few code lines are chosen when first seen; threads tend to stop there
            if site not in self.sites:
                self.sites[site] = self.rng.random() < self.spec.get("rate", 0.08)
            if self.sites[site] and self.rng.random() < 0.5:
                return self._other(t)
            return t
        if policy == "lockstep":
            if t.steps % self.burst:
                return t
            alive = self.runnable()
            alive.sort(key=lambda x: (x.tid <= t.tid, x.tid))
            return alive[0] if alive else t
        return t

    def _other(self, t: SimThread) -> SimThread:
        others = [x for x in self.runnable() if x is not t]
        return self.rng.choice(others) if others else t

    def _hand_over(self, t: SimThread, target: SimThread) -> None:
        self.current = target
        target.sem.release()
        t.sem.acquire()
        if self.abort is not None:
            raise SimAbort

    def thread_end(self, t: SimThread) -> None:
        alive = [x for x in self.threads if not x.done]
        if not alive:
            self.finished.release()
            return
        if self.abort is not None:
            self.current = alive[0]
            alive[0].waiting = None
            alive[0].sem.release()
            return
        self._next(t, "end")

    def _next(self, t: SimThread, why: str) -> None:
        """The current thread cannot go on: somebody else has to."""
        ready = self.runnable()
        if not ready:
            timed = [x for x in self.threads if not x.done and x.timed]
            if timed:
                timed[0].timed = False
                timed[0].waiting = None
                ready = [timed[0]]
        if not ready:
            self.abort = self.abort or "deadlock: " + ", ".join(
                f"thread {x.tid} waits for a lock" for x in self.threads if not x.done
            )
            alive = [x for x in self.threads if not x.done]
            nxt = alive[0]
            nxt.waiting = None
            self.current = nxt
            nxt.sem.release()
            return
        if self.policy == "explicit":
            want = self.explicit.get((t.tid, -1 if why == "end" else t.steps))
            nxt = next((x for x in ready if x.tid == want), ready[0])
        elif self.policy == "pct":
            nxt = max(ready, key=lambda x: x.prio)
        elif self.policy == "none":
            nxt = ready[0]
        else:
            nxt = self.rng.choice(ready)
        self.trace.append([t.tid, -1 if why == "end" else t.steps, nxt.tid])
        self.current = nxt
        nxt.sem.release()

    def pause(self) -> None:
        """The current thread sleeps: any other thread that can run goes on."""
        t = self.by_ident.get(_thread.get_ident())
        if t is None or t.mute or t is not self.current:
            return
        if self.abort is not None:
            raise SimAbort
        t.steps += 1
        self.total += 1
        if self.total > self.max_steps:
            self.give_up("step budget exceeded")
        t.naps += 1
        if t.naps > 3000:
            self.give_up("a thread waits for something that does not happen")
        others = [x for x in self.runnable() if x is not t]
        if not others:
            return
        if self.policy == "explicit":
            want = self.explicit.get((t.tid, t.steps))
            target = next((x for x in others if x.tid == want), others[0])
        elif self.policy == "pct":
            self.low -= 1
            t.prio = self.low
            target = max(others, key=lambda x: x.prio)
        else:
            target = self.rng.choice(others)
        self.trace.append([t.tid, t.steps, target.tid])
        self._hand_over(t, target)

    def give_up(self, why: str) -> None:
        if self.abort is None:
            self.abort = why
        raise SimAbort

    # ---------------------------------------------------------------- locks
    def wait_for(self, t: SimThread, lock, timed: bool) -> bool:
        """Blocks `t` until `lock` may be free; False if the wait timed out."""
        t.steps += 1
        t.waiting = lock
        t.timed = timed
        self._next(t, "wait")
        t.sem.acquire()
        if self.abort is not None:
            raise SimAbort
        ok = t.timed or not timed
        t.timed = False
        return ok

    def wake(self, lock) -> None:
        for x in self.threads:
            if x.waiting is lock:
                x.waiting = None


SCHED: Scheduler | None = None


# -------------------------------------------------------------------- simulated clock
class Clock:
    """Sleeping takes simulated time only; clocks show the real time plus what was slept."""

    def __init__(self) -> None:
        self.slept = 0.0
        self.skew = 0.0
        self.sleeper = None  # of a simulated process: asks the controller

    def install(self) -> None:
        real = {name: getattr(time, name) for name in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns")}
        self.real_time = real["time"]
        for name, fn in real.items():
            wall = name.startswith("time")
            scale = 10**9 if name.endswith("_ns") else 1

            def now(fn=fn, wall=wall, scale=scale):
                extra = self.slept + (self.skew if wall else 0)
                return fn() + type(scale)(extra * scale) if scale > 1 else fn() + extra

            setattr(time, name, now)
        time.sleep = self.sleep

    def sleep(self, seconds) -> None:
        if seconds < 0:
            raise ValueError("sleep length must be non-negative")
        sched = SCHED
        if sched is not None:
            sched.pause()
        if self.sleeper is not None and self.sleeper(seconds):
            return
        self.slept += seconds


CLOCK = Clock()


# -------------------------------------------------------------------- simulated locks
class SimLock:
    """Lock created by repository code: blocks through the scheduler."""

    _reentrant = False

    def __init__(self) -> None:
        self.owner = None
        self.count = 0

    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:
        me = _thread.get_ident()
        if self._reentrant and self.owner == me:
            self.count += 1
            return True
        sched = SCHED
        t = sched.me() if sched is not None else None
        if t is not None:
            sched.point(("lock",))
        while self.owner is not None:
            if not blocking:
                return False
            if t is None:
                msg = "lock is held and nobody can release it"
                raise RuntimeError(msg)
            if not sched.wait_for(t, self, timeout >= 0) and timeout >= 0:
                return False
        self.owner = me
        self.count = 1
        return True

    def release(self) -> None:
        if self.owner is None:
            msg = "release unlocked lock"
            raise RuntimeError(msg)
        self.count -= 1
        if self.count:
            return
        self.owner = None
        sched = SCHED
        if sched is not None:
            sched.wake(self)
            if sched.me() is not None:
                sched.point(("unlock",))

    def locked(self) -> bool:
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc) -> None:
        self.release()

    # used by threading.Condition
    def _is_owned(self) -> bool:
        return self.owner == _thread.get_ident()

    def _at_fork_reinit(self) -> None:
        self.owner = None
        self.count = 0


class SimRLock(SimLock):
    _reentrant = True

    def _release_save(self):
        state = self.count
        self.count = 1
        self.release()
        return state

    def _acquire_restore(self, state) -> None:
        self.acquire()
        self.count = state


def _from_repo() -> bool:
    frame = sys._getframe(2)
    for _ in range(3):
        if frame is None:
            return False
        name = frame.f_code.co_filename
        if name.startswith(boot.SRC):
            return True
        if not name.endswith("threading.py"):
            return False
        frame = frame.f_back
    return False


def install_locks() -> None:
    real_lock, real_rlock = threading.Lock, threading.RLock

    def make_lock():
        return SimLock() if _from_repo() else real_lock()

    def make_rlock():
        return SimRLock() if _from_repo() else real_rlock()

    threading.Lock = make_lock
    if hasattr(threading, "_allocate_lock"):  # the waiters of conditions and events
        threading._allocate_lock = make_lock
    threading.RLock = make_rlock


# -------------------------------------------------------------------- monitoring
class Injector:
    """Raises an exception at one chosen call site, or records the sites of a call."""

    def __init__(self) -> None:
        self.recording: dict | None = None
        self.armed = None  # (site, occurrence, exception class)
        self.seen = 0
        self.fired = None
        self.count = 0
        self.countdown: int | None = None

    def on_call(self, code, offset, func, _arg0):
        if self.recording is None and self.armed is None and self.countdown is None:
            return None
        name = getattr(func, "__name__", "")
        if name in {"__exit__", "__enter__"}:
            return None
        line = boot.TABLE.line_of(code, offset)
        if boot.TABLE.is_protected(code, line):
            return None
        return self.strike(boot.TABLE.codes.get(code, "?"), code, line, offset)

    def on_start(self, code, frame):
        """Start of a method that attrs generated: also called by dictionaries and sorting."""
        if self.recording is None and self.armed is None and self.countdown is None:
            return None
        while frame is not None and frame.f_code not in boot.TABLE.codes:
            if frame.f_code not in boot.TABLE.generated:
                return None
            frame = frame.f_back
        if frame is None or boot.TABLE.is_protected(frame.f_code, frame.f_lineno):
            return None
        return self.strike(boot.TABLE.generated[code], code, code.co_firstlineno, "start")

    def strike(self, file, code, line, offset):
        if self.countdown is not None:
            self.countdown -= 1
            if self.countdown > 0:
                return None
            self.countdown = None
            self.fired = f"{file}:{line} ({code.co_qualname})"
            raise KeyboardInterrupt
        site = f"{file}:{code.co_qualname}+{offset}"
        if self.recording is not None:
            self.recording[site] = self.recording.get(site, 0) + 1
            return None
        armed_site, occ, exc = self.armed
        if site == armed_site:
            self.seen += 1
            if self.seen == occ:
                self.armed = None
                self.fired = f"{file}:{line} ({code.co_qualname})"
                self.count += 1
                raise exc
        return None


INJECT = Injector()
_ON = {"line": False, "call": False}
COVER: set | None = None
WORK: dict = {}


def _on_line(code, line):
    sched = SCHED
    if sched is not None:
        sched.point((code, line))


def _on_call_point(code, offset, func, arg0):
    sched = SCHED
    if sched is not None:
        sched.point((code, -offset))
    return INJECT.on_call(code, offset, func, arg0)


def _on_start(code, offset):
    del offset
    sched, frame = SCHED, sys._getframe(1)
    if sched is not None and frame.f_back is not None and frame.f_back.f_code in boot.TABLE.codes:
        sched.point((code, 0))
    return INJECT.on_start(code, frame)


def monitoring(line: bool = False, call: bool = False, call_yields: bool = False) -> None:
    if MON.get_tool(TOOL) is None:
        MON.use_tool_id(TOOL, "dst")
    MON.register_callback(TOOL, E.LINE, _on_line if line else None)
    MON.register_callback(TOOL, E.CALL, (_on_call_point if call_yields else INJECT.on_call) if call else None)
    events = (E.LINE if line else 0) | (E.CALL if call else 0)
    for code in boot.TABLE.codes:
        if code.co_name.startswith("<module"):
            continue
        MON.set_local_events(TOOL, code, events)
    MON.register_callback(TOOL, E.PY_START, _on_start if call or line else None)
    for code in boot.TABLE.generated:
        MON.set_local_events(TOOL, code, E.PY_START if call or line else 0)


# -------------------------------------------------------------------- warnings
class WarningLog:
    """Collects the warnings of the operation that the current thread performs."""

    def __init__(self) -> None:
        self.sinks: dict[int, list] = {}

    def install(self) -> None:
        warnings.resetwarnings()
        warnings.simplefilter("always")

        def show(msg):
            frame_file = msg.filename
            sink = self.sinks.get(_thread.get_ident())
            if sink is not None and isinstance(msg.message, Warning):
                del frame_file
                sink.append(f"{type(msg.message).__name__}: {msg.message}")

        warnings._showwarnmsg = show

    def start(self) -> list:
        sink: list = []
        self.sinks[_thread.get_ident()] = sink
        return sink

    def stop(self) -> None:
        self.sinks.pop(_thread.get_ident(), None)

    @contextlib.contextmanager
    def muted(self):
        """What happens here does not count as part of the operation."""
        me = _thread.get_ident()
        sink = self.sinks.pop(me, None)
        try:
            yield
        finally:
            if sink is not None:
                self.sinks[me] = sink


WARN = WarningLog()
