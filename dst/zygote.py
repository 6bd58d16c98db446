"""Zygote: a deterministic interpreter that has everything imported and forks simulations.

Reads one JSON request per line on stdin, answers one JSON line on fd 3 (stdout is not
used, so that nothing printed by the code under test can disturb the protocol).
Every request is executed in a fresh fork of the pristine image.
"""
from __future__ import annotations

import gc
import importlib
import json
import logging
import os
import select
import signal
import sys
import time
import traceback
import warnings

_monotonic = time.monotonic


def answer(fd: int, obj) -> None:
    data = (json.dumps(obj) + "\n").encode()
    while data:
        n = os.write(fd, data)
        data = data[n:]


def call_child(fn, payload, timeout: float) -> dict:
    """Runs fn(payload) in a fork; {"ok": result} | {"crash": text} | {"timeout": s}."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            try:
                out = {"ok": fn(payload)}
            except BaseException:  # noqa: BLE001
                out = {"crash": traceback.format_exc()[-4000:]}
            answer(w, out)
        except BaseException:  # noqa: BLE001
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    chunks = []
    end = _monotonic() + timeout
    timed_out = False
    while True:
        left = end - _monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            continue
        data = os.read(r, 1 << 20)
        if not data:
            break
        chunks.append(data)
        if data.endswith(b"\n"):
            break
    os.close(r)
    try:  # also ends helpers that the child left behind
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    _, status = os.waitpid(pid, 0)
    if timed_out:
        return {"timeout": timeout}
    text = b"".join(chunks)
    if not text:
        return {"crash": f"simulation process ended without an answer (status {status})"}
    return json.loads(text)


def main() -> None:
    out = int(os.environ.get("DST_FD", "3"))
    devnull = os.open(os.devnull, os.O_RDWR)
    stdin = os.dup(0)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    from . import boot, engine

    boot.install()
    boot.import_dependencies()
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    engine.install_locks()
    engine.CLOCK.install()
    boot.import_repo()
    engine.WARN.install()
    prop = importlib.import_module("dst.props." + sys.argv[1])
    if hasattr(prop, "prepare"):
        prop.prepare()
    gc.collect()
    gc.freeze()
    gc.disable()
    answer(out, {"ready": os.getpid(), "codes": len(boot.TABLE.codes)})
    buffer = b""
    while True:
        data = os.read(stdin, 1 << 20)
        if not data:
            return
        buffer += data
        while b"\n" in buffer:
            line, buffer = buffer.split(b"\n", 1)
            req = json.loads(line)
            results = []
            for name, payload in req["calls"]:
                results.append(call_child(getattr(prop, "child_" + name), payload, req["timeout"]))
            answer(out, results)


if __name__ == "__main__":
    main()
