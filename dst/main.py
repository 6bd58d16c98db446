"""Driver of the checks: seeds, distribution, minimisation, replay and evidence.

  python -m dst.main PID                 run the check
  python -m dst.main PID --replay FILE   replay one recorded violation
  python -m dst.main PID --sim N [M]     run single simulations and print their records
  python -m dst.main PID --selftest N    run N simulations twice and compare the records
"""
from __future__ import annotations

import hashlib
import importlib
import json
import os
import subprocess
import sys
import threading
import time
from collections import Counter
from pathlib import Path
from random import Random

from . import boot

VERIF = Path(__file__).resolve().parent.parent
WORKERS = int(os.environ.get("DST_WORKERS", "8"))
CHILD_TIMEOUT = 90.0


class HarnessError(Exception):
    pass


class TimedOut(HarnessError):
    """A simulation that does not end."""


class NoProgress(Exception):
    """Simulated processes that wait for ever."""


class Zygote:
    def __init__(self, prop: str, hash_seed: int) -> None:
        env = {k: v for k, v in os.environ.items() if k in {"PATH", "HOME", "LD_LIBRARY_PATH", "VERIF_REPO"}}
        env.update(boot.THREAD_ENV)
        r, w = os.pipe()
        os.set_inheritable(w, True)
        env.update(PYTHONHASHSEED=str(hash_seed), DST_FD=str(w), PYTHONPATH=str(VERIF))
        if prop == "c11":  # some processes ignore assertions, as with python -O
            env["DST_OPTIMIZE"] = "1" if hash_seed % 3 == 0 else "0"
        self.hash_seed = hash_seed
        self.lock = threading.Lock()
        self.stderr = open(os.devnull, "wb") if not os.environ.get("DST_DEBUG") else None
        self.proc = subprocess.Popen(
            [boot.PYTHON, "-m", "dst.zygote", prop],
            stdin=subprocess.PIPE,
            stderr=subprocess.PIPE,
            env=env,
            pass_fds=(w,),
            cwd="/",
        )
        os.close(w)
        self.out = os.fdopen(r, "rb")
        self.errors: list[bytes] = []
        threading.Thread(target=self._drain, daemon=True).start()

    def _drain(self) -> None:
        for line in self.proc.stderr:
            self.errors.append(line)
            del self.errors[:-40]

    def ready(self) -> None:
        line = self.out.readline()
        if not line:
            time.sleep(0.2)
            raise HarnessError("simulator image could not be started:\n" + b"".join(self.errors).decode())

    def calls(self, calls: list, timeout: float = CHILD_TIMEOUT) -> list:
        if not calls:
            return []
        with self.lock:
            self.proc.stdin.write(json.dumps({"calls": calls, "timeout": timeout}).encode() + b"\n")
            self.proc.stdin.flush()
            line = self.out.readline()
        if not line:
            raise HarnessError("simulator image ended:\n" + b"".join(self.errors).decode())
        return json.loads(line)

    def close(self) -> None:
        try:
            self.proc.stdin.close()
            self.proc.wait(5)
        except Exception:  # noqa: BLE001
            self.proc.kill()


class Env:
    """What the run() of a property may use: forks of the simulator images."""

    def __init__(self, zygotes: list[Zygote], first: int) -> None:
        self.zygotes = zygotes
        self.first = first
        self.memo: dict = {}

    def zygote(self, k: int) -> Zygote:
        return self.zygotes[(self.first + k) % len(self.zygotes)]

    def many(self, calls: list, k: int = 0) -> list:
        out = []
        for (name, _), res in zip(calls, self.zygote(k).calls(calls)):
            if "ok" not in res:
                if "timeout" in res:
                    raise TimedOut(f"{name}: simulation process exceeded {res['timeout']} s")
                raise HarnessError(f"{name}: {res['crash']}")
            if isinstance(res["ok"], dict) and res["ok"].get("hang"):
                raise NoProgress(res["ok"]["hang"])
            out.append(res["ok"])
        return out

    def call(self, name: str, payload, k: int = 0):
        return self.many([(name, payload)], k)[0]

    def references(self, name: str, payloads: list, k: int = 0) -> list:
        """Like many(), memoised by payload."""
        keys = [f"{k}:{name}:" + json.dumps(p) for p in payloads]
        todo = {}
        for key, p in zip(keys, payloads):
            if key not in self.memo and key not in todo:
                todo[key] = (name, p)
        if len(self.memo) > 5000:
            self.memo = {x: self.memo[x] for x in keys if x in self.memo}
        for key, res in zip(list(todo), self.many(list(todo.values()), k)):
            self.memo[key] = res
        return [self.memo[key] for key in keys]


def rng_for(seed: int, pid: str, index: int) -> Random:
    return Random(int.from_bytes(hashlib.sha256(f"{seed}/{pid}/{index}".encode()).digest()[:8], "big"))


def hash_seed(seed: int, k: int) -> int:
    return (seed * 8191 + 17 * k + 1) % (2**32 - 2) + 1


class Check:
    def __init__(self, pid: str) -> None:
        self.pid = pid
        self.prop = importlib.import_module(f"dst.props.{pid.lower()}")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in {"quick", "thorough"}:
            self.tier = "quick"
        self.t0 = time.monotonic()
        self.zygotes: list[Zygote] = []
        self.known = self.load_known()

    def load_known(self) -> list:
        path = VERIF / "known_findings.json"
        if not path.exists():
            return []
        return [f for f in json.loads(path.read_text())["findings"] if f["property"] == self.pid]

    def start(self, seeds: list[int]) -> None:
        self.zygotes = [Zygote(self.pid.lower(), s) for s in seeds]
        for z in self.zygotes:
            z.ready()

    def close(self) -> None:
        for z in self.zygotes:
            z.close()

    # ------------------------------------------------------------------ the search
    def gen(self, index: int) -> dict:
        return self.prop.gen(rng_for(self.seed, self.pid, index), {"tier": self.tier, "index": index})

    def run(self) -> int:
        n = int(os.environ.get("DST_SIMS", self.prop.SIMS[self.tier]))
        cap = 420.0 if self.tier == "quick" else float(os.environ.get("DST_CAP", "7200"))
        self.start([hash_seed(self.seed, k) for k in range(WORKERS)])
        results: dict[int, dict] = {}
        scripts: dict[int, dict] = {}
        errors: list[str] = []
        stop = threading.Event()
        lock = threading.Lock()

        def work(w: int) -> None:
            env = Env(self.zygotes, w)
            for i in range(w, n, WORKERS):
                if stop.is_set() or time.monotonic() - self.t0 > cap:
                    return
                try:
                    script = self.gen(i)
                    rec = self.run_one(script, env)
                except Exception as e:  # noqa: BLE001
                    import traceback

                    with lock:
                        errors.append(f"simulation {i}: {e}\n{traceback.format_exc()[-1500:] if not isinstance(e, HarnessError) else ''}")
                    if len(errors) > 5:
                        stop.set()
                    continue
                with lock:
                    results[i] = rec
                    scripts[i] = script
                v = rec.get("violation")
                if v and not self.is_known(v):
                    stop.set()

        threads = [threading.Thread(target=work, args=(w,)) for w in range(WORKERS)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        bad = sorted(i for i, r in results.items() if r.get("violation") and not self.is_known(r["violation"]))
        known_hits = Counter(
            self.is_known(r["violation"]) for r in results.values() if r.get("violation") and self.is_known(r["violation"])
        )
        for f in self.known:
            if f.get("status") == "open":
                print(f"KNOWN-FINDING: property={self.pid} {f['what']}")
        code = 0
        path = None
        for i in bad[:3]:
            path = self.report(i, scripts[i], results[i])
            if path is not None:
                code = 1
                break
            errors.append(f"simulation {i}: the violation did not reproduce: {results[i]['violation']}")
        self.evidence(n, results, scripts, len(bad), known_hits, errors, path)
        if code == 0 and errors:
            for e in errors[:5]:
                print("ERROR " + e, file=sys.stderr)
            code = 2
        if code == 0:
            print(f"{self.pid}: held in {len(results)} simulations ({time.monotonic() - self.t0:.0f} s)")
        self.close()
        return code

    def is_known(self, violation: dict) -> str | None:
        for f in self.known:
            if f.get("status") == "open" and all(violation.get(k) == v for k, v in f["match"].items()):
                return f["id"]
        return None

    def run_one(self, script: dict, env: Env) -> dict:
        """One simulation; one that hangs twice has found a violation."""
        for attempt in range(2):
            try:
                return self.prop.run(script, env)
            except NoProgress as e:
                return {"violation": {"kind": "no progress", "message": str(e)}, "stats": {}}
            except TimedOut as e:
                if attempt:
                    return {"violation": {"kind": "no answer", "message": str(e)}, "stats": {}}
            except HarnessError:  # e.g. a starved machine: deterministic errors come back
                if attempt:
                    raise
        raise AssertionError

    # ------------------------------------------------------------------ reporting
    def report(self, index: int, script: dict, rec: dict) -> str | None:
        hs = hash_seed(self.seed, index % WORKERS)
        env = Env(self.zygotes, index % WORKERS)
        print(f"violation found in simulation {index} (VERIF_SEED={self.seed}): {rec['violation']['message']}"[:1500])
        script, rec, tried = self.minimise(script, rec, env)
        hash_seeds = [hash_seed(self.seed, (index + k) % WORKERS) for k in range(WORKERS)]
        replay = {
            "property": self.pid,
            "verif_seed": self.seed,
            "simulation": index,
            "hash_seed": hs,
            "hash_seeds": hash_seeds,
            "violation": rec["violation"],
            "script": script,
            "minimisation_runs": tried,
        }
        directory = VERIF / "replays"
        directory.mkdir(exist_ok=True)
        path = directory / f"{self.pid}-{self.seed}-{index}.json"
        path.write_text(json.dumps(replay, indent=1) + "\n")
        ok = self.replay(path, quiet=True)
        if not ok:
            return None
        print(f"minimised after {tried} runs: {rec['violation']['message']}"[:3000])
        print(f"VIOLATION property={self.pid} replay={path}", flush=True)
        return str(path)

    def fails(self, script: dict, env: Env, kind: str) -> dict | None:
        try:
            rec = self.run_one(script, env)
        except Exception:  # noqa: BLE001 - shrinking may produce scripts that make no sense
            return None
        v = rec.get("violation")
        if v and v["kind"] == kind and not self.is_known(v):
            return rec
        return None

    def minimise(self, script: dict, rec: dict, env: Env) -> tuple:
        kind = rec["violation"]["kind"]
        limit = time.monotonic() + (60 if self.tier == "quick" else 180)
        best, best_rec, tried = script, rec, 0
        if kind == "no answer":  # every attempt would take minutes
            return best, best_rec, tried
        progress = True
        while progress and time.monotonic() < limit:
            progress = False
            for cand in self.prop.shrink(best, best_rec):
                if time.monotonic() > limit:
                    break
                tried += 1
                got = self.fails(cand, env, kind)
                if got is not None:
                    best, best_rec, progress = cand, got, True
                    break
        if hasattr(self.prop, "pin"):
            # replace the seeded schedule by the switches that it made, and drop needless ones
            cand = self.prop.pin(best, best_rec)
            got = self.fails(cand, env, kind) if cand is not None else None
            tried += 1
            if got is not None:
                best, best_rec = cand, got
                progress = True
                limit += 40
                while progress and time.monotonic() < limit:
                    progress = False
                    for cand in self.prop.shrink_schedule(best):
                        if time.monotonic() > limit:
                            break
                        tried += 1
                        got = self.fails(cand, env, kind)
                        if got is not None:
                            best, best_rec, progress = cand, got, True
                            break
        return best, best_rec, tried

    def replay(self, path: Path, quiet: bool = False) -> bool:
        data = json.loads(Path(path).read_text())
        fresh = [Zygote(self.pid.lower(), s) for s in data["hash_seeds"][: getattr(self.prop, "ZYGOTES", 1)]]
        for z in fresh:
            z.ready()
        try:
            rec = self.run_one(data["script"], Env(fresh, 0))
        finally:
            for z in fresh:
                z.close()
        v = rec.get("violation")
        same = bool(v) and v["kind"] == data["violation"]["kind"]
        if not quiet:
            if same:
                print(v["message"])
                print(f"VIOLATION property={self.pid} replay={path}")
            else:
                print(f"not reproduced; got {v}")
        return same

    # ------------------------------------------------------------------ evidence
    def evidence(self, n, results, scripts, bad, known_hits, errors, path) -> None:
        wall = time.monotonic() - self.t0
        total: Counter = Counter()
        distinct: set = set()
        interleavings: set = set()
        samples = []
        for i in sorted(results):
            st = results[i].get("stats", {})
            for k, v in st.get("count", {}).items():
                total[k] += v
            if st.get("nontrivial", True):
                distinct.add(st.get("fingerprint") or hashlib.sha1(json.dumps(scripts[i]).encode()).hexdigest())
            if st.get("interleaving"):
                interleavings.add(st["interleaving"])
        for i in sorted(results)[:3]:
            text = json.dumps(scripts[i])
            samples.append({"simulation": i, "script": scripts[i] if len(text) < 3000 else text[:3000] + "...", "stats": results[i].get("stats")})
        faults = {k.removeprefix("fault:"): v for k, v in sorted(total.items()) if k.startswith("fault:")}
        probes = {k.removeprefix("probe:"): v for k, v in sorted(total.items()) if k.startswith("probe:")}
        work = {k: v for k, v in sorted(total.items()) if ":" not in k}
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": len(results),
                "distinct_nontrivial": len(distinct),
                "rule": self.prop.RULE,
                "samples": samples,
                "simulated_runs_planned": n,
                "simulated_runs_per_hour": round(len(results) / max(wall, 1e-6) * 3600),
                "seeds_per_hour": round(len(results) / max(wall, 1e-6) * 3600),
                "simulated_time": getattr(self.prop, "SIMULATED_TIME", "the code reads no clock; simulated time is counted in scheduler steps and operations: ")
                + f" {work.get('steps', 0)} steps, {work.get('operations', 0)} operations",
                "faults_injected": faults,
                "probes": probes,
                "work": work,
                "distinct_interleavings": len(interleavings),
                "interleaving_measure": getattr(self.prop, "INTERLEAVING", "none: the property has no schedule"),
                "hash_seeds": [z.hash_seed for z in self.zygotes],
                "real_components": getattr(self.prop, "REAL", ""),
                "stub_components": getattr(self.prop, "STUB", ""),
                "known_findings_hit": dict(known_hits),
                "errors": [e[:500] for e in errors[:5]],
                "replay": path,
            },
            "assumptions": getattr(self.prop, "ASSUMPTIONS", []),
            "wall_s": round(wall, 2),
            "violations": bad,
        }
        out = VERIF / "evidence"
        out.mkdir(exist_ok=True)
        (out / f"{self.pid}.json").write_text(json.dumps(ev, indent=1) + "\n")

    # ------------------------------------------------------------------ tools
    def sims(self, first: int, last: int) -> int:
        self.start([hash_seed(self.seed, k) for k in range(WORKERS)])
        for i in range(first, last + 1):
            env = Env(self.zygotes, i % WORKERS)
            script = self.gen(i)
            rec = self.prop.run(script, env)
            print(json.dumps({"sim": i, "script": script if os.environ.get("DST_SCRIPT") else "...", "rec": rec}, indent=1)[:8000])
        self.close()
        return 0

    def selftest(self, n: int) -> int:
        """Same seeds, other worker counts and fresh processes: records must be identical."""
        logs = []
        for round_ in range(2):
            z = 8
            self.start([hash_seed(self.seed, k) for k in range(z)])
            got: dict[int, str] = {}

            def work(w: int, stride: int) -> None:
                for i in range(w, n, stride):
                    rec = self.prop.run(self.gen(i), Env(self.zygotes, i % z))
                    got[i] = hashlib.sha1(json.dumps(rec).encode()).hexdigest()
                    if os.environ.get("DST_KEEP"):
                        Path(os.environ["DST_KEEP"], f"{self.pid}-{i}-{round_}.json").write_text(json.dumps(rec, indent=1))

            stride = 8 if round_ == 0 else 5
            ts = [threading.Thread(target=work, args=(w, stride)) for w in range(stride)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            self.close()
            logs.append(got)
        diff = [i for i in range(n) if logs[0].get(i) != logs[1].get(i)]
        print(f"{self.pid}: {n} simulations twice, {len(diff)} differ {diff[:10]}")
        return 1 if diff else 0


def main() -> int:
    boot.no_aslr()
    pid = sys.argv[1]
    check = Check(pid)
    try:
        if len(sys.argv) > 2 and sys.argv[2] == "--replay":
            return 1 if check.replay(Path(sys.argv[3])) else 0
        if len(sys.argv) > 2 and sys.argv[2] == "--sim":
            return check.sims(int(sys.argv[3]), int(sys.argv[-1]))
        if len(sys.argv) > 2 and sys.argv[2] == "--selftest":
            return check.selftest(int(sys.argv[3]))
        return check.run()
    except HarnessError as e:
        print(f"ERROR {e}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
