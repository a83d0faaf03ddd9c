"""Run a property's sub-checks over generated cases, shrink, count, report."""
from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings
from collections import Counter
from dataclasses import dataclass, field
from typing import Any, Callable

from pbt.boot import HERE, REPO

TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
WORKERS = int(os.environ.get("PBT_WORKERS", "8"))
FAST = os.environ.get("PBT_FAST") == "1"  # mutation campaign: stop at the first failing shard
SHRINK_SECONDS = 40.0
# no generated case takes more than a few seconds: one that runs this long hangs
CASE_SECONDS = 200.0


class Violation(AssertionError):
    """The property does not hold for this case."""


class CaseTimeout(BaseException):
    """A case ran far too long."""


def _on_alarm(signum: int, frame: Any) -> None:
    raise CaseTimeout(f"no result after {CASE_SECONDS:.0f} s")


class HarnessError(Exception):
    """Something is wrong with the check itself, not with the code under test."""


def require(cond: Any, msg: str) -> None:
    if not cond:
        raise Violation(msg)


def eq(got: Any, want: Any, what: str) -> None:
    if not (got == want):
        raise Violation(f"{what}: got {got!r}, expected {want!r}")


def attempt(fn: Callable[..., Any], *a: Any, what: str = "call", **k: Any) -> Any:
    """Call code under test on a valid input: any exception breaks the property."""
    try:
        return fn(*a, **k)
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        where = f"{os.path.basename(tb[-1].filename)}:{tb[-1].name}" if tb else "?"
        raise Violation(f"{what} raised {type(e).__name__}: {str(e)[:300]} (in {where})") from e


@dataclass
class Sub:
    """One executable statement: a generator of cases and a check of one case.

    ``check(case)`` raises Violation (any exception counts: the oracle met an output it does
    not understand) and returns (nontrivial, labels).
    """

    name: str
    strategy: Callable[[], Any]
    check: Callable[[Any], tuple[bool, list[str]]]
    quick: int
    thorough: int
    shards: int = 8
    shrink: bool = True
    # inputs that are always executed first (saved regressions and hand-picked corners)
    pinned: list[Any] = field(default_factory=list)


@dataclass
class Known:
    """A recorded finding: this very input still fails on the unchanged tree."""

    id: str
    case: Any
    check: Callable[[Any], Any]
    text: str
    # the failure must look like this to count as the known one
    expect: str


def canon(case: Any) -> str:
    return json.dumps(case, sort_keys=True, default=str)


def _key(s: str) -> str:
    return hashlib.sha1(s.encode()).hexdigest()


def derive(*parts: Any) -> int:
    return int(hashlib.sha256("|".join(map(str, parts)).encode()).hexdigest()[:15], 16)


class _Stop(Exception):
    pass


def run_shard(sub: Sub, shard: int, n: int, seed: int) -> dict[str, Any]:
    import numpy as np
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed

    st = {"evals": 0, "keys": set(), "labels": Counter(), "samples": [], "fails": [],
          "error": None, "nontrivial": 0}
    first_fail: list[float] = []
    failing: dict[str, str] = {}

    def one(case: Any) -> None:
        js = canon(case)
        if first_fail and time.monotonic() - first_fail[0] > SHRINK_SECONDS:
            if js in failing:
                raise Violation(failing[js])
            return
        st["evals"] += 1
        random.seed(0)
        np.random.seed(0)
        signal.signal(signal.SIGALRM, _on_alarm)
        signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)
        try:
            out = sub.check(json.loads(js))
        except HarnessError:
            raise
        except MemoryError:
            raise HarnessError("out of memory")
        except (Exception, CaseTimeout, SystemExit) as e:  # noqa: BLE001
            signal.setitimer(signal.ITIMER_REAL, 0)
            if isinstance(e, Violation):
                msg = str(e)
            else:
                msg = "".join(traceback.format_exception(e))[-1800:]
            failing[js] = msg
            if not first_fail:
                first_fail.append(time.monotonic())
            raise Violation(msg) from None
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        nontrivial, labels = out
        for lb in labels:
            st["labels"][lb] += 1
        if nontrivial:
            st["nontrivial"] += 1
            st["keys"].add(_key(js))
            if len(st["samples"]) < 2:
                st["samples"].append(js if len(js) < 1500 else js[:1500] + "...")

    try:
        if shard == 0:
            for case in sub.pinned:
                try:
                    one(case)
                except Violation:
                    pass
        if n > 0 and not failing:
            phases = [Phase.generate] + ([Phase.shrink] if sub.shrink and not FAST else [])

            @hseed(derive(seed, sub.name, shard))
            @settings(max_examples=n, database=None, deadline=None, phases=phases,
                      report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                      print_blob=False)
            @given(sub.strategy())
            def prop(case: Any) -> None:
                one(case)

            try:
                prop()
            except HarnessError:
                raise
            except BaseException as e:  # noqa: BLE001
                if not failing:
                    if isinstance(e, (KeyboardInterrupt, SystemExit)):
                        raise
                    raise HarnessError("".join(traceback.format_exception(e))[-3000:])
    except HarnessError as e:
        st["error"] = f"{sub.name}: {e}"
    if failing:
        js = min(failing, key=lambda s: (len(s), s))
        st["fails"].append((js, failing[js]))
    return st


def _worker(args: tuple[str, str, int, int, int]) -> tuple[str, dict[str, Any]]:
    pid, name, shard, n, seed = args
    sub = next(s for s in load(pid).SUBS if s.name == name)
    warnings.simplefilter("ignore")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("PBT_DEBUG"):
        os.dup2(devnull, 2)
    t = time.monotonic()
    st = run_shard(sub, shard, n, seed)
    st["wall"] = time.monotonic() - t
    return name, st


def _child(task: Any, conn: Any) -> None:
    os.setpgrp()
    try:
        conn.send(_worker(task))
    except BaseException:  # noqa: BLE001
        conn.send((task[1], {"evals": 0, "keys": set(), "labels": Counter(), "samples": [],
                             "fails": [], "nontrivial": 0, "wall": 0.0,
                             "error": f"{task[1]}: " + traceback.format_exc()[-2000:]}))
    conn.close()
    signal.pause()  # the parent ends this process and its children


def run_tasks(tasks: list[Any]) -> Any:
    """One process per shard (not daemonic: the code under test may start its own)."""
    from multiprocessing.connection import wait

    ctx = mp.get_context("fork")
    todo = list(tasks)[::-1]
    running: dict[Any, Any] = {}
    while todo or running:
        while todo and len(running) < WORKERS:
            task = todo.pop()
            recv, send = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_child, args=(task, send))
            p.start()
            send.close()
            running[recv] = (p, task)
        for conn in wait(list(running)):
            p, task = running.pop(conn)
            try:
                out = conn.recv()
            except EOFError:
                p.join(10)
                out = (task[1], {"evals": 0, "keys": set(), "labels": Counter(), "samples": [],
                                 "fails": [], "nontrivial": 0, "wall": 0.0,
                                 "error": f"{task[1]}: worker ended with {p.exitcode}"})
            conn.close()
            try:  # whatever the code under test started and left behind goes as well
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            p.join(30)
            yield out


def load(pid: str) -> Any:
    return importlib.import_module(f"pbt.props.{pid.lower()}")


def _check_import() -> None:
    import instancespace
    try:
        from loguru import logger
        logger.remove()
    except Exception:  # noqa: BLE001
        pass
    f = os.path.realpath(instancespace.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError(f"instancespace imported from {f}, not from {REPO}")


def replay(pid: str, path: str) -> int:
    mod = load(pid)
    with open(path) as f:
        rec = json.load(f)
    sub = next(s for s in mod.SUBS if s.name == rec["sub"])
    import numpy as np
    random.seed(0)
    np.random.seed(0)
    try:
        sub.check(rec["case"])
    except Exception as e:  # noqa: BLE001
        print(f"[{rec['sub']}] {type(e).__name__}: {e}", file=sys.stderr)
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print("the saved case passes")
    return 0


def main(argv: list[str]) -> int:
    pid = argv[0].upper()
    warnings.simplefilter("ignore")
    try:
        _check_import()
        mod = load(pid)
        for s in mod.SUBS:
            s.strategy()  # lazy strategies are validated in the workers
    except Exception:
        traceback.print_exc()
        print(f"HARNESS-ERROR property={pid}", file=sys.stderr)
        return 3
    if len(argv) >= 3 and argv[1] == "--replay":
        return replay(pid, argv[2])
    only = argv[2] if len(argv) >= 3 and argv[1] == "--sub" else None
    t0 = time.monotonic()
    scale = float(os.environ.get("PBT_SCALE", "1"))
    tasks = []
    for sub in mod.SUBS:
        if only and sub.name != only:
            continue
        n = sub.quick if TIER == "quick" else sub.thorough
        n = max(1, int(n * scale))
        shards = min(sub.shards, n)
        if TIER == "thorough":
            shards = min(max(shards, 8), n)
        for i in range(shards):
            k = n // shards + (1 if i < n % shards else 0)
            tasks.append((pid, sub.name, i, k, SEED))
    # interleave so that a long sub starts early in every worker
    tasks.sort(key=lambda t: (t[2], t[1]))
    res: dict[str, list[dict[str, Any]]] = {}
    for name, st in run_tasks(tasks):
        res.setdefault(name, []).append(st)
        if FAST and st["fails"]:
            break
    errors = [st["error"] for sts in res.values() for st in sts if st["error"]]

    evals = sum(st["evals"] for sts in res.values() for st in sts)
    distinct = 0
    per_sub: dict[str, Any] = {}
    samples = []
    for sub in mod.SUBS:
        sts = res.get(sub.name, [])
        keys = set().union(*[st["keys"] for st in sts]) if sts else set()
        distinct += len(keys)
        labels: Counter[str] = Counter()
        for st in sts:
            labels.update(st["labels"])
        per_sub[sub.name] = {
            "evaluations": sum(st["evals"] for st in sts),
            "distinct_nontrivial": len(keys),
            "classes": dict(sorted(labels.items(), key=lambda kv: -kv[1])[:40]),
            "cpu_s": round(sum(st["wall"] for st in sts), 1),
        }
        for st in sorted(sts, key=lambda s: str(s["samples"])):
            if st["samples"]:
                samples.append({"sub": sub.name, "case": st["samples"][-1]})
                break

    # known findings: their very inputs, outside the search
    known_lines, known_ids = [], set(listed_findings(pid))
    for kf in getattr(mod, "KNOWN", []):
        if kf.id not in known_ids:
            continue
        msg = run_known(kf)
        if msg is None:
            continue  # does not fail (any more)
        if kf.expect in msg:
            known_lines.append(f"KNOWN-FINDING: property={pid} {kf.id}: {kf.text}")
        else:
            res.setdefault(kf.id, []).append(
                {"fails": [(canon(kf.case), msg)], "evals": 1})

    violations = 0
    out_dir = os.path.join(HERE, "replays")
    for name, sts in sorted(res.items()):
        fails = [f for st in sts for f in st["fails"]]
        if not fails:
            continue
        js, msg = min(fails, key=lambda f: (len(f[0]), f[0]))
        os.makedirs(out_dir, exist_ok=True)
        path = os.path.join(out_dir, f"{pid}_{name}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "sub": name, "seed": SEED, "message": msg,
                       "case": json.loads(js)}, f, indent=1)
        violations += 1
        print(f"[{pid}/{name}] {msg[:1500]}")
        print(f"[{pid}/{name}] case: {js[:600]}")
        print(f"VIOLATION property={pid} replay={path}")
    for line in known_lines:
        print(line)

    wall = time.monotonic() - t0
    ev = {
        "property": pid, "tier": TIER, "seed": SEED, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct, "rule": mod.RULE,
            "samples": samples, "per_sub": per_sub,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2), "violations": violations,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{pid}: {evals} cases, {distinct} distinct non-trivial, {violations} violation(s), "
          f"{wall:.1f}s ({TIER}, seed {SEED})")
    if only or os.environ.get("PBT_DEBUG"):
        print(json.dumps(per_sub, indent=1))
    if violations:
        return 1
    if errors:
        for e in errors:
            print("HARNESS-ERROR", e, file=sys.stderr)
        return 3
    return 0


def listed_findings(pid: str) -> list[str]:
    """Ids of the findings listed for this property in known_findings.txt."""
    ids = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                w = line.split()
                if len(w) >= 3 and w[0] == "known:" and w[1] == f"property={pid}":
                    ids.append(w[2])
    except FileNotFoundError:
        pass
    return ids


def run_known(kf: Known) -> str | None:
    import contextlib
    import io
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            kf.check(json.loads(canon(kf.case)))
    except Exception as e:  # noqa: BLE001
        return f"{type(e).__name__}: {e}"
    return None
