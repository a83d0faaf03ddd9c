"""C24: an instance space: its model is that of its latest complete run."""
from __future__ import annotations

import copy
import dataclasses
import hashlib
from typing import Any, NamedTuple

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.core import Sub, Violation, attempt, eq, require
from pbt.deep import diff
from pbt.gen import quiet
from pbt.props import c21

RULE = ("histories of complete, iterated (abandoned, too), partial and single-stage runs of one or two "
        "instance spaces (of the same or other data and options, one also run in the midst of an "
        "iteration of the other) whose stages are generated stand-ins that give every result of the analysis "
        "another value each time they run, change the arguments they got and sometimes fail; "
        "non-trivial = a model was read after a complete run that was followed or preceded by "
        "another run")
ASSUMPTIONS = ["an abandoned iteration is not taken up again",
               "after a failed or abandoned run a space may also have no model until the next "
               "complete one"]

RESULTS = sorted({k for names in c21.PARTS.values() for k in names.values()}
                 | {"selection0", "selection1", "w"})


class Stop(Exception):
    pass


def expected_inputs(meta: Any, opts: Any) -> dict[str, Any]:
    return {
        "feature_names": meta.feature_names, "algorithm_names": meta.algorithm_names,
        "instance_labels": meta.instance_labels, "instance_sources": meta.instance_sources,
        "features": meta.features, "algorithms": meta.algorithms,
        "parallel_options": opts.parallel, "perf_options": opts.perf, "auto_options": opts.auto,
        "bound_options": opts.bound, "norm_options": opts.norm, "selvars_options": opts.selvars,
        "sifted_options": opts.sifted, "pilot_options": opts.pilot,
        "cloister_options": opts.cloister, "pythia_options": opts.pythia,
        "trace_options": opts.trace, "outputs_options": opts.outputs}


def digest(*vals: Any) -> int:
    return int(hashlib.sha1("|".join(map(str, vals)).encode()).hexdigest()[:10], 16)


def value(stage: int, name: str, tag: Any) -> Any:
    if name in ("selection0", "selection1"):
        return np.array([digest(stage, name, tag) % 7 - 1, stage])
    return np.array([float(digest(stage, name, tag)), float(stage)])


def make_stages(parts: list[list[str]], log: list[Any], world: dict[str, Any]) -> list[Any]:
    """A chain of stages; the last two of it side by side."""
    from instancespace.instance_space import _InstanceSpaceInputs
    from instancespace.stages.stage import Stage

    made = []
    for i, names in enumerate(parts):
        if i == 0:
            ann = dict(_InstanceSpaceInputs.__annotations__)
        else:
            # the last stage reads what the last but one reads: they run side by side
            ann = {parts[0 if i == 1 else i - 2 if world["fork"] and i == len(parts) - 1
                         else i - 1][0]: Any}
            ann["features"] = _InstanceSpaceInputs.__annotations__["features"]
        inp = NamedTuple(f"In{i}", list(ann.items()))
        inp.__annotations__.update(ann)
        out = NamedTuple(f"Out{i}", [(n, Any) for n in names])
        out.__annotations__.update({n: Any for n in names})

        def _run(inputs: Any, i: int = i, out: Any = out, names: list[str] = names) -> Any:
            log.append((i, copy.deepcopy(inputs._asdict())))
            for v in inputs:
                if isinstance(v, np.ndarray):
                    v[...] = -1
                elif isinstance(v, list):
                    v.append("scribble")
            if world["fail"] == i:
                raise Stop(f"stage {i}")
            return out(**{n: value(i, n, world["v"]) for n in names})

        made.append(type(f"Stub{i}", (Stage,), {
            "_inputs": staticmethod(lambda inp=inp: inp),
            "_outputs": staticmethod(lambda out=out: out), "_run": staticmethod(_run)}))
    return made


def make_meta(k: int, case: dict[str, Any]) -> Any:
    from instancespace.data.metadata import Metadata
    n = 3 + k
    rng = np.random.default_rng(case["seed"] + k)
    return Metadata(
        feature_names=[f"f{j}" for j in range(2)], algorithm_names=[f"a{j}{k}" for j in range(3)],
        instance_labels=pd.Series([f"i{j}" for j in range(n)]),
        instance_sources=pd.Series(["s"] * n) if case["source"] else None,
        features=rng.random((n, 2)), algorithms=rng.random((n, 3)))


def make_opts(k: int, case: dict[str, Any]) -> Any:
    from instancespace.data.options import (AutoOptions, BoundOptions, InstanceSpaceOptions,
                                            NormOptions, ParallelOptions, PerformanceOptions,
                                            PilotOptions, TraceOptions)
    b = [(case["seed"] >> j) % 2 == (k == 0) for j in range(8)]
    return dataclasses.replace(
        InstanceSpaceOptions.default(), parallel=ParallelOptions.default(flag=b[0], n_cores=3 + k),
        perf=PerformanceOptions.default(max_perf=b[1], abs_perf=b[2], epsilon=0.1 + k,
                                        beta_threshold=0.3 + 0.1 * k),
        auto=AutoOptions.default(preproc=b[3]), bound=BoundOptions.default(flag=b[4]),
        norm=NormOptions.default(flag=b[5]), pilot=PilotOptions.default(analytic=b[6]),
        trace=TraceOptions.default(use_sim=b[7]))


@st.composite
def case_st(draw: Any) -> dict[str, Any]:
    m = draw(st.integers(1, 5))
    ops = draw(st.lists(st.fixed_dictionaries({
        "op": st.sampled_from(["build", "build", "iter", "part", "until", "stage", "stage",
                               "model", "weave"]),
        "space": st.integers(0, 1), "k": st.integers(0, 4), "v": st.integers(0, 9),
        "fail": st.sampled_from([None] * 6 + [0, 1, 2]),
        "over": st.booleans()}), min_size=1, max_size=9))
    return {"stages": m, "fork": draw(st.booleans()), "seed": draw(st.integers(0, 2**20)),
            "cut": draw(st.integers(0, 2**20)), "source": draw(st.booleans()),
            "spaces": draw(st.sampled_from([1, 1, 2, 2])),
            "share": draw(st.sampled_from(["", "", "meta", "opts"])),
            "order": draw(st.permutations(range(m))), "ops": ops}


def compare_model(model: Any, env: dict[str, Any], opts: Any, what: str) -> None:
    c21.compare_parts(model, env, what)
    d = diff(model.opts, opts, "opts")
    require(d is None, f"{what}: {d}")


def check(case: dict[str, Any]) -> tuple[bool, list[str]]:
    from instancespace.instance_space import InstanceSpace
    from instancespace.stage_runner import StageRunningError

    m = case["stages"]
    rng = np.random.default_rng(case["cut"])
    parts: list[list[str]] = [[] for _ in range(m)]
    for k, name in enumerate(rng.permutation(RESULTS)):
        parts[k if k < m else int(rng.integers(m))].append(str(name))
    log: list[Any] = []
    fork = case["fork"] and m >= 3
    world: dict[str, Any] = {"v": 0, "fail": None, "fork": fork}
    stages = make_stages(parts, log, world)
    # schedule position of every stage (two side by side at the end)
    level = [min(i, m - 2) if fork else i for i in range(m)]
    ns = case["spaces"]
    metas = [make_meta(k, case) for k in range(ns)]
    opts = [make_opts(k, case) for k in range(ns)]
    if case["share"] == "meta":
        metas = metas[:1] * ns
    elif case["share"] == "opts":
        opts = opts[:1] * ns
    metas0, opts0 = copy.deepcopy(metas), copy.deepcopy(opts)
    spaces = [attempt(InstanceSpace, metas[k], opts[k], stages=[stages[i] for i in case["order"]],
                      what="InstanceSpace") for k in range(ns)]
    env: list[dict[str, Any]] = [{} for _ in range(ns)]      # latest outputs
    ran: list[set[int]] = [set() for _ in range(ns)]
    last: list[Any] = [None] * ns                            # outputs of the last complete run
    unsure = [False] * ns
    started = [False] * ns
    runs = [0] * ns
    held: list[Any] = []
    labels: set[str] = set()
    reads = 0

    def executed(s: int, over: Any, what: str) -> None:
        """Stages that ran: where their arguments came from, and what they gave."""
        for i, got in log:
            want = {n: copy.deepcopy(env[s].get(n)) for n in got}
            if i == 0:
                want = copy.deepcopy(expected_inputs(metas0[s], opts0[s]))
                p = got["prelim_options"]
                o = opts0[s]
                eq((p.max_perf, p.abs_perf, p.epsilon, p.beta_threshold, bool(p.bound),
                    bool(p.norm)),
                   (o.perf.max_perf, o.perf.abs_perf, o.perf.epsilon, o.perf.beta_threshold,
                    o.auto.preproc and o.bound.flag, o.auto.preproc and o.norm.flag),
                   f"{what}: options of PRELIM")
            elif "features" in got:
                want["features"] = metas0[s].features
            if over is not None:
                want["features"] = over
            for n, v in want.items():
                d = diff(got[n], v, n)
                require(d is None, f"{what}: argument of stage {i}: {d}")
            if world["fail"] != i:
                for j in range(m):
                    if level[j] > level[i]:
                        ran[s].discard(j)
                ran[s].add(i)
                env[s].update({n: value(i, n, world["v"]) for n in parts[i]})
        log.clear()

    for step, op in enumerate(case["ops"]):
        s = op["space"] % ns
        sp = spaces[s]
        i = op["k"] % m
        kind = op["op"]
        what = f"op {step} {kind}"
        world["v"], world["fail"] = (step, op["v"]), op["fail"]
        log.clear()
        if kind == "weave":
            # a complete run of the other space in the midst of an iteration of this one
            if ns == 1:
                continue
            world["fail"] = None
            for k in (s, 1 - s):
                started[k], env[k], runs[k] = True, {}, runs[k] + 1
                ran[k].clear()
            gen = sp.run_iter()
            for _ in range(i):
                attempt(quiet, next, gen, what=what)
            seen = [j for j, _ in log]
            executed(s, None, what)
            world["v"] = (step, op["v"], "other")
            result = attempt(quiet, spaces[1 - s].build, what=what + ": the other space")
            eq(sorted(j for j, _ in log), list(range(m)), f"{what}: stages of the other space")
            executed(1 - s, None, what + ": the other space")
            last[1 - s], unsure[1 - s] = dict(env[1 - s]), False
            compare_model(result, last[1 - s], opts0[1 - s], f"{what}: the model of the other space")
            held.append((result, last[1 - s], opts0[1 - s], what + ": the other space"))
            world["v"] = (step, op["v"])
            for _ in range(m - i):
                attempt(quiet, next, gen, what=what)
            try:
                quiet(next, gen)
                raise Violation(f"{what}: more outputs than stages")
            except StopIteration:
                pass
            seen += [j for j, _ in log]
            executed(s, None, what)
            eq(sorted(seen), list(range(m)), f"{what}: stages executed")
            last[s], unsure[s] = dict(env[s]), False
            labels.add("weave")
        if kind in ("build", "iter", "part", "until"):
            started[s] = True
            ran[s].clear()
            env[s] = {}
            runs[s] += 1
        if kind in ("build", "iter", "part", "until"):
            complete = False
            result = None
            count = (1 + i) if kind == "part" else m
            try:
                if kind == "build":
                    result = quiet(sp.build)
                    complete = True
                elif kind == "until":
                    quiet(sp.run_until_stage, stages[i])
                else:
                    gen = sp.run_iter()
                    for _ in range(count):
                        quiet(next, gen)
                    if kind == "iter":
                        try:
                            quiet(next, gen)
                            raise Violation(f"{what}: more outputs than stages")
                        except StopIteration:
                            complete = True
                    else:
                        gen.close()
            except Stop as e:
                require(bool(log) and str(e) == f"stage {log[-1][0]}", f"{what}: {e}")
                labels.add("failed")
            except Violation:
                raise
            except Exception as e:  # noqa: BLE001
                raise Violation(f"{what} raised {type(e).__name__}: {e}") from e
            else:
                require(world["fail"] is None or not any(j == world["fail"] for j, _ in log),
                        f"{what}: the failure of a stage disappeared")
            seen = [j for j, _ in log]
            eq(len(set(seen)), len(seen), f"{what}: executions {seen}")
            executed(s, None, what)
            if complete:
                eq(sorted(seen), list(range(m)), f"{what}: stages executed")
                last[s], unsure[s] = dict(env[s]), False
                if result is not None:
                    compare_model(result, last[s], opts0[s], f"{what}: the model returned")
                    held.append((result, last[s], opts0[s], what))
            elif kind != "until" or world["fail"] is not None:
                unsure[s] = True
            labels.add(kind)
        elif kind == "stage":
            over = np.full((2, 2), 5.0 + step) if op["over"] else None
            args = {} if over is None else {"features": over.copy()}
            ok = all(j in ran[s] for j in range(m) if level[j] < level[i])
            if not started[s] and i == 0:
                continue        # its arguments are not there
            try:
                got = quiet(sp.run_stage, stages[i], **args)
            except Stop:
                require(ok and world["fail"] == i, f"{what}: failed")
                # what a failed run of a stage leaves to later stages is open
                log.clear()
                if i in ran[s]:
                    return bool(reads), sorted(labels)
                continue
            except StageRunningError as e:
                require(not ok, f"{what}: refused although everything before it has been run")
                eq(log, [], f"{what}: executions of a refused stage")
                labels.add("refused")
                del e
                continue
            except Exception as e:  # noqa: BLE001
                raise Violation(f"{what} raised {type(e).__name__}: {e}") from e
            require(ok, f"{what}: ran although stages before it have not been run")
            eq([j for j, _ in log], [i], f"{what}: executions")
            executed(s, over, what)
            for n in parts[i]:
                d = diff(getattr(got, n), env[s][n], n)
                require(d is None, f"{what}: {d}")
            runs[s] += 1
            labels.add("stage")
        # the model, after every operation
        for k in range(ns):
            try:
                mod = quiet(lambda: spaces[k].model)
            except StageRunningError:
                require(last[k] is None or unsure[k], f"{what}: no model after a complete run")
                continue
            except Exception as e:  # noqa: BLE001
                raise Violation(f"{what}: model raised {type(e).__name__}: {e}") from e
            require(last[k] is not None, f"{what}: a model without a complete run")
            compare_model(mod, last[k], opts0[k], f"model of space {k} after {what}")
            reads += runs[k] > 1
            if kind == "model":
                held.append((mod, last[k], opts0[k], what))
        for k in range(ns):
            for a, b, nm in ((metas[k], metas0[k], "metadata"), (opts[k], opts0[k], "options")):
                d = diff(a, b, nm)
                require(d is None, f"{what}: a run changed the caller's data: {d}")
            for a, b, nm in ((spaces[k].metadata, metas0[k], "metadata"),
                             (spaces[k].options, opts0[k], "options")):
                d = diff(a, b, nm)
                require(d is None, f"{what}: other data held: {d}")
    for mod, want, o, what in held:
        compare_model(mod, want, o, f"model given by {what}, after later operations")
    if ns > 1:
        labels.add("two spaces")
    return bool(reads), sorted(labels)


SUBS = [Sub("histories", case_st, check, 3000, 40000)]
