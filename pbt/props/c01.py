"""C01: stage schedule resolution."""
from __future__ import annotations

from typing import Any

from hypothesis import strategies as st

from pbt.core import Sub, Violation, attempt, eq, require
from pbt.stagegen import (RefError, arg_name, arg_type, init_type, layered_specs, make_classes,
                          random_specs, reference_schedule)

RULE = ("pipelines generated as data (1-7 stages, typed arguments, mutating stages, RunBefore/"
        "RunAfter, stages without inputs or outputs), built with the real StageBuilder in two "
        "insertion orders and compared with a reference resolver; non-trivial = at least 2 "
        "stages that resolve to at least 2 schedule elements, or a documented resolution error "
        "in a pipeline of at least 2 stages")
ASSUMPTIONS = ["the order inside one schedule element is free (documented)"]


def build(spec: dict[str, Any], perm: list[int], as_set: bool, log: Any = None) -> Any:
    from instancespace.stage_builder import StageBuilder, StageResolutionError
    from instancespace.stage_runner import _StageArgument

    classes = make_classes(spec, log)
    b = StageBuilder()
    for i in perm:
        require(b.add_stage(classes[i]) is b, "add_stage does not return the builder")
    if as_set:
        init: Any = {_StageArgument(arg_name(a), arg_type(a)) for a in spec["init"]}
        before = set(init)
    else:
        init = init_type(spec["init"])
    try:
        runner = b.build(init)
    except StageResolutionError as e:
        return "error", str(e)
    except Exception as e:  # noqa: BLE001
        raise Violation(f"build raised {type(e).__name__}: {e} instead of resolving or "
                        f"reporting a StageResolutionError") from e
    finally:
        if as_set:
            require(init == before, "build changed the caller's set of initial arguments")
    index = {c: i for i, c in enumerate(classes)}
    order = [[index[c] for c in el] for el in runner._stage_order]
    return "ok", order, runner, classes, b, init


def check(case: dict[str, Any]) -> tuple[bool, list[str]]:
    spec = case["spec"]
    n = len(spec["stages"])
    perm = [i for i in case["perm"] if i < n]
    perm += [i for i in range(n) if i not in perm]
    try:
        want = reference_schedule(spec)
    except RefError as e:
        want = None
        why = str(e)
    results = []
    for p, as_set in ((list(range(n)), False), (perm, True)):
        log: list[Any] = []
        r = build(spec, p, as_set, log)
        results.append(r)
        if want is None:
            require(r[0] == "error",
                    f"accepted a pipeline that cannot be resolved ({why}): {r[1]}")
            continue
        require(r[0] == "ok", f"refused a resolvable pipeline (expected {want}): {r[1][:400]}")
        order = r[1]
        flat = [i for el in order for i in el]
        eq(sorted(flat), list(range(n)), "stages in the schedule (each exactly once)")
        eq([frozenset(el) for el in order], want, "schedule")
        # run it: each stage executes exactly once, never before a stage it depends on
        runner, classes = r[2], r[3]
        inputs = init_type(spec["init"])(**{arg_name(a): [a] for a in spec["init"]})
        out = attempt(runner.run_all, inputs, what="run_all of a resolved pipeline")
        ran = [i for i, _ in log]
        eq(sorted(ran), list(range(n)), "stages executed by run_all")
        pos = {i: k for k, i in enumerate(ran)}
        level = {i: k for k, el in enumerate(want) for i in el}
        for i in range(n):
            for j in range(n):
                if level[i] < level[j]:
                    require(pos[i] < pos[j], f"stage {j} executed before stage {i}")
        names = {arg_name(a) for a in spec["init"]} | {
            arg_name(a) for s in spec["stages"] for a in s["out"]}
        eq(set(out), names, "names in the run_all result")
        # a builder resolves the same way again
        again = attempt(r[4].build, r[5], what="second build of the same builder")
        index = {c: i for i, c in enumerate(classes)}
        eq([frozenset(index[c] for c in el) for el in again._stage_order], want,
           "schedule of a second build")
    labels = ["resolved" if want is not None else "error:" + why]
    if want is not None and len(want) > 1:
        labels.append("multi-level")
    if want is not None and any(set(s["in"]) & set(s["out"]) for s in spec["stages"]):
        labels.append("mutating")
    if want is not None and any(s["before"] or s["after"] for s in spec["stages"]):
        labels.append("restricted")
    if any(not s["out"] for s in spec["stages"]):
        labels.append("no-output-stage")
    return n >= 2 and (want is None or len(want) >= 2), labels


def check_rejects(case: dict[str, Any]) -> tuple[bool, list[str]]:
    """Duplicate stages and restriction markers among the outputs are refused on add."""
    from typing import NamedTuple

    from instancespace.stage_builder import StageBuilder
    from instancespace.stages.stage import RunAfter, RunBefore, Stage

    spec = case["spec"]
    n = len(spec["stages"])
    classes = make_classes(spec)
    b = StageBuilder()
    for c in classes[:n]:
        b.add_stage(c)
    dup = case["dup"] % n
    try:
        b.add_stage(classes[dup])
    except ValueError:
        pass
    else:
        raise Violation("adding a stage twice was accepted")
    marker = RunBefore if case["before"] else RunAfter
    ty = marker[classes[dup]] if case["param"] else marker
    fields = [("x", int), ("marker", ty)] if case["first"] else [("marker", ty), ("x", int)]
    out = NamedTuple("BadOut", fields)
    inp = NamedTuple("BadIn", [("y", int)])
    bad = type("Bad", (Stage,), {"_inputs": staticmethod(lambda: inp),
                                 "_outputs": staticmethod(lambda: out),
                                 "_run": staticmethod(lambda i: out(0, 0))})
    try:
        b.add_stage(bad)
    except TypeError:
        pass
    else:
        raise Violation(f"a stage with output of type {ty} was accepted")
    # refused additions leave the builder as it was
    try:
        want: Any = reference_schedule(spec)
    except RefError:
        return n >= 2, ["unresolvable"]
    runner = attempt(b.build, init_type(spec["init"]), what="build after refused additions")
    index = {c: i for i, c in enumerate(classes)}
    eq([frozenset(index[c] for c in el) for el in runner._stage_order], want,
       "schedule after refused additions")
    return n >= 2, ["resolved"]


def cases(specs: Any) -> Any:
    return st.fixed_dictionaries({"spec": specs, "perm": st.permutations(list(range(7)))})


SUBS = [
    Sub("layered", lambda: cases(layered_specs()), check, quick=4000, thorough=60000),
    Sub("random", lambda: cases(random_specs()), check, quick=4000, thorough=60000),
    Sub("rejects", lambda: st.fixed_dictionaries({
        "spec": layered_specs(max_stages=4), "dup": st.integers(0, 3), "before": st.booleans(),
        "param": st.booleans(), "first": st.booleans()}), check_rejects, quick=400,
        thorough=4000),
]
