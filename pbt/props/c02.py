"""C02: running stages: histories of run_all / run_iter / run_until_stage / run_stage."""
from __future__ import annotations

import json
from typing import Any

from hypothesis import strategies as st

from pbt.core import Sub, Violation, attempt, eq, require
from pbt.stagegen import (Boom, RefError, arg_name, init_type, layered_specs, make_classes,
                          nest, reference_schedule, stage_values)

RULE = ("generated resolvable pipelines (mutating stages, RunBefore/RunAfter, several stages per "
        "schedule element) driven by generated histories of run_all, partially consumed "
        "run_iter, run_until_stage and run_stage (with overrides, out of order, again), every "
        "stage scribbling over the inputs it got, some of them failing; a model that knows only 'initial arguments + "
        "latest outputs of stages not invalidated' predicts every result; non-trivial = a "
        "history of at least 2 operations on a pipeline of at least 2 schedule elements, one of "
        "which runs a stage again or is refused")
ASSUMPTIONS = ["the order of stages inside one schedule element is read from the execution log"]


class Model:
    """initial arguments plus, per stage, its latest outputs; nothing else."""

    def __init__(self, spec: dict[str, Any], order: list[frozenset[int]]) -> None:
        self.spec, self.order = spec, order
        self.level = {i: k for k, el in enumerate(order) for i in el}
        self.init: dict[str, Any] = {}
        self.outs: dict[int, dict[str, Any]] = {}

    def start(self, init: dict[str, Any]) -> None:
        self.init, self.outs = dict(init), {}

    def args_before(self, level: int) -> dict[str, Any]:
        env = dict(self.init)
        for k in range(level):
            for i in self.order[k]:
                env.update(self.outs.get(i, {}))
        return env

    def can_run(self, i: int) -> bool:
        return all(j in self.outs for k in range(self.level[i]) for j in self.order[k])

    def inputs(self, i: int, overrides: dict[str, Any]) -> dict[str, str]:
        env = self.args_before(self.level[i])
        env.update(overrides)
        return {a: str(env[arg_name(a)]) for a in self.spec["stages"][i]["in"]}

    def run(self, i: int, overrides: dict[str, Any]) -> tuple[dict[str, str], dict[str, Any]]:
        for j in list(self.outs):
            if self.level[j] > self.level[i]:
                del self.outs[j]
        s = self.spec["stages"][i]
        frozen = self.inputs(i, overrides)
        out = {arg_name(a): nest(v) for a, v in stage_values(i, s["out"], frozen).items()}
        self.outs[i] = out
        return frozen, out

    def final(self) -> dict[str, Any]:
        return self.args_before(len(self.order))


def init_values(spec: dict[str, Any], v: int) -> dict[str, Any]:
    return {arg_name(a): nest(f"{a}:{v}") for a in spec["init"]}


def check(case: dict[str, Any]) -> tuple[bool, list[str]]:
    from instancespace.stage_builder import StageBuilder
    from instancespace.stage_runner import StageRunningError

    spec = case["spec"]
    try:
        order = reference_schedule(spec)
    except RefError:
        return False, ["unresolvable"]
    n = len(spec["stages"])
    log: list[Any] = []
    failing: set[int] = set()
    classes = make_classes(spec, log, mutate_inputs=True, failing=failing)
    index = {c: i for i, c in enumerate(classes)}
    b = StageBuilder()
    for c in classes[:n]:
        b.add_stage(c)
    Init = init_type(spec["init"])
    runner = attempt(b.build, Init, what="build")
    m = Model(spec, order)
    labels: set[str] = set()
    started = False
    held: list[tuple[Any, Any, str]] = []

    def sync(what: str = "") -> None:
        """The log holds the executions of one bulk run: check it against the model."""
        last = -1
        if log and log[-1][0] in failing:
            i, frozen = log.pop()
            sync(what)
            require(i not in m.outs and m.can_run(i),
                    f"{what}: stage {i} executed twice or before its prerequisites")
            eq(frozen, m.inputs(i, {}), f"{what}: inputs of stage {i}, which fails")
            return
        for i, frozen in log:
            require(m.level[i] >= last, f"{what}: stage {i} executed after a later schedule")
            last = m.level[i]
            require(i not in m.outs, f"{what}: stage {i} executed twice")
            require(m.can_run(i), f"{what}: stage {i} executed before its prerequisites")
            want, _ = m.run(i, {})
            eq(frozen, want, f"{what}: inputs of stage {i}")
        log.clear()

    def bulk(f: Any, *a: Any) -> Any:
        """The result of a call that may only fail because a stage does."""
        try:
            return f(*a)
        except Boom as e:
            require(bool(log) and str(e) == f"stage {log[-1][0]}", f"{what}: another failure")
            labels.add("failing")
            return Boom
        except Exception as e:  # noqa: BLE001
            raise Violation(f"{what} raised {type(e).__name__}: {e}") from e

    for step, op in enumerate(case["ops"]):
        kind, v = op["op"], op["v"]
        i = op["stage"] % n
        what = f"op {step} {kind}"
        log.clear()
        failing.clear()
        if op["fail"]:
            failing.add(i if kind == "stage" else op["k"] % n)
        if kind in ("all", "iter", "until"):
            started = True
            vals = init_values(spec, v)
            given = Init(**json.loads(json.dumps(vals)))
            m.start(vals)
        if kind == "all":
            got = bulk(runner.run_all, given)
            sync(what=what)
            if got is Boom:
                continue
            eq(set(m.outs), set(range(n)), f"{what}: stages executed")
            eq(got, m.final(), f"{what}: returned arguments")
            held.append((got, m.final(), what))
        elif kind == "iter":
            k = 1 + op["k"] % n if op["partial"] else n
            gen = runner.run_iter(given)
            yielded = []
            for _ in range(k):
                item = bulk(next, gen)
                if item is Boom:
                    k = -1
                    break
                yielded.append(item)
                eq(len(log), len(yielded), f"{what}: stages executed per yielded output")
            ran = list(log)
            sync(what=what)
            if k == -1:
                continue
            for item, (j, _) in zip(yielded, ran):
                eq(index[item.stage], j, f"{what}: stage annotated on the yielded output")
                eq(item.output._asdict(), m.outs[j], f"{what}: yielded output of stage {j}")
            if k == n:
                try:
                    next(gen)
                    raise Violation(f"{what}: yielded more outputs than stages")
                except StopIteration as e:
                    eq(e.value, m.final(), f"{what}: returned arguments")
                    held.append((e.value, m.final(), what))
            else:
                labels.add("iter-abandoned")
                gen.close()
        elif kind == "until":
            got = bulk(runner.run_until_stage, classes[i], given)
            sync(what=what)
            if got is Boom:
                continue
            lv = m.level[i]
            require(i in m.outs, f"{what}: the specified stage {i} was not executed")
            for j in range(n):
                if m.level[j] < lv:
                    require(j in m.outs, f"{what}: stage {j} before {i} was not executed")
                if m.level[j] > lv:
                    require(j not in m.outs, f"{what}: stage {j} after {i} was executed")
            eq(got, m.final(), f"{what}: returned arguments")
            held.append((got, m.final(), what))
            labels.add("until")
        elif kind == "stage":
            if not started:
                # nothing ran: everything has to come from the call itself
                s = spec["stages"][i]
                if m.level[i] > 0:
                    refuse(runner, classes[i], {}, StageRunningError, what)
                    labels.add("refused")
                elif s["in"]:
                    try:
                        runner.run_stage(classes[i])
                        raise Violation(f"{what}: ran without its inputs")
                    except Violation:
                        raise
                    except Exception:  # noqa: BLE001
                        labels.add("missing-inputs")
                continue
            ov = {arg_name(a): nest(f"ov{v}:{a}") for a in spec["stages"][i]["in"]
                  if a[:-1] in op["over"]}
            extra = {"arg_unknown_z": ["zzz"]} if op["partial"] else {}
            if not m.can_run(i):
                refuse(runner, classes[i], ov, StageRunningError, what)
                eq(log, [], f"{what}: executions of a refused stage")
                labels.add("refused")
                continue
            if i in m.outs:
                labels.add("again" if set(spec["stages"][i]["in"]) & set(
                    spec["stages"][i]["out"]) == set() else "again-mutating")
            given_ov = json.loads(json.dumps(ov))
            if failing and i not in m.outs:
                got = bulk(lambda: runner.run_stage(classes[i], **given_ov, **extra))
                require(got is Boom, f"{what}: the failure of the stage disappeared")
                eq([j for j, _ in log], [i], f"{what}: executions")
                eq(log[0][1], m.inputs(i, ov), f"{what}: inputs of stage {i}, which fails")
                continue
            failing.clear()
            got = attempt(runner.run_stage, classes[i], **given_ov, **extra, what=what)
            want_in, want_out = m.run(i, ov)
            eq([j for j, _ in log], [i], f"{what}: executions")
            eq(log[0][1], want_in, f"{what}: inputs of stage {i}")
            eq(got._asdict(), want_out, f"{what}: output of stage {i}")
            eq(given_ov, ov, f"{what}: caller's overriding arguments")
            held.append((got._asdict(), want_out, what))
            if ov:
                labels.add("override")
        if kind in ("all", "iter", "until"):
            eq(given._asdict(), vals, f"{what}: caller's initial arguments")
    for got, want, what in held:
        eq(got, want, f"{what}: arguments returned earlier, after later operations")
    again = labels & {"again", "again-mutating", "refused", "iter-abandoned", "until"}
    return (len(order) >= 2 and len(case["ops"]) >= 2 and bool(again)), sorted(labels)


def refuse(runner: Any, cls: Any, ov: dict[str, Any], err: type, what: str) -> None:
    try:
        runner.run_stage(cls, **ov)
    except err:
        return
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what}: raised {type(e).__name__} instead of StageRunningError") from e
    raise Violation(f"{what}: ran although prerequisite stages have not been ran")


def op() -> Any:
    return st.fixed_dictionaries({
        "op": st.sampled_from(["all", "iter", "until", "stage", "stage", "stage", "stage",
                               "stage"]),
        "v": st.integers(0, 3), "stage": st.integers(0, 6), "k": st.integers(0, 7),
        "partial": st.booleans(), "fail": st.sampled_from([False] * 5 + [True]),
        "over": st.lists(st.sampled_from(["a", "b", "c", "n0", "n1", "n2", "n3"]),
                         max_size=3, unique=True),
    })


def mutator_specs() -> Any:
    return layered_specs(fresh_only=True)


def cases() -> Any:
    return st.fixed_dictionaries({"spec": mutator_specs(),
                                  "ops": st.lists(op(), min_size=1, max_size=10)})


@st.composite
def rerun_cases(draw: Any) -> Any:
    """A complete run first, then stages again and again."""
    spec = draw(mutator_specs())
    ops = [draw(op()) for _ in range(draw(st.integers(1, 8)))]
    first = draw(op())
    first["op"] = draw(st.sampled_from(["all", "iter", "until"]))
    for o in ops:
        if o["op"] == "all" and draw(st.booleans()):
            o["op"] = "stage"
    return {"spec": spec, "ops": [first, *ops]}


SUBS = [
    Sub("histories", cases, check, quick=2500, thorough=40000),
    Sub("reruns", rerun_cases, check, quick=4000, thorough=60000),
]
