"""C23: custom stages in an instance space."""
from __future__ import annotations

import copy
from typing import Any, NamedTuple

import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, Violation, attempt, eq, require
from pbt.deep import diff
from pbt.gen import quiet
from pbt.props import c21
from pbt.stagegen import RefError, reference_schedule

RULE = ("InstanceSpace over generated metadata with the real stages (some left out), in any "
        "order, and 1-3 generated custom stages: observers of any arguments, stages that change "
        "one or produce one without reading it, stages placed before or after others, a replacement of PILOT; compared with the "
        "stages called by hand in the order an independent resolver gives; non-trivial = a "
        "pipeline with a custom stage ran or was refused as it must")
ASSUMPTIONS = ["custom stages are pure functions of their inputs"]

CORE = ["PreprocessingStage", "PrelimStage", "SiftedStage", "PilotStage", "CloisterStage"]
SLOW = ["PythiaStage", "TraceStage"]
LIKELY = ["x", "y", "z", "a", "x_raw", "y_raw", "y_bin", "p", "beta", "s", "inst_labels",
          "feat_labels", "num_good_algos", "z_edge", "rho", "pilot_summary", "features",
          "feature_names", "instance_labels", "trace_options", "prelim_options", "c", "error"]
CHANGEABLE = ["x", "y", "z", "y_bin", "beta", "features", "algorithms"]

# arguments a stage can produce without reading them, and what from
GIVEN_FROM = {"y": "y_raw", "beta": "num_good_algos"}


def real_stages() -> dict[str, Any]:
    from instancespace.stages.cloister import CloisterStage
    from instancespace.stages.pilot import PilotStage
    from instancespace.stages.prelim import PrelimStage
    from instancespace.stages.preprocessing import PreprocessingStage
    from instancespace.stages.pythia import PythiaStage
    from instancespace.stages.sifted import SiftedStage
    from instancespace.stages.trace import TraceStage
    return {c.__name__: c for c in (PreprocessingStage, PrelimStage, SiftedStage, PilotStage,
                                    CloisterStage, PythiaStage, TraceStage)}


def arg_types(real: dict[str, Any]) -> dict[str, Any]:
    from instancespace.instance_space import _InstanceSpaceInputs

    t = dict(_InstanceSpaceInputs.__annotations__)
    for c in real.values():
        t.update(c._outputs().__annotations__)
    return t


def make_plugin(k: int, spec: dict[str, Any], types: dict[str, Any], real: dict[str, Any],
                log: list[Any]) -> Any:
    from instancespace.stages.stage import RunAfter, RunBefore, Stage

    fields = [(a, types[a]) for a in spec["in"]]
    fields += [(f"b{i}", RunBefore[real[s]]) for i, s in enumerate(spec["before"])]
    fields += [(f"r{i}", RunAfter[real[s]]) for i, s in enumerate(spec["after"])]
    inp = NamedTuple(f"PlugIn{k}", fields)
    outs = [(f"seen_{k}", list)]
    if spec["change"]:
        outs.append((spec["change"], types[spec["change"]]))
    if spec.get("give"):
        outs.append((spec["give"], types[spec["give"]]))
    out = NamedTuple(f"PlugOut{k}", outs)

    def _run(inputs: Any) -> Any:
        seen = [copy.deepcopy(getattr(inputs, a)) for a in spec["in"]]
        log.append(k)
        vals: dict[str, Any] = {f"seen_{k}": seen}
        if spec["change"]:
            v = np.array(getattr(inputs, spec["change"]), copy=True)
            vals[spec["change"]] = ~v if v.dtype == bool else v * 1.5 + 0.25
            # a stage may do what it likes with its own copy
            getattr(inputs, spec["change"])[...] = 0
        if spec.get("give"):
            v = np.array(getattr(inputs, GIVEN_FROM[spec["give"]]), copy=True)
            vals[spec["give"]] = v > v.mean() if spec["give"] == "beta" else np.nan_to_num(v) + k
        return out(**vals)

    return type(f"Plugin{k}", (Stage,), {
        "_inputs": staticmethod(lambda: inp), "_outputs": staticmethod(lambda: out),
        "_run": staticmethod(_run)})


@st.composite
def plugin_st(draw: Any) -> dict[str, Any]:
    ins = draw(st.lists(st.sampled_from(LIKELY), min_size=1, max_size=4, unique=True))
    change = draw(st.one_of(st.none(), st.sampled_from(CHANGEABLE)))
    if change and change not in ins:
        ins.append(change)
    some = st.lists(st.sampled_from(CORE), max_size=1)
    before = draw(some)
    after = draw(some)
    if change and not before and draw(st.integers(0, 3)):
        # next to another stage that changes it, a place has to be given
        before = {"x": ["PrelimStage"], "y": ["PrelimStage"], "z": ["CloisterStage"],
                  "y_bin": ["SiftedStage"], "beta": ["SiftedStage"],
                  "features": ["PreprocessingStage"],
                  "algorithms": ["PreprocessingStage"]}[change]
        after = []
    give = None
    if draw(st.integers(0, 3)) == 0:
        give = draw(st.sampled_from(sorted(GIVEN_FROM)))
        if give == change:
            give = None
        else:
            ins = [a for a in ins if a != give]
            ins += [GIVEN_FROM[give]] if GIVEN_FROM[give] not in ins else []
            if draw(st.booleans()):
                before, after = {"y": ["PrelimStage"], "beta": ["SiftedStage"]}[give], []
    return {"in": ins, "change": change, "before": before, "after": after, "give": give}


@st.composite
def case_st(draw: Any) -> dict[str, Any]:
    c = draw(c21.case_st())
    c.update(plugins=draw(st.lists(plugin_st(), min_size=1, max_size=3)),
             perm=draw(st.permutations(range(10))),
             without=draw(st.lists(st.sampled_from(CORE), max_size=1)) if draw(
                 st.integers(0, 4)) == 0 else [],
             full=draw(st.integers(0, 7)) == 0, replace=draw(st.integers(0, 3)) == 0,
             mode=draw(st.sampled_from(["iter", "until", "step"])))
    if c["full"] and not c["without"] and draw(st.booleans()):
        c["mode"] = "build"
    c["sift"] = False
    c["analytic"] = True
    if draw(st.integers(0, 5)) == 0:
        # one stage changes what another produces, at the same place or not
        arg = draw(st.sampled_from(sorted(GIVEN_FROM)))
        place = {"y": "PrelimStage", "beta": "SiftedStage"}[arg]
        c["plugins"] = [
            {"in": [arg], "change": arg, "before": [place], "after": [], "give": None},
            {"in": [GIVEN_FROM[arg]], "change": None, "give": arg,
             "before": [place] if draw(st.booleans()) else [],
             "after": [place] if draw(st.integers(0, 3)) == 0 else []},
            *c["plugins"][2:]]
        c["without"] = []
    return c


def simpler(case: dict[str, Any]) -> dict[str, Any] | None:
    """What is refused, with one thing less."""
    ps = case["plugins"]
    if case["without"]:
        return {**case, "without": []}
    for k, p in enumerate(ps):
        for f, v in (("give", None), ("after", []), ("before", [])):
            if p[f] and not (f == "before" and p["change"]):
                return {**case, "plugins": [*ps[:k], {**p, f: v}, *ps[k + 1:]]}
    return {**case, "plugins": ps[:-1]} if len(ps) > 1 else None


def check(case: dict[str, Any]) -> tuple[bool, list[str]]:
    from instancespace.instance_space import InstanceSpace, _InstanceSpaceInputs
    from instancespace.stage_builder import StageResolutionError
    from instancespace.stages.pilot import PilotStage

    if c21.degenerate(case):
        return False, ["degenerate"]
    meta, opts = c21.make(case), c21.options(case)
    real = real_stages()
    types = arg_types(real)
    log: list[Any] = []
    names = [s for s in CORE if s not in case["without"]] + (SLOW if case["full"] else [])
    stages: list[Any] = [real[s] for s in names]
    if case["replace"] and "PilotStage" in names:
        class OtherPilot(PilotStage):
            """The space, mirrored."""

            @staticmethod
            def _run(inputs: Any) -> Any:
                got = PilotStage._run(inputs)
                return got._replace(z=-got.z, a=-got.a)

        stages[names.index("PilotStage")] = OtherPilot
        real = {**real, "PilotStage": OtherPilot}
    plugins = [make_plugin(k, p, types, real, log) for k, p in enumerate(case["plugins"])]
    stages = stages + plugins
    n = len(stages)
    # the order stages are listed in does not matter
    listed = [stages[i] for i in case["perm"] if i < n]
    listed += [s for s in stages if s not in listed]
    spec: dict[str, Any] = {"init": list(_InstanceSpaceInputs._fields), "stages": []}
    for i, c in enumerate(stages):
        if c in plugins:
            p = case["plugins"][plugins.index(c)]
            ins = list(p["in"])
            before = [stages.index(real[s]) if real[s] in stages else n for s in p["before"]]
            after = [stages.index(real[s]) if real[s] in stages else n for s in p["after"]]
        else:
            ins, before, after = list(c._inputs()._fields), [], []
        spec["stages"].append({"in": ins, "out": list(c._outputs()._fields),
                               "before": before, "after": after})
    try:
        order = reference_schedule(spec)
    except RefError as e:
        try:
            InstanceSpace(meta, opts, stages=listed)
        except StageResolutionError:
            less = simpler(case)
            return True, ["refused"] + (check(less)[1] if less else [])
        except Exception as e2:  # noqa: BLE001
            raise Violation(f"refused with {type(e2).__name__}: {e2}") from e2
        raise Violation(f"accepted stages that cannot be resolved ({e})")
    given = list(listed)
    space = attempt(InstanceSpace, meta, opts, stages=listed, what="InstanceSpace")
    eq(listed, given, "the caller's list of stages")
    # by hand, in the order of the reference
    env: dict[str, Any] = {f: v for f, v in _InstanceSpaceInputs.from_metadata_and_options(
        meta, opts)._asdict().items()}
    outputs: dict[int, Any] = {}
    try:
        for el in order:
            new: dict[str, Any] = {}
            for i in sorted(el):
                t = stages[i]._inputs()
                args = {f: copy.deepcopy(env[f]) for f in spec["stages"][i]["in"]}
                got = quiet(stages[i]._run, t(**{f: args.get(f) for f in t._fields}))
                outputs[i] = got
                new.update(got._asdict())
            env.update(new)
    except Violation:
        raise
    except Exception:  # noqa: BLE001
        # what a custom stage did to the data is more than a later stage can bear
        return False, ["unusable data"]
    log.clear()
    meta0 = copy.deepcopy(meta)
    got_out: dict[int, Any] = {}
    labels = [case["mode"]]
    if case["mode"] == "iter":
        gen = space.run_iter()
        while True:
            try:
                item = quiet(next, gen)
            except StopIteration:
                break
            except Violation:
                raise
            except Exception as e:  # noqa: BLE001
                raise Violation(f"run_iter raised {type(e).__name__}: {e}") from e
            i = stages.index(item.stage)
            require(i not in got_out, f"{item.stage.__name__} yielded twice")
            got_out[i] = item.output
    elif case["mode"] == "build":
        c21.compare_parts(attempt(quiet, space.build, what="build"), env, "model")
    elif case["mode"] == "until":
        last = stages[max(order[-1])]
        got = attempt(quiet, space.run_until_stage, last, what="run_until_stage")
        must = {i for el in order[:-1] for i in el} | {stages.index(last)}
        for i in must:
            missing = set(outputs[i]._fields) - set(got)
            require(not missing, f"outputs {missing} of {stages[i].__name__} are missing")
        for i in order[-1] - must:
            for f in outputs[i]._fields:
                got.pop(f, None)
        for k, v in got.items():
            d = diff(v, env[k], k, 1e-9)
            require(d is None, f"run_until_stage({last.__name__}): {d}")
        log += [k for k, c in enumerate(plugins) if stages.index(c) not in must
                and k not in log]
        got_out = {}
    else:
        inputs = _InstanceSpaceInputs.from_metadata_and_options(meta, opts)._asdict()
        first = True
        for el in order:
            for i in sorted(el):
                got_out[i] = attempt(quiet, space.run_stage, stages[i],
                                     **{k: v for k, v in inputs.items()
                                        if k in spec["stages"][i]["in"]
                                        and not _produced(k, i, spec, order)},
                                     what=f"run_stage({stages[i].__name__})")
                first = False
        del first
    if case["mode"] not in ("until", "build"):
        eq(sorted(got_out), sorted(outputs), "stages that ran")
        for i, o in got_out.items():
            for f in outputs[i]._fields:
                d = diff(getattr(o, f), getattr(outputs[i], f), f, 1e-9)
                require(d is None, f"output of {stages[i].__name__}: {d}")
    eq(sorted(log), list(range(len(plugins))), "custom stages that ran")
    d = diff(meta, meta0, "metadata")
    require(d is None, f"custom stages changed the caller's data: {d}")
    if case["replace"]:
        labels.append("replaced")
    if any(p.get("give") for p in case["plugins"]):
        labels.append("gives")
    if any(p["change"] for p in case["plugins"]):
        labels.append("changes")
    if case["full"]:
        labels.append("full")
        if case["mode"] == "iter" and not case["without"]:
            c21.compare_parts(attempt(lambda: space.model, what="model"), env, "model")
    return True, labels


def _produced(name: str, i: int, spec: dict[str, Any], order: list[Any]) -> bool:
    """Some stage scheduled before stage i gives this argument."""
    for el in order:
        if i in el:
            return False
        if any(name in spec["stages"][j]["out"] for j in el):
            return True
    return False


def check_extra(case: dict[str, Any]) -> tuple[bool, list[str]]:
    """Additional initial inputs make a stage resolvable; the call supplies the value."""
    from instancespace.instance_space import InstanceSpace
    from instancespace.stage_builder import StageResolutionError
    from instancespace.stages.stage import Stage

    meta, opts = c21.make(case), c21.options(case)
    real = real_stages()
    inp = NamedTuple("ExtraIn", [("weight", float), ("features", np.ndarray)])
    inp.__annotations__["features"] = arg_types(real)["features"]
    out = NamedTuple("ExtraOut", [("weighted", list)])

    class Extra(Stage):  # type: ignore[type-arg]
        @staticmethod
        def _inputs() -> Any:
            return inp

        @staticmethod
        def _outputs() -> Any:
            return out

        @staticmethod
        def _run(inputs: Any) -> Any:
            return out([inputs.weight, float(np.nansum(inputs.features))])

    stages = [real["PreprocessingStage"], Extra]
    try:
        InstanceSpace(meta, opts, stages=stages)
    except StageResolutionError:
        pass
    else:
        raise Violation("a stage whose input nobody gives was accepted")
    more = NamedTuple("More", [("weight", float)])
    space = attempt(InstanceSpace, meta, opts, stages=stages, additional_initial_inputs_type=more,
                    what="InstanceSpace with additional inputs")
    w = float(case["seed"] % 1000)
    got = attempt(quiet, space.run_stage, Extra, weight=w, features=meta.features,
                  what="run_stage with the additional input")
    eq(got.weighted, [w, float(np.nansum(meta.features))], "output")
    return True, ["extra"]


SUBS = [
    Sub("custom", case_st, check, quick=560, thorough=8000),
    Sub("extra", c21.case_st, check_extra, quick=24, thorough=200, shards=2),
]
