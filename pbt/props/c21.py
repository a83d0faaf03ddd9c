"""C21: a complete build, end to end."""
from __future__ import annotations

import copy
import dataclasses
import random
from typing import Any

import numpy as np
from hypothesis import strategies as st

from pbt.core import Known, Sub, Violation, attempt, eq, require
from pbt.deep import diff
from pbt.gen import quiet

RULE = ("generated metadata (30-60 instances, 3-7 features, 2-3 algorithms, with empty instances, "
        "sources, unselected columns, subsets) and options for every section, built completely "
        "with InstanceSpace; non-trivial = the build finished and its model was compared with an "
        "independent composition, an iterated run or a related build")
ASSUMPTIONS = ["every algorithm is good on at least 4 and not good on at least 4 instances",
               "no missing cells besides empty instances and features",
               "stage outputs on equal inputs are bitwise equal within one process"]


# ---------------------------------------------------------------- inputs

def make(case: dict[str, Any]) -> Any:
    import pandas as pd

    from instancespace.data.metadata import Metadata

    rng = np.random.default_rng(case["seed"])
    n, nf, na = case["n"], case["nf"], case["na"]
    x = rng.normal(size=(n, nf))
    for j in range(nf):
        if case["shape"][j % len(case["shape"])] == "e":
            x[:, j] = np.exp(x[:, j])
        elif case["shape"][j % len(case["shape"])] == "u":
            x[:, j] = rng.uniform(3, 9, n) + 0.3 * x[:, j]
    lin = np.column_stack([(x - x.mean(0)) @ rng.choice([-1, 0.5, 1], size=nf)
                           + 0.3 * rng.normal(size=n) for _ in range(na)])
    y = np.maximum(0.2, 3 + lin / lin.std(0))
    y /= np.quantile(y, case["q"], axis=0)
    for k in case["empty"]:
        (x if k % 2 else y)[k % n] = np.nan
    labels = [f"i{k:03d}" for k in range(n)]
    return Metadata(
        [f"f{j}" for j in range(nf)], [f"a{j}" for j in range(na)],
        pd.Series(labels, name="instances"),
        pd.Series([f"s{k % 3}" for k in range(n)], name="source") if case["source"] else None,
        x, y)


def options(case: dict[str, Any]) -> Any:
    from instancespace.data.options import (AutoOptions, BoundOptions, InstanceSpaceOptions,
                                            NormOptions, PerformanceOptions, PilotOptions,
                                            PythiaOptions, SelvarsOptions, SiftedOptions,
                                            TraceOptions)
    nf, na = case["nf"], case["na"]
    sel: dict[str, Any] = {}
    if case["fraction"]:
        sel = {"small_scale_flag": True, "small_scale": case["fraction"]}
    if case["drop_feature"] is not None and nf > 3:
        sel["feats"] = [f"f{j}" for j in range(nf) if j != case["drop_feature"] % nf]
    if case["drop_algo"] is not None and na > 2:
        sel["algos"] = [f"a{j}" for j in range(na) if j != case["drop_algo"] % na]
    return dataclasses.replace(
        InstanceSpaceOptions.default(),
        perf=PerformanceOptions.default(max_perf=case["max"], abs_perf=True, epsilon=1.0,
                                        beta_threshold=case["beta"]),
        auto=AutoOptions.default(preproc=case["auto"]),
        bound=BoundOptions.default(flag=case["bound"]),
        norm=NormOptions.default(flag=case["norm"]),
        selvars=SelvarsOptions.default(**sel),
        sifted=SiftedOptions.default(flag=case["sift"], rho=0.05, k=3, num_generations=2,
                                     sol_per_pop=4, keep_elitism=1, replicates=5),
        pilot=PilotOptions.default(analytic=case["analytic"], n_tries=1),
        pythia=PythiaOptions.default(cv_folds=case["folds"], use_grid_search=True,
                                     use_weights=case["weights"], is_poly_krnl=False),
        trace=TraceOptions.default(use_sim=case["sim"], purity=case["purity"]))


@st.composite
def case_st(draw: Any) -> dict[str, Any]:
    return {
        "seed": draw(st.integers(0, 2**31)), "n": draw(st.integers(36, 60)),
        "nf": draw(st.integers(3, 7)), "na": draw(st.integers(2, 3)),
        "shape": draw(st.sampled_from(["n", "ne", "nue"])),
        "q": draw(st.sampled_from([0.4, 0.5, 0.6])),
        "empty": draw(st.one_of(st.just([]), st.lists(st.integers(0, 35), max_size=3))),
        "source": draw(st.booleans()), "max": draw(st.booleans()),
        "beta": draw(st.sampled_from([0.3, 0.55, 0.9])),
        "fraction": draw(st.sampled_from([0, 0, 0, 0.8, 0.9])),
        "drop_feature": draw(st.one_of(st.none(), st.none(), st.integers(0, 6))),
        "drop_algo": draw(st.one_of(st.none(), st.none(), st.integers(0, 2))),
        "auto": draw(st.sampled_from([True, True, False])),
        "bound": draw(st.booleans()), "norm": draw(st.sampled_from([True, True, False])),
        "sift": draw(st.booleans()), "analytic": draw(st.sampled_from([True, True, True, False])),
        "folds": draw(st.integers(2, 4)), "weights": draw(st.booleans()),
        "sim": draw(st.booleans()), "purity": draw(st.sampled_from([0.5, 0.55, 0.7])),
    }


def degenerate(case: dict[str, Any]) -> bool:
    """Too few good or bad instances to train and cross validate a model."""
    m = make(case)
    y = m.algorithms
    good = y >= 1 if case["max"] else y <= 1
    ok = ~np.isnan(y)
    k = 8 if case["fraction"] else 5
    return bool(((good & ok).sum(0) < k).any() or ((~good & ok).sum(0) < k).any())


def unbuildable(e: Violation) -> bool:
    """Documented refusals, not failures of the build."""
    s = str(e)
    return ("NotEnoughFeatureError" in s or "not enough features" in s.lower()
            or "TopologyException" in s or "GEOSException" in s)


def build(meta: Any, opts: Any, what: str, rng: int = 0) -> Any:
    from instancespace.instance_space import InstanceSpace

    np.random.seed(rng)
    random.seed(rng)
    space = InstanceSpace(meta, opts)
    return space, attempt(quiet, space.build, what=what)


# ---------------------------------------------------------------- composition

def compose(meta: Any, opts: Any) -> dict[str, Any]:
    """The stages called by hand, each with the arguments of its own names."""
    from instancespace.data.options import PrelimOptions
    from instancespace.stages.cloister import CloisterStage
    from instancespace.stages.pilot import PilotStage
    from instancespace.stages.prelim import PrelimStage
    from instancespace.stages.preprocessing import PreprocessingStage
    from instancespace.stages.pythia import PythiaStage
    from instancespace.stages.sifted import SiftedStage
    from instancespace.stages.trace import TraceStage

    env: dict[str, Any] = {
        "feature_names": meta.feature_names, "algorithm_names": meta.algorithm_names,
        "instance_labels": meta.instance_labels, "instance_sources": meta.instance_sources,
        "features": meta.features, "algorithms": meta.algorithms,
        "parallel_options": opts.parallel, "perf_options": opts.perf,
        "auto_options": opts.auto, "bound_options": opts.bound, "norm_options": opts.norm,
        "selvars_options": opts.selvars, "sifted_options": opts.sifted,
        "pilot_options": opts.pilot, "cloister_options": opts.cloister,
        "pythia_options": opts.pythia, "trace_options": opts.trace,
        "outputs_options": opts.outputs,
        "prelim_options": PrelimOptions(
            max_perf=opts.perf.max_perf, abs_perf=opts.perf.abs_perf,
            epsilon=opts.perf.epsilon, beta_threshold=opts.perf.beta_threshold,
            bound=opts.auto.preproc and opts.bound.flag,
            norm=opts.auto.preproc and opts.norm.flag)}
    for stage in (PreprocessingStage, PrelimStage, SiftedStage, PilotStage, PythiaStage,
                  CloisterStage, TraceStage):
        t = stage._inputs()
        got = attempt(quiet, stage._run, t(**{k: copy.deepcopy(env[k]) for k in t._fields}),
                      what=f"{stage.__name__} on its own")
        env.update(got._asdict())
    return env


DATA = ["inst_labels", "feat_labels", "algo_labels", "x", "y", "x_raw", "y_raw", "y_bin",
        "y_best", "p", "num_good_algos", "beta", "s"]
PARTS: dict[str, dict[str, str]] = {
    "data": {k: k for k in DATA},
    "data_dense": {k: k for k in DATA},
    "feat_sel": {"idx": "idx"},
    "prelim": {k: k for k in ["med_val", "iq_range", "hi_bound", "lo_bound", "min_x", "lambda_x",
                              "mu_x", "sigma_x", "min_y", "lambda_y", "sigma_y", "mu_y"]},
    "sifted": {k: k for k in ["selvars", "idx", "rho", "pval", "silhouette_scores", "clust"]},
    "pilot": {**{k: k for k in ["X0", "alpha", "eoptim", "perf", "a", "z", "c", "b", "error",
                                "r2"]}, "summary": "pilot_summary"},
    "cloister": {"z_edge": "z_edge", "z_ecorr": "z_ecorr"},
    "pythia": {**{k: k for k in ["mu", "sigma", "cp", "svm", "cvcmat", "y_sub", "y_hat",
                                 "pr0_sub", "pr0_hat", "box_consnt", "k_scale", "precision",
                                 "recall", "accuracy"]}, "summary": "pythia_summary"},
    "trace": {**{k: k for k in ["space", "good", "best", "hard"]}, "summary": "trace_summary"},
}


def compare_parts(model: Any, env: dict[str, Any], what: str) -> None:
    for part, names in PARTS.items():
        obj = getattr(model, part)
        for f, k in names.items():
            d = diff(getattr(obj, f), env[k], f"{part}.{f}")
            require(d is None, f"{what}: {d}")
    for f in ("selection0", "selection1"):
        got = np.asarray(getattr(model.pythia, f))
        require(np.array_equal(got, np.asarray(env[f]) + 1),
                f"{what}: pythia.{f} is not the selected algorithm counted from 1")


def same(a: Any, b: Any, what: str, parts: Any = None) -> None:
    for f in dataclasses.fields(a):
        if f.name == "opts" or (parts is not None and f.name not in parts):
            continue
        d = diff(getattr(a, f.name), getattr(b, f.name), f.name, 1e-9)
        require(d is None, f"{what}: {d}")


# ---------------------------------------------------------------- checks

def count(polygon: Any, z: Any, mask: Any) -> tuple[int, int]:
    """Fewest and most of the marked instances in an outline (its edge is a rounding matter)."""
    from shapely.geometry import Point
    inside = np.array([polygon.intersects(Point(q)) for q in z])
    near = np.array([polygon.boundary.distance(Point(q)) < 1e-7 for q in z])
    return int((inside & ~near & mask).sum()), int(((inside | near) & mask).sum())


def rows(model: Any, meta: Any, case: dict[str, Any]) -> None:
    """Every row of every table belongs to the instance it is labelled with."""
    d = model.data
    labels = list(d.inst_labels)
    all_labels = list(meta.instance_labels)
    require(len(set(labels)) == len(labels), "an instance is listed twice")
    where = [all_labels.index(lb) for lb in labels]
    n, na = len(labels), len(d.algo_labels)
    fx = [meta.feature_names.index(f) for f in d.feat_labels]
    ya = [meta.algorithm_names.index(a) for a in d.algo_labels]
    want_algos = [a for j, a in enumerate(meta.algorithm_names)
                  if not (case["drop_algo"] is not None and case["na"] > 2
                          and j == case["drop_algo"] % case["na"])]
    eq(list(d.algo_labels), want_algos, "algorithms of the model")
    dropped = {k % case["n"] for k in case["empty"]}
    if not case["fraction"]:
        eq(labels, [lb for k, lb in enumerate(all_labels) if k not in dropped],
           "instances of the model")
    y_raw = meta.algorithms[np.ix_(where, ya)]
    require(np.array_equal(d.y_raw, y_raw), "raw performance is not that of the instances")
    for name, shape in (("x", (n, len(fx))), ("y", (n, na)), ("y_bin", (n, na))):
        eq(np.shape(getattr(d, name)), shape, f"shape of data.{name}")
    eq(d.x_raw.shape[0], n, "rows of data.x_raw")
    # raw features: each reported feature column is one of the raw ones, in order
    raw = meta.features[np.ix_(where, range(len(meta.feature_names)))]
    cols = [c for c in range(len(meta.feature_names))
            if any(np.array_equal(raw[:, c], d.x_raw[:, k]) for k in range(d.x_raw.shape[1]))]
    eq(len(cols), d.x_raw.shape[1], "raw feature columns that are those of the instances")
    if not case["auto"] or not (case["bound"] or case["norm"]):
        require(np.array_equal(d.x, raw[:, fx]), "features are not those of the instances")
    # each column of x is a non-decreasing function of the feature it is labelled with
    for k, c in enumerate(fx):
        o = np.argsort(raw[:, c], kind="stable")
        v = d.x[o, k]
        require(bool((np.diff(v) >= -1e-9 * (1 + np.abs(v).max())).all()),
                f"column {k} of x is not the feature {d.feat_labels[k]}")
    good = y_raw >= 1 if case["max"] else y_raw <= 1
    require(np.array_equal(np.asarray(d.y_bin, dtype=bool), good), "good algorithms")
    require(np.array_equal(np.asarray(d.num_good_algos).ravel(), good.sum(1)),
            "number of good algorithms")
    require(np.array_equal(np.asarray(d.beta).ravel().astype(bool),
                           good.sum(1) > case["beta"] * na), "easy instances")
    best = y_raw.max(1) if case["max"] else y_raw.min(1)
    p = np.asarray(d.p).ravel().astype(int)
    require(((p >= 1) & (p <= na)).all(), "best algorithm is not counted from 1")
    require(np.array_equal(y_raw[np.arange(n), p - 1], best), "best algorithm")
    if case["source"]:
        eq(list(d.s), [f"s{w % 3}" for w in where], "sources")
    else:
        require(d.s is None, "sources although there are none")
    # projection
    eq(np.shape(model.pilot.a), (2, len(fx)), "shape of the projection")
    require(np.allclose(model.pilot.z, d.x @ model.pilot.a.T, rtol=1e-9, atol=1e-9),
            "coordinates are not the projected features")
    # recommendations, counted from 1; 0 is none
    y_hat = np.asarray(model.pythia.y_hat, dtype=bool)
    eq(y_hat.shape, (n, na), "shape of the predictions")
    s0 = np.asarray(model.pythia.selection0).ravel().astype(int)
    s1 = np.asarray(model.pythia.selection1).ravel().astype(int)
    for i in range(n):
        if y_hat[i].any():
            require(1 <= s0[i] <= na and y_hat[i, s0[i] - 1],
                    f"instance {labels[i]} is recommended an algorithm not predicted good")
            eq(s1[i], s0[i], f"selections of instance {labels[i]}")
        else:
            eq(s0[i], 0, f"selection of instance {labels[i]} without a good algorithm")
            require(1 <= s1[i] <= na, f"fall back of instance {labels[i]}")
    # tables
    eq(len(model.trace.good), na, "good footprints")
    eq(len(model.trace.best), na, "best footprints")
    tr = model.trace.summary
    names = list(tr.index) if list(tr.index)[:na] == want_algos else list(tr.iloc[:, 0])
    eq([str(v) for v in names][:na], want_algos, "rows of the footprint table")
    lo, hi = count(model.trace.space.polygon, model.pilot.z, np.ones(n, dtype=bool))
    require(lo <= int(model.trace.space.elements) <= hi,
            f"instances in the space: {model.trace.space.elements}, counted {lo}..{hi}")
    ps = model.pythia.summary
    pn = list(ps.index) if list(ps.index)[:na] == want_algos else list(ps.iloc[:, 0])
    eq([str(v) for v in pn][:na], want_algos, "rows of the model table")
    # footprints count the instances of the labels TRACE was asked to use
    yb = y_hat if case["sim"] else good
    for k in range(na):
        f = model.trace.good[k]
        if f.polygon is None or f.polygon.is_empty:
            continue
        lo, hi = count(f.polygon, model.pilot.z, yb[:, k])
        require(lo <= int(f.good_elements) <= hi,
                f"good footprint of {want_algos[k]}: {f.good_elements} good instances, "
                f"counted {lo}..{hi}")


    if case["sim"]:
        for k in range(na):
            f = model.trace.best[k]
            if f.polygon is None or f.polygon.is_empty:
                continue
            lo, hi = count(f.polygon, model.pilot.z, s0 - 1 == k)
            require(lo <= int(f.good_elements) <= hi,
                    f"best footprint of {want_algos[k]}: {f.good_elements} instances it is "
                    f"recommended for, counted {lo}..{hi}")


def check_build(case: dict[str, Any]) -> tuple[bool, list[str]]:
    if degenerate(case):
        return False, ["degenerate"]
    meta, opts = make(case), options(case)
    meta0, opts0 = copy.deepcopy(meta), copy.deepcopy(opts)
    try:
        space, m1 = build(meta, opts, "build", 1)
    except Violation as e:
        if unbuildable(e):
            return False, ["refused " + str(e)[:60]]
        raise
    for a, b, what in ((meta, meta0, "metadata"), (opts, opts0, "options")):
        d = diff(a, b, what)
        require(d is None, f"the build changed its inputs: {d}")
    for a, b, what in ((space.metadata, meta0, "metadata"), (space.options, opts0, "options")):
        d = diff(a, b, what)
        require(d is None, f"the instance space holds other data: {d}")
    d = diff(m1.opts, opts0, "opts")
    require(d is None, f"the model does not report the options: {d}")
    rows(m1, meta0, case)
    env = compose(copy.deepcopy(meta0), copy.deepcopy(opts0))
    compare_parts(m1, env, "build and its stages called one by one")
    # the same model again, with other random numbers around
    first = copy.deepcopy(m1)
    np.random.seed(99)
    random.seed(99)
    m2 = attempt(quiet, space.build, what="second build")
    same(first, m2, "a second build of the same space gives another model")
    d = diff(space.model, m2, "model")
    require(d is None, f"model property after a build: {d}")
    labels = [k for k in ("fraction", "sift", "sim", "analytic", "max", "source") if case[k]]
    if case["empty"]:
        labels.append("empty-instances")
    return True, labels


def check_iter(case: dict[str, Any]) -> tuple[bool, list[str]]:
    """Iterated and stage by stage runs give the model of a build."""
    from instancespace.instance_space import InstanceSpace
    from instancespace.stage_runner import StageRunningError
    from instancespace.stages.cloister import CloisterStage
    from instancespace.stages.pilot import PilotStage
    from instancespace.stages.prelim import PrelimStage
    from instancespace.stages.preprocessing import PreprocessingStage
    from instancespace.stages.pythia import PythiaStage
    from instancespace.stages.sifted import SiftedStage
    from instancespace.stages.trace import TraceStage

    if degenerate(case):
        return False, ["degenerate"]
    order = [PreprocessingStage, PrelimStage, SiftedStage, PilotStage, PythiaStage,
             CloisterStage, TraceStage]
    meta, opts = make(case), options(case)
    try:
        _, want = build(meta, opts, "build", 3)
    except Violation as e:
        if unbuildable(e):
            return False, ["refused " + str(e)[:60]]
        raise
    space = InstanceSpace(meta, opts)

    def no_model(what: str) -> None:
        try:
            space.model
        except StageRunningError:
            return
        raise Violation(f"{what}: there is a model although the space has not been built")

    no_model("before any run")
    k = case["until"] % len(order)
    stop = order[k]
    got = attempt(quiet, space.run_until_stage, stop, what=f"run until {stop.__name__}")
    before = {PythiaStage: order[:5], CloisterStage: order[:4] + [CloisterStage]}.get(
        stop, order[:k + 1])
    names = {f for s in before for f in s._outputs()._fields}
    require(names <= set(got), f"run until {stop.__name__}: outputs {names - set(got)} missing")
    late = {"space", "best", "trace_summary"} if stop is not TraceStage else set()
    require(not late & set(got), f"run until {stop.__name__}: TRACE has been run")
    no_model(f"after a run until {stop.__name__}")
    env: dict[str, Any] = dict(got)
    labels = [f"until-{stop.__name__}"]
    for s in order:
        if s in before:
            continue
        out = attempt(quiet, space.run_stage, s, what=f"run_stage({s.__name__})")
        env.update(out._asdict())
    compare_parts(want, env, f"run until {stop.__name__}, then stage by stage")
    # a stage with overriding arguments: exactly that stage's result changes
    if case["override"] == "trace":
        o = dataclasses.replace(opts.trace, purity=0.9, use_sim=not opts.trace.use_sim)
        out = attempt(quiet, space.run_stage, TraceStage, trace_options=o, what="run_stage")
        e2 = dict(env, trace_options=o, parallel_options=opts.parallel)
        t = TraceStage._inputs()
        ref = quiet(TraceStage._run, t(**{f: e2[f] for f in t._fields}))
        d = diff(tuple(out), tuple(ref), "TraceStage")
        require(d is None, f"run_stage with other options: {d}")
    elif case["override"] == "pilot":
        o = dataclasses.replace(opts.pilot, analytic=not opts.pilot.analytic)
        out = attempt(quiet, space.run_stage, PilotStage, pilot_options=o, what="run_stage")
        e2 = dict(env, pilot_options=o)
        t = PilotStage._inputs()
        ref = quiet(PilotStage._run, t(**{f: e2[f] for f in t._fields}))
        d = diff(tuple(out), tuple(ref), "PilotStage")
        require(d is None, f"run_stage with other options: {d}")
        try:
            quiet(space.run_stage, TraceStage)
        except StageRunningError:
            pass
        else:
            raise Violation("TRACE ran on a projection that has been replaced")
    no_model("after single stages")
    # iterate
    seen = []
    env2: dict[str, Any] = {}
    gen = space.run_iter()
    while True:
        try:
            item = quiet(next, gen)
        except StopIteration:
            break
        seen.append(item.stage)
        env2.update(item.output._asdict())
    eq(sorted(s.__name__ for s in seen), sorted(s.__name__ for s in order),
       "stages yielded by run_iter")
    for a, b in ((0, 1), (1, 2), (2, 3), (3, 4), (3, 5), (4, 6)):
        require(seen.index(order[a]) < seen.index(order[b]),
                f"{order[b].__name__} yielded before {order[a].__name__}")
    compare_parts(want, env2, "outputs yielded by run_iter")
    same(space.model, want, "model after run_iter")
    return True, labels + [f"override-{case['override']}"]


# ---------------------------------------------------------------- related builds

RELATED = ["labels", "sources", "empty-row", "trace", "cloister", "pythia", "outputs", "parallel",
           "unselected-algo", "pilot", "unlisted-feature"]
ALL = ["data", "data_dense", "feat_sel", "prelim", "sifted", "pilot", "cloister", "pythia",
       "trace"]


def check_related(case: dict[str, Any]) -> tuple[bool, list[str]]:
    """A change in one place changes nothing it has no say in."""
    import pandas as pd

    if degenerate(case):
        return False, ["degenerate"]
    meta, opts = make(case), options(case)
    kind = case["related"]
    m2, o2 = copy.deepcopy(meta), opts
    parts = list(ALL)
    names = False
    if kind == "labels":
        names = True
        m2 = dataclasses.replace(
            m2, feature_names=[f"feat {f}" for f in m2.feature_names],
            algorithm_names=[f"algo {f}" for f in m2.algorithm_names],
            instance_labels=pd.Series([f"inst {s}" for s in m2.instance_labels]))
        o2 = dataclasses.replace(opts, selvars=dataclasses.replace(
            opts.selvars,
            feats=None if opts.selvars.feats is None else [f"feat {f}" for f in
                                                           opts.selvars.feats],
            algos=None if opts.selvars.algos is None else [f"algo {f}" for f in
                                                           opts.selvars.algos]))
    elif kind == "sources":
        m2 = dataclasses.replace(m2, instance_sources=None if case["source"] else pd.Series(
            [f"z{k % 2}" for k in range(case["n"])]))
    elif kind == "empty-row":
        if case["fraction"] or case["drop_feature"] is not None or case["drop_algo"] is not None:
            return False, ["skipped"]  # the memory layout, and with it rounding, would differ
        at = case["seed"] % (case["n"] + 1)
        f, a = np.array(m2.features), np.array(m2.algorithms)
        f = np.insert(f, at, np.nan if case["seed"] % 3 else 1.5, axis=0)
        a = np.insert(a, at, 0.7 if case["seed"] % 3 else np.nan, axis=0)
        lb = list(m2.instance_labels)
        lb.insert(at, "void")
        sc = None
        if m2.instance_sources is not None:
            sc = list(m2.instance_sources)
            sc.insert(at, "nowhere")
            sc = pd.Series(sc)
        m2 = dataclasses.replace(m2, features=f, algorithms=a, instance_labels=pd.Series(lb),
                                 instance_sources=sc)
    elif kind == "trace":
        o2 = dataclasses.replace(opts, trace=dataclasses.replace(
            opts.trace, purity=0.95, use_sim=not opts.trace.use_sim))
        parts.remove("trace")
    elif kind == "cloister":
        o2 = dataclasses.replace(opts, cloister=dataclasses.replace(
            opts.cloister, p_val=0.5, c_thres=0.1))
        parts.remove("cloister")
    elif kind == "pythia":
        o2 = dataclasses.replace(opts, pythia=dataclasses.replace(
            opts.pythia, cv_folds=opts.pythia.cv_folds + 1,
            use_weights=not opts.pythia.use_weights))
        parts.remove("pythia")
        if case["sim"]:
            parts.remove("trace")
    elif kind == "pilot":
        o2 = dataclasses.replace(opts, pilot=dataclasses.replace(
            opts.pilot, analytic=not opts.pilot.analytic))
        parts = ["data", "data_dense", "feat_sel", "prelim", "sifted"]
    elif kind == "outputs":
        o2 = dataclasses.replace(opts, outputs=dataclasses.replace(
            opts.outputs, csv=not opts.outputs.csv, web=not opts.outputs.web,
            png=not opts.outputs.png))
    elif kind == "parallel":
        o2 = dataclasses.replace(opts, parallel=dataclasses.replace(
            opts.parallel, flag=not opts.parallel.flag, n_cores=1 + case["seed"] % 3))
    elif kind in ("unselected-algo", "unlisted-feature"):
        rng = np.random.default_rng(case["seed"] + 1)
        sel = opts.selvars
        sel = dataclasses.replace(sel, feats=sel.feats or list(m2.feature_names),
                                  algos=sel.algos or list(m2.algorithm_names))
        opts = dataclasses.replace(opts, selvars=sel)
        o2 = opts
        if kind == "unselected-algo":
            m2 = dataclasses.replace(
                m2, algorithm_names=["extra", *m2.algorithm_names],
                algorithms=np.column_stack([rng.exponential(size=case["n"]), m2.algorithms]))
        else:
            m2 = dataclasses.replace(
                m2, feature_names=["extra", *m2.feature_names],
                features=np.column_stack([rng.exponential(size=case["n"]), m2.features]))
        # an empty instance is not empty any more: keep to data without any
        if case["empty"]:
            return False, ["skipped"]
    try:
        _, a = build(meta, opts, "build", 5)
    except Violation as e:
        if unbuildable(e):
            return False, ["refused " + str(e)[:60]]
        raise
    _, b = build(m2, o2, f"build with other {kind}", 6)
    what = f"other {kind}"
    if names:
        da, db = a.data, b.data
        eq(list(db.inst_labels), [f"inst {s}" for s in da.inst_labels], f"{what}: instances")
        eq(list(db.feat_labels), [f"feat {s}" for s in da.feat_labels], f"{what}: features")
        eq(list(db.algo_labels), [f"algo {s}" for s in da.algo_labels], f"{what}: algorithms")
        for f in DATA[3:]:
            d = diff(getattr(da, f), getattr(db, f), f"data.{f}")
            require(d is None, f"{what}: {d}")
        for part in ("pilot", "pythia", "trace"):
            pa, pb = getattr(a, part), getattr(b, part)
            for fl in dataclasses.fields(pa):
                if fl.name == "summary":
                    continue
                d = diff(getattr(pa, fl.name), getattr(pb, fl.name), f"{part}.{fl.name}")
                require(d is None, f"{what}: {d}")
        parts = ["prelim", "cloister"]
        same(a, b, what, parts)
        return True, [kind]
    if kind in ("sources", "empty-row"):
        for f in DATA:
            if f in ("s", "inst_labels"):
                eq(None if getattr(a.data, f) is None or kind == "sources" and f == "s" else
                   list(getattr(a.data, f)),
                   None if getattr(b.data, f) is None or kind == "sources" and f == "s" else
                   list(getattr(b.data, f)), f"{what}: data.{f}")
                continue
            d = diff(getattr(a.data, f), getattr(b.data, f), f"data.{f}")
            require(d is None, f"{what}: {d}")
        parts = [q for q in parts if q not in ("data", "data_dense")]
    same(a, b, what, parts)
    return True, [kind]


def iter_cases() -> Any:
    return st.tuples(case_st(), st.integers(0, 6),
                     st.sampled_from(["trace", "pilot", "none"])).map(
        lambda t: {**t[0], "until": t[1], "override": t[2]})


def related_cases() -> Any:
    return st.tuples(case_st(), st.sampled_from(RELATED)).map(
        lambda t: {**t[0], "related": t[1]})


def check_measured_best(case: dict[str, Any]) -> tuple[bool, list[str]]:
    """With measured results the best footprints are those of the best algorithm."""
    from instancespace.stages.trace import TraceStage

    meta, opts = make(case), options(case)
    _, m = build(meta, opts, "build")
    p = np.asarray(m.data.p).ravel().astype(int)
    want = quiet(TraceStage.trace, m.pilot.z, m.data.y_bin, p - 1, m.data.beta,
                 m.data.algo_labels, opts.trace, opts.parallel)
    d = diff(m.trace.best, want.best, "trace.best")
    require(d is None, f"best footprints are not those of the best algorithm: {d}")
    return True, []


BEST_CASE = {"seed": 4, "n": 60, "nf": 4, "na": 2, "shape": "n", "q": 0.5, "empty": [],
             "source": False, "max": False, "beta": 0.55, "fraction": 0, "drop_feature": None,
             "drop_algo": None, "auto": True, "bound": True, "norm": True, "sift": False,
             "analytic": True, "folds": 3, "weights": False, "sim": False, "purity": 0.5}

KNOWN = [Known("measured-best", BEST_CASE, check_measured_best,
               "with trace.use_sim off TRACE numbers the best algorithms from 0, PRELIM from 1: "
               "every best footprint is that of the algorithm before",
               "best footprints are not those of the best algorithm")]

SUBS = [
    Sub("build", case_st, check_build, quick=40, thorough=1200),
    Sub("iterated", iter_cases, check_iter, quick=24, thorough=700),
    Sub("related", related_cases, check_related, quick=64, thorough=2000),
]
