"""C22: instance spaces from files and folders."""
from __future__ import annotations

import contextlib
import io
import json
import os
import tempfile
from pathlib import Path
from typing import Any

import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, Violation, attempt, eq, require
from pbt.deep import diff
from pbt.gen import quiet
from pbt.props import c03, c04, c21

RULE = ("generated metadata tables and options written to files (with decoys beside them) and "
        "given as two files or as a folder, some missing or unusable; a few small tables are "
        "also built and compared with the build of the same data in memory; non-trivial = an "
        "instance space was made and compared, or a bad file was refused")
ASSUMPTIONS = ["options files that are not JSON objects of known fields may be refused with an "
               "error or with no instance space"]


DECOYS = ["a_metadata.csv", "1metadata.csv", "a_options.json", "a.csv", "a.json", "zz.csv", "zz.json", "old_metadata.csv", "metadata_2.csv", "METADATA.CSV",
          "metadata.csv.bak", "metadata", "old_options.json", "options_2.json", "Options.json",
          "options.json~", "default_options.json", "metadata.csv", "options.json",
          "sub/metadata.csv", "sub/options.json", "input/metadata.csv", "input/options.json"]


def contents(d: str) -> dict[str, Any]:
    return {os.path.join(os.path.relpath(root, d), n): open(os.path.join(root, n), "rb").read()
            for root, _, names in os.walk(d) for n in names}


@st.composite
def case_st(draw: Any) -> dict[str, Any]:
    c = {"table": draw(c04.table()), "opts": draw(c03.dict_case()),
         "meta": draw(st.sampled_from(["ok", "ok", "ok", "missing", "empty", "ragged", "dir"])),
         "json": draw(st.sampled_from(["ok", "ok", "ok", "missing", "text", "list", "dir"])),
         "folder": draw(st.booleans()), "decoys": draw(st.lists(st.sampled_from(DECOYS), max_size=8,
                                                               unique=True))}
    if c["opts"]["defect"] not in ("none", "section", "field"):
        c["opts"]["defect"] = "none"
    return c


def call(fn: Any, *a: Any) -> Any:
    """The result, or the ValueError it was refused with."""
    try:
        return quiet(fn, *a)
    except ValueError as e:
        return e
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{fn.__name__} raised {type(e).__name__}: {e}") from e


def check(case: dict[str, Any]) -> tuple[bool, list[str]]:
    from instancespace.instance_space import (InstanceSpace, instance_space_from_directory,
                                              instance_space_from_files)

    raw = c03.build(case["opts"])
    good_opts = case["json"] == "ok" and case["opts"]["defect"] == "none"
    with tempfile.TemporaryDirectory() as d:
        mp = os.path.join(d, "metadata.csv" if case["folder"] else "table of data.csv")
        op = os.path.join(d, "options.json" if case["folder"] else "settings.txt")
        for nm in case["decoys"]:
            # readable, but not one of the two files
            path = os.path.join(d, nm)
            if path in (mp, op):
                continue
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                f.write('{"trace": {"purity": 0.123}}' if "json" in nm or "opt" in nm else
                        "Instances,feature_decoy,algo_decoy\nx,1,2\n")
        kind = case["meta"]
        if kind == "ok":
            c04.write_csv(mp, case["table"])
        elif kind == "dir":
            os.mkdir(mp)
        elif kind != "missing":
            with open(mp, "w") as f:
                f.write("" if kind == "empty" else
                        "Instances,feature_a,algo_b\ni,1,2\nj,1,2,3,4\n")
        if case["json"] == "ok":
            with open(op, "w") as f:
                json.dump(raw, f)
        elif case["json"] == "dir":
            os.mkdir(op)
        elif case["json"] != "missing":
            with open(op, "w") as f:
                f.write("{'perf': 1" if case["json"] == "text" else "[1, 2]")
        before = contents(d)
        if case["folder"]:
            got = call(instance_space_from_directory, Path(d))
        else:
            got = call(instance_space_from_files, Path(mp), Path(op))
        eq(contents(d), before, "files after reading them")
    what = "folder" if case["folder"] else "files"
    if kind != "ok":
        require(got is None, f"{what}: an instance space although the metadata is {kind}: {got}")
        return True, ["bad metadata"]
    if not good_opts:
        require(got is None or isinstance(got, ValueError),
                f"{what}: an instance space although the options are "
                f"{case['json']}/{case['opts']['defect']}")
        return True, ["bad options"]
    if isinstance(got, ValueError):
        raise Violation(f"{what}: refused: {got}")
    require(isinstance(got, InstanceSpace), f"{what}: no instance space for readable files")
    c04.expect(case["table"], got.metadata, f"{what}: metadata")
    want = {s: {f: v for _k, f, v in es} for s, es in case["opts"]["content"]}
    c03.check_opts(got.options, want, f"{what}: options")
    return True, [what]


# ---------------------------------------------------------------- builds

def check_build(case: dict[str, Any]) -> tuple[bool, list[str]]:
    """A build from files is the build of the data and settings in them."""
    from instancespace.instance_space import (InstanceSpace, instance_space_from_directory)

    if c21.degenerate(case):
        return False, ["degenerate"]
    meta, opts = c21.make(case), c21.options(case)
    rng = np.random.default_rng(case["seed"])
    cols: list[tuple[str, list[Any]]] = []
    feats = [("feature_" + f, list(meta.features[:, j]))
             for j, f in enumerate(meta.feature_names)]
    algos = [("algo_" + a, list(meta.algorithms[:, j]))
             for j, a in enumerate(meta.algorithm_names)]
    other = [("Instances", list(meta.instance_labels))]
    if meta.instance_sources is not None:
        other.append(("Source", list(meta.instance_sources)))
    # any order of columns that keeps features and algorithms in order among themselves
    pools = [feats, algos, other]
    while any(pools):
        live = [q for q in pools if q]
        cols.append(live[int(rng.integers(len(live)))].pop(0))
    sections = {
        "perf": {"MaxPerf": case["max"], "AbsPerf": True, "epsilon": 1.0,
                 "betaThreshold": case["beta"]},
        "auto": {"preproc": case["auto"]}, "bound": {"flag": case["bound"]},
        "norm": {"flag": case["norm"]},
        "sifted": {"flag": case["sift"], "rho": 0.05, "K": 3, "num_generations": 2,
                   "sol_per_pop": 4, "keep_elitism": 1, "Replicates": 5},
        "pilot": {"analytic": case["analytic"], "ntries": 1},
        "pythia": {"cvfolds": case["folds"], "use_grid_search": True,
                   "useweights": case["weights"], "ispolykrnl": False},
        "trace": {"usesim": case["sim"], "PI": case["purity"]}}
    sel: dict[str, Any] = {}
    s = opts.selvars
    if s.small_scale_flag:
        sel.update(smallscaleflag=True, smallscale=s.small_scale)
    if s.feats is not None:
        sel["feats"] = ["feature_" + f for f in s.feats]
    if s.algos is not None:
        sel["algos"] = ["algo_" + f for f in s.algos]
    if sel:
        sections["selvars"] = sel
    with tempfile.TemporaryDirectory() as d:
        with open(os.path.join(d, "metadata.csv"), "w") as f:
            f.write(",".join(n for n, _ in cols) + "\n")
            for row in zip(*(v for _, v in cols)):
                f.write(",".join("" if v != v else repr(float(v)) if not isinstance(v, str)
                                 else v for v in row) + "\n")
        with open(os.path.join(d, "options.json"), "w") as f:
            json.dump(sections, f)
        with contextlib.redirect_stdout(io.StringIO()):
            space = attempt(instance_space_from_directory, Path(d), what="from_directory")
    require(space is not None, "no instance space for readable files")
    o = space.options
    for sec in ("perf", "auto", "bound", "norm", "sifted", "pilot", "cloister", "pythia",
                "trace", "outputs", "parallel"):
        dd = diff(getattr(o, sec), getattr(opts, sec), f"options.{sec}")
        require(dd is None, f"options read: {dd}")
    require(np.allclose(space.metadata.features, meta.features, rtol=1e-12, equal_nan=True)
            and np.allclose(space.metadata.algorithms, meta.algorithms, rtol=1e-12,
                            equal_nan=True), "values read")
    # what was read, built in memory: the very same model
    memory = InstanceSpace(c21_meta(space.metadata), o)
    try:
        want = attempt(quiet, memory.build, what="build")
    except Violation as e:
        if c21.unbuildable(e):
            return False, ["refused"]
        raise
    got = attempt(quiet, space.build, what="build of the files")
    c21.same(got, want, "build of the files")
    eq([x.removeprefix("feature_") for x in space.metadata.feature_names],
       list(meta.feature_names), "features")
    # and the good, best and easy ones are those of the numbers written
    m = got
    where = [list(meta.instance_labels).index(x) for x in m.data.inst_labels]
    names = [f"algo_{a}" for a in meta.algorithm_names]
    ya = [names.index(a) for a in m.data.algo_labels]
    y = meta.algorithms[np.ix_(where, ya)]
    near = np.abs(y - 1) < 1e-9
    good = y >= 1 if case["max"] else y <= 1
    require(bool(((np.asarray(m.data.y_bin, dtype=bool) == good) | near).all()),
            "good algorithms of the table")
    return True, ["built"]


def c21_meta(m: Any) -> Any:
    """The same metadata, put together by hand."""
    import pandas as pd

    from instancespace.data.metadata import Metadata
    return Metadata(
        feature_names=list(m.feature_names), algorithm_names=list(m.algorithm_names),
        instance_labels=pd.Series(list(m.instance_labels)),
        instance_sources=None if m.instance_sources is None
        else pd.Series(list(m.instance_sources)),
        features=np.array(m.features, copy=True, order="K"),
        algorithms=np.array(m.algorithms, copy=True, order="K"))


SUBS = [
    Sub("files", case_st, check, quick=1600, thorough=24000),
    Sub("builds", c21.case_st, check_build, quick=24, thorough=400),
]
