"""C03: options: JSON / dict -> InstanceSpaceOptions, defaults, aliases, refusals."""
from __future__ import annotations

import json
import os
import tempfile
from dataclasses import fields
from typing import Any

from hypothesis import strategies as st

from pbt.core import Sub, Violation, attempt, eq, require

RULE = ("generated option objects (any subset of sections and fields, canonical or MATLAB names in "
        "any case, any JSON value) plus single defects (unknown section or field, a field given "
        "twice, a section or a file that is not an object, unreadable/garbage files); "
        "non-trivial = at least one field is set or a defect is present")
ASSUMPTIONS = ["the default of a field is the DEFAULT_* constant documented for it",
               "the key '_' (explicitly tolerated) is not generated",
               "JSON nesting is bounded"]

# section -> field -> (default constant or None, MATLAB alias or None)
T: dict[str, dict[str, tuple[str | None, str | None]]] = {
    "parallel": {"flag": ("PARALLEL_FLAG", None), "n_cores": ("PARALLEL_N_CORES", "ncores")},
    "perf": {"max_perf": ("PERFORMANCE_MAX_PERF", "maxperf"),
             "abs_perf": ("PERFORMANCE_ABS_PERF", "absperf"),
             "epsilon": ("PERFORMANCE_EPSILON", None),
             "beta_threshold": ("PERFORMANCE_BETA_THRESHOLD", "betathreshold")},
    "auto": {"preproc": ("AUTO_PREPROC", None)},
    "bound": {"flag": ("BOUND_FLAG", None)},
    "norm": {"flag": ("NORM_FLAG", None)},
    "selvars": {"small_scale_flag": ("SELVARS_SMALL_SCALE_FLAG", "smallscaleflag"),
                "small_scale": ("SELVARS_SMALL_SCALE", "smallscale"),
                "file_idx_flag": ("SELVARS_FILE_IDX_FLAG", "fileidxflag"),
                "file_idx": ("SELVARS_FILE_IDX", "fileidx"),
                "feats": (None, None), "algos": (None, None),
                "selvars_type": ("SELVARS_TYPE", "type"),
                "min_distance": ("SELVARS_MIN_DISTANCE", "mindistance"),
                "density_flag": ("SELVARS_DENSITY_FLAG", "densityflag")},
    "sifted": {"flag": ("SIFTED_FLAG", None), "rho": ("SIFTED_RHO", None),
               "k": ("SIFTED_K", None), "n_trees": ("SIFTED_NTREES", "ntrees"),
               "max_iter": ("SIFTED_MAX_ITER", "maxiter"),
               "replicates": ("SIFTED_REPLICATES", None),
               "num_generations": ("SIFTED_NUM_GENERATION", None),
               "num_parents_mating": ("SIFTED_NUM_PARENTS_MATING", None),
               "sol_per_pop": ("SIFTED_SOL_PER_POP", None),
               "parent_selection_type": ("SIFTED_PARENT_SELECTION_TYPE", None),
               "k_tournament": ("SIFTED_K_TOURNAMENT", None),
               "keep_elitism": ("SIFTED_KEEP_ELITISM", None),
               "crossover_type": ("SIFTED_CROSSOVER_TYPE", None),
               "cross_over_probability": ("SIFTED_CROSSOVER_PROBABILITY", None),
               "mutation_type": ("SIFTED_MUTATION_TYPE", None),
               "mutation_probability": ("SIFTED_MUTATION_PROBABILITY", None),
               "stop_criteria": ("SIFTED_STOP_CRITERIA", None)},
    "pilot": {"x0": (None, None), "alpha": (None, None),
              "analytic": ("PILOT_ANALYTICS", None), "n_tries": ("PILOT_N_TRIES", "ntries")},
    "cloister": {"p_val": ("CLOISTER_P_VAL", "pval"), "c_thres": ("CLOISTER_C_THRES", "cthres")},
    "pythia": {"cv_folds": ("PYTHIA_CV_FOLDS", "cvfolds"),
               "is_poly_krnl": ("PYTHIA_IS_POLY_KRNL", "ispolykrnl"),
               "use_weights": ("PYTHIA_USE_WEIGHTS", "useweights"),
               "use_grid_search": ("PYTHIA_USE_GRID_SEARCH", "uselibsvm"),
               "params": (None, None)},
    "trace": {"use_sim": ("TRACE_USE_SIM", "usesim"), "purity": ("TRACE_PURITY", "pi")},
    "outputs": {"csv": ("OUTPUTS_CSV", None), "web": ("OUTPUTS_WEB", None),
                "png": ("OUTPUTS_PNG", None)},
}


def default_of(section: str, field: str) -> Any:
    from instancespace.data import default_options
    const = T[section][field][0]
    return None if const is None else getattr(default_options, "DEFAULT_" + const)


VALUES = st.one_of(
    st.booleans(), st.none(), st.integers(-10**6, 10**6), st.sampled_from([0, 0.0, False, "", []]),
    st.floats(allow_nan=False, allow_infinity=False), st.text(max_size=8),
    st.lists(st.text(max_size=6), max_size=4),
    st.lists(st.lists(st.floats(-5, 5), min_size=1, max_size=3), max_size=3),
)


@st.composite
def casing(draw: Any, s: str) -> str:
    mode = draw(st.integers(0, 3))
    if mode == 0:
        return s
    if mode == 1:
        return s.upper()
    if mode == 2:
        return s.title()
    flips = draw(st.lists(st.booleans(), min_size=len(s), max_size=len(s)))
    return "".join(c.upper() if f else c for c, f in zip(s, flips))


@st.composite
def content(draw: Any) -> list[Any]:
    """[[section, [[key, field, value], ...]], ...] in file order."""
    names = draw(st.lists(st.sampled_from(sorted(T)), unique=True, max_size=12))
    out = []
    for s in names:
        fs = draw(st.lists(st.sampled_from(sorted(T[s])), unique=True, max_size=6))
        entries = []
        for f in fs:
            alias = T[s][f][1]
            key = alias if alias and draw(st.booleans()) else f
            entries.append([draw(casing(key)), f, draw(VALUES)])
        out.append([s, entries])
    return out


DEFECTS = ["none", "none", "none", "section", "field", "twice", "nonobject_section"]


@st.composite
def dict_case(draw: Any) -> dict[str, Any]:
    c = draw(content())
    d: dict[str, Any] = {"content": c, "defect": draw(st.sampled_from(DEFECTS))}
    if d["defect"] == "section":
        bad = draw(st.one_of(st.sampled_from(["Perf ", "performance", "general", "opts", "prelim"]),
                             st.text(min_size=1, max_size=8)))
        if bad.lower() in T:
            bad += "_x"
        d["arg"] = [bad, draw(st.sampled_from([{}, {"flag": True}]))]
    elif d["defect"] == "field":
        s = draw(st.sampled_from(sorted(T)))
        bad = draw(st.one_of(
            st.sampled_from(["flags", "pi", "type", "ncores", "n-cores", "epsilon", "rho", "k",
                             "x_0", "purity", "csv", "uselibsvm", "max perf", "_x", "__",
                             "_purity", "_note", "x_", "_comment"]),
            st.text(min_size=1, max_size=8)))
        known = set(T[s]) | {a for _, a in T[s].values() if a}
        if bad.lower() in known or bad == "_":
            bad += "_x"
        d["arg"] = [s, bad, draw(VALUES)]
    elif d["defect"] == "twice":
        s = draw(st.sampled_from(sorted(T)))
        f = draw(st.sampled_from(sorted(T[s])))
        alias = T[s][f][1]
        k1, k2 = f, f.upper()
        if alias and draw(st.booleans()):
            k2 = draw(casing(alias))
        if draw(st.booleans()):
            k1, k2 = k2, k1
        d["arg"] = [s, k1, k2, draw(VALUES), draw(VALUES)]
    elif d["defect"] == "nonobject_section":
        d["arg"] = [draw(st.sampled_from(sorted(T))),
                    draw(st.sampled_from([None, [], 3, "x", True, [["flag", True]]]))]
    d["via_file"] = draw(st.booleans())
    return d


def build(case: dict[str, Any]) -> dict[str, Any]:
    raw = {s: {k: v for k, _f, v in es} for s, es in case["content"]}
    a = case.get("arg")
    if case["defect"] in ("section", "nonobject_section"):
        raw[a[0]] = a[1]
    elif case["defect"] == "field":
        raw.setdefault(a[0], {})[a[1]] = a[2]
    elif case["defect"] == "twice":
        raw[a[0]] = {a[1]: a[3], a[2]: a[4]}
    return raw


def same(x: Any, y: Any) -> bool:
    return type(x) is type(y) and x == y


def check_opts(o: Any, expect: dict[str, dict[str, Any]], what: str) -> None:
    for s, fs in T.items():
        got = getattr(o, s)
        eq({f.name for f in fields(got)} - set(fs), set(), f"{what}: unexpected fields in {s}")
        for f in fs:
            want = expect.get(s, {}).get(f, ...)
            want = default_of(s, f) if want is ... else want
            require(same(getattr(got, f), want),
                    f"{what}: {s}.{f} is {getattr(got, f)!r}, expected {want!r}")


def check_dict(case: dict[str, Any]) -> tuple[bool, list[str]]:
    from instancespace.data.options import InstanceSpaceOptions, PrelimOptions, from_json_file

    raw = build(case)
    frozen = json.dumps(raw)
    bad = case["defect"] != "none"
    if case["via_file"]:
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, "options.json")
            with open(path, "w") as f:
                f.write(frozen)
            o = attempt(from_json_file, path, what="from_json_file")
        if bad:
            require(o is None, f"from_json_file accepted a {case['defect']} defect: {o!r}"[:300])
    else:
        try:
            o = InstanceSpaceOptions.from_dict(raw)
        except ValueError as e:
            if not bad:
                raise Violation(f"valid options refused: {e}") from e
            return True, [case["defect"]]
        except Exception as e:  # noqa: BLE001
            raise Violation(f"from_dict raised {type(e).__name__}, not ValueError: {e}") from e
        require(not bad, f"from_dict accepted options with a {case['defect']} defect")
        eq(json.dumps(raw), frozen, "from_dict changed its argument")
    if bad:
        return True, [case["defect"] + "/file"]
    require(o is not None, "from_json_file refused valid options")
    expect = {s: {f: v for _k, f, v in es} for s, es in case["content"]}
    check_opts(o, expect, "from_dict")
    p = PrelimOptions.from_options(o)
    for f in ("max_perf", "abs_perf", "epsilon", "beta_threshold"):
        require(same(getattr(p, f), getattr(o.perf, f)), f"PrelimOptions.{f}")
    auto = bool(o.auto.preproc)
    require(bool(p.bound) == (auto and bool(o.bound.flag))
            and bool(p.norm) == (auto and bool(o.norm.flag)), "PrelimOptions flags")
    n = sum(len(es) for _s, es in case["content"])
    return n > 0, ["valid", f"fields>={min(n // 5 * 5, 20)}"]


@st.composite
def default_case(draw: Any) -> dict[str, Any]:
    secs = draw(st.lists(st.sampled_from(sorted(T)), unique=True, max_size=5))
    out: dict[str, Any] = {}
    for s in secs:
        fs = draw(st.lists(st.sampled_from(sorted(set(T[s]) - {"params"})), unique=True,
                           max_size=5))
        out[s] = {f: draw(VALUES) for f in fs}
    return {"override": out}


def check_default(case: dict[str, Any]) -> tuple[bool, list[str]]:
    from instancespace.data.options import InstanceSpaceOptions
    import typing

    hints = typing.get_type_hints(InstanceSpaceOptions)
    kw = {}
    for s, vals in case["override"].items():
        kw[s] = attempt(hints[s].default, **vals, what=f"{hints[s].__name__}.default")
    o = attempt(InstanceSpaceOptions.default, **kw, what="InstanceSpaceOptions.default")
    check_opts(o, case["override"], "default")
    for s, sec in kw.items():
        require(getattr(o, s) is sec or getattr(o, s) == sec, f"section {s} given is not used")
    # an empty object means all defaults
    check_opts(InstanceSpaceOptions.from_dict({}), {}, "from_dict({})")
    return bool(case["override"]), ["default"]


@st.composite
def file_case(draw: Any) -> dict[str, Any]:
    kind = draw(st.sampled_from(["missing", "dir", "bytes", "text", "truncated", "nonobject",
                                 "empty", "stray"]))
    c: dict[str, Any] = {"kind": kind, "as_path": draw(st.booleans())}
    if kind == "bytes":
        c["data"] = list(draw(st.binary(max_size=30)))
    elif kind == "text":
        c["data"] = draw(st.text(alphabet=st.characters(codec="utf-8"), max_size=30))
    elif kind == "truncated":
        c["data"] = draw(content())
        c["cut"] = draw(st.integers(1, 40))
    elif kind == "stray":
        c["data"] = draw(content())
        c["cut"] = draw(st.integers(0, 10**6))
        c["stray"] = draw(st.sampled_from([[255], [0xC3], [0xE9], [0x80], [0xED, 0xA0, 0x80]]))
    elif kind == "nonobject":
        c["data"] = draw(st.one_of(VALUES, st.lists(VALUES, max_size=3)))
    return c


def check_file(case: dict[str, Any]) -> tuple[bool, list[str]]:
    from pathlib import Path

    from instancespace.data.options import from_json_file

    kind = case["kind"]
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "o.json")
        blob = None
        if kind == "bytes":
            blob = bytes(case["data"])
        elif kind == "text":
            blob = case["data"].encode()
        elif kind == "empty":
            blob = b""
        elif kind == "truncated":
            s = json.dumps({s: {k: v for k, _f, v in es} for s, es in case["data"]})
            blob = s[:max(0, len(s) - case["cut"])].encode()
        elif kind == "stray":  # options, but for bytes that are not text
            b = json.dumps({s: {k: v for k, _f, v in es} for s, es in case["data"]}).encode()
            at = case["cut"] % (len(b) + 1)
            blob = b[:at] + bytes(case["stray"]) + b[at:]
        elif kind == "nonobject":
            blob = json.dumps(case["data"]).encode()
        if kind == "dir":
            os.mkdir(path)
        if blob is not None:
            try:
                v = json.loads(blob.decode())
                if v == {}:
                    return False, ["empty object"]
                if isinstance(v, dict):
                    return False, ["object"]
            except ValueError:
                pass
            with open(path, "wb") as f:
                f.write(blob)
        o = attempt(from_json_file, Path(path) if case["as_path"] else path, what="from_json_file")
    require(o is None, f"from_json_file gave options for a bad file ({kind})")
    return True, [kind]


SUBS = [
    Sub("from_dict", dict_case, check_dict, 4000, 120000),
    Sub("defaults", default_case, check_default, 1200, 30000),
    Sub("bad_files", file_case, check_file, 1200, 30000,
        pinned=[{"kind": "nonobject", "data": [1], "as_path": True},
                {"kind": "bytes", "data": [255, 254], "as_path": False}]),
]
