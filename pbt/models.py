"""Generated Models (the result of a build) for the export checks, from plain data cases."""
from __future__ import annotations

import dataclasses
from typing import Any

import numpy as np
from hypothesis import strategies as st

LABEL = st.text(alphabet="abcXYZ019 _-.,;\"'éß漢#%", min_size=1, max_size=8)
# feature and algorithm labels become parts of file names
NAME = st.text(alphabet="abcXYZ019 _-.,;'é漢#%", min_size=1, max_size=8).filter(
    lambda s: s.strip(" .") == s)


@st.composite
def model_st(draw: Any, plain: bool = False) -> dict[str, Any]:
    n = draw(st.one_of(st.integers(3, 12), st.integers(3, 12), st.sampled_from([1, 2, 30, 120])))
    nf = draw(st.sampled_from([1, 2, 3, 4, 4, 11]))
    na = draw(st.sampled_from([1, 2, 3, 4, 4, 11]))
    name = NAME if not plain else st.sampled_from("abcdefghijkl")
    uniq = dict(unique_by=lambda s: s.lower())
    return {
        "n": n, "seed": draw(st.integers(0, 2**31)),
        "feats": draw(st.lists(name, min_size=nf, max_size=nf, **uniq)),
        "algos": draw(st.lists(name, min_size=na, max_size=na, **uniq)),
        "insts": [f"i{k}" for k in range(n)] if n > 12 else draw(
            st.lists(LABEL if not plain else st.sampled_from("abcdefghijklmnop"),
                     min_size=n, max_size=n, unique=True)),
        "zscale": draw(st.sampled_from([1.0, 1.0, 4.0, 1000.0, 1e-4])),
        "index": draw(st.sampled_from(["plain", "gaps", "shuffled"])),
        "signed": draw(st.booleans()) and not plain,
        "sources": draw(st.booleans()), "extra": draw(st.integers(0, 3)),
        "values": draw(st.sampled_from(["normal", "ints", "huge", "tiny"])),
        "const": draw(st.booleans()),
        "best": [draw(st.sampled_from(["poly", "multi", "hole", "none", "empty", "many", "fine"])) for _ in range(na)],
        "good": [draw(st.sampled_from(["poly", "multi", "hole", "none", "empty", "many", "fine"])) for _ in range(na)],
        "sim": draw(st.booleans()), "same": draw(st.integers(0, 5)) == 0,
        "missing": draw(st.sampled_from([0, 0, 0, 1, 4])),
        "cloister": draw(st.integers(0, 5)) > 0, "pilot_summary": draw(st.integers(0, 5)) > 0,
    }


def fill(cls: Any, **kw: Any) -> Any:
    names = [f.name for f in dataclasses.fields(cls)]
    return cls(**{k: kw.get(k) for k in names})


def outline(kind: str, rng: Any) -> tuple[Any, list[Any]]:
    """A polygon and the corners of each of its parts, in order, without repeats."""
    from shapely.geometry import MultiPolygon, Polygon
    if kind == "none":
        return None, []
    if kind == "empty":
        return Polygon(), []
    parts = []
    for c in ([0.0] if kind not in ("multi", "many") else
              [10.0 * j for j in range(int(rng.integers(2, 4)) * (3 if kind == "many" else 1))]):
        k = int(rng.integers(60, 120) if kind == "fine" else rng.integers(3, 8))
        th = np.arange(k) / k * 2 * np.pi + rng.uniform(0, 1)
        rad = rng.uniform(1, 3, k)
        parts.append([(float(c + r * np.cos(t)), float(r * np.sin(t))) for r, t in zip(rad, th)])
    if kind in ("multi", "many"):
        return MultiPolygon([Polygon(p) for p in parts]), parts
    if kind == "hole":
        return Polygon(parts[0], [[(0.1, 0), (0, 0.1), (-0.1, 0)]]), parts
    return Polygon(parts[0]), parts


def values(kind: str, rng: Any, shape: Any) -> Any:
    v = rng.normal(size=shape)
    return {"normal": lambda: v, "ints": lambda: rng.integers(-9, 10, shape).astype(float),
            "huge": lambda: v * 1e12, "tiny": lambda: v * 1e-9}[kind]()


def pick_sources(case: dict[str, Any], rng: Any, n: int) -> list[Any]:
    pool = ["src_a", "src b", "c", " c", "C"] if case["seed"] % 3 else [f"s{k}" for k in range(16)]
    out: list[Any] = list(map(str, rng.choice(pool, n)))
    if case["seed"] % 4 == 0:  # unknown
        out[int(rng.integers(n))] = np.nan
    return out


def make(case: dict[str, Any]) -> tuple[Any, dict[str, Any]]:
    """The Model, and what it was made of (corners of the footprints)."""
    import pandas as pd
    from instancespace.data.model import (CloisterOut, Data, FeatSel, Footprint, PilotOut, PrelimOut,
                                          PythiaOut, SiftedOut, TraceOut)
    from instancespace.data.options import InstanceSpaceOptions, TraceOptions
    from instancespace.model import Model

    rng = np.random.default_rng(case["seed"])
    n, feats, algos = case["n"], case["feats"], case["algos"]
    nf, na = len(feats), len(algos)
    total = nf + case["extra"]
    idx = rng.permutation(total)[:nf]
    index = {"plain": np.arange(n), "gaps": np.arange(n) * 2 + 3,
             "shuffled": rng.permutation(n)}[case["index"]]
    insts = pd.Series(case["insts"], index=index)
    x_raw = values(case["values"], rng, (n, total))
    y_raw = values(case["values"], rng, (n, na))
    if not case.get("signed"):
        y_raw = np.abs(y_raw)
    x, y = rng.normal(size=(n, nf)), rng.normal(size=(n, na))
    if case["const"]:
        x[:, 0] = 1.5
        y_raw[:, -1] = 2.0
    for _ in range(case.get("missing", 0) if n > 1 else 0):  # performance not measured
        i, j = int(rng.integers(n)), int(rng.integers(na))
        if (~np.isnan(y_raw[:, j])).sum() > 1:
            y_raw[i, j] = y[i, j] = np.nan
    y_bin = rng.random((n, na)) < 0.5
    if case.get("same"):  # an algorithm that is always good, and one that never is
        y_bin[:, 0], y_bin[:, -1] = True, False
    data = fill(
        Data, inst_labels=insts, feat_labels=list(feats), algo_labels=list(algos), x=x, y=y,
        x_raw=x_raw, y_raw=y_raw, y_bin=y_bin, y_best=np.nan_to_num(y_raw).min(1),
        p=rng.integers(1, na + 1, n), num_good_algos=y_bin.sum(1).astype(float),
        beta=rng.random(n) < 0.5,
        s=pd.Series(pick_sources(case, rng, n), index=index) if case["sources"] else None)
    fps: dict[str, list[Any]] = {"best": [], "good": []}
    corners: dict[str, list[Any]] = {"best": [], "good": []}
    for nm in fps:
        for kind in case[nm]:
            poly, parts = outline(kind, rng)
            area = 0.0 if poly is None else poly.area
            fps[nm].append(Footprint(poly, area, 3, 2, 1.5, 0.5))
            corners[nm].append(parts)
    cols = ["Algorithm"] + [f"{a}_{b}" for b in ("Good", "Best") for a in (
        "Area", "Area_X", "Density", "Density_X", "Purity")]
    ts = pd.DataFrame([[a, *rng.random(10)] for a in algos], columns=cols)
    z = rng.normal(size=(n, 2)) * case.get("zscale", 1.0)
    ps = pd.DataFrame([["Z_{1}", *rng.normal(size=nf)], ["Z_{2}", *rng.normal(size=nf)]],
                      columns=[0, *feats])
    pys = pd.DataFrame({"Algorithms": [*algos, "Oracle", "Selector"],
                        "Avg": rng.random(na + 2), "CV": [*rng.random(na), "", 0.5]})
    opts = dataclasses.replace(InstanceSpaceOptions.default(),
                               trace=TraceOptions(case["sim"], 0.55))
    model = Model(
        data=data, data_dense=data, feat_sel=fill(FeatSel, idx=idx), prelim=fill(PrelimOut),
        sifted=fill(SiftedOut, selvars=np.arange(nf), idx=idx),
        pilot=fill(PilotOut, z=z, summary=ps if case["pilot_summary"] else None),
        cloister=CloisterOut(rng.normal(size=(int(rng.integers(3, 9)), 2)),
                             rng.normal(size=(int(rng.integers(3, 9)), 2)))
        if case["cloister"] else None,
        pythia=fill(PythiaOut, y_hat=rng.random((n, na)) < 0.5,
                    selection0=rng.integers(0, na + 1, n), summary=pys),
        trace=fill(TraceOut, good=fps["good"], best=fps["best"], summary=ts), opts=opts)
    return model, corners


def snapshot(model: Any) -> Any:
    """A comparable copy of everything in a model."""
    import pandas as pd

    def go(v: Any) -> Any:
        if dataclasses.is_dataclass(v) and not isinstance(v, type):
            return (type(v).__name__, [(f.name, go(getattr(v, f.name)))
                                       for f in dataclasses.fields(v)])
        if isinstance(v, np.ndarray):
            return ("array", v.shape, v.dtype.str, v.tolist())
        if isinstance(v, pd.DataFrame):
            return ("frame", [str(c) for c in v.columns], v.index.tolist(), v.to_numpy().tolist())
        if isinstance(v, pd.Series):
            return ("series", v.index.tolist(), v.tolist())
        if isinstance(v, (list, tuple)):
            return [go(w) for w in v]
        if hasattr(v, "wkt"):
            return v.wkt
        return v

    return repr(go(model))
