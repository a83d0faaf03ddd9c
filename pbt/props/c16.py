"""C16: TRACE's density based clustering."""
from __future__ import annotations

import math

from typing import Any



import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, attempt, eq, require

RULE = ("generated point sets (integer grids so that distances tie with the radius, random and "
        "clustered points, duplicates, 1 to 3 coordinates) with neighbourhood sizes and radii; "
        "non-trivial = at least two clusters, or clusters and noise")
ASSUMPTIONS = ["a point reached from a cluster belongs to it and is followed further, as in the "
               "original this is a port of (TRACE's expected results in the tests rely on it)",
               "one coordinate is not exercised: the distance of one dimensional points is only "
               "defined for a single point and spaces have two dimensions"]


@st.composite
def case_st(draw: Any) -> dict[str, Any]:
    kind = draw(st.sampled_from(["grid", "grid", "random", "blobs"]))
    dim = draw(st.sampled_from([2, 2, 2, 3]))
    n = draw(st.integers(1, 40))
    c: dict[str, Any] = {"kind": kind, "dim": dim, "k": draw(st.integers(2, 6))}
    if kind == "grid":
        c["points"] = draw(st.lists(st.lists(st.integers(0, 9), min_size=dim, max_size=dim),
                                    min_size=1, max_size=30))
        c["eps"] = draw(st.sampled_from([1.0, 2.0, 3.0, 5.0]))
    else:
        c["n"] = n
        c["seed"] = draw(st.integers(0, 2**31))
        c["eps"] = draw(st.sampled_from([None, 0.2, 0.5, 1.0]))
    return c


def points(case: dict[str, Any]) -> Any:
    if case["kind"] == "grid":
        return np.array(case["points"], float)
    rng = np.random.default_rng(case["seed"])
    n, dim = case["n"], case["dim"]
    x = rng.normal(size=(n, dim))
    if case["kind"] == "blobs":
        x = 0.3 * x + rng.uniform(-3, 3, size=(3, dim))[rng.integers(0, 3, n)]
    return x


def reference(x: Any, k: int, eps: float) -> tuple[list[int], float]:
    """(cluster of each point or -1, distance of the closest pair to the radius)."""
    n = len(x)
    d = np.sqrt(((x[:, None, :] - x[None, :, :]) ** 2).sum(axis=2))
    margin = float(np.abs(d - eps)[~np.eye(n, dtype=bool)].min()) if n > 1 else math.inf
    near = d <= eps
    dense = near.sum(axis=1) >= k + 1
    out = [-1] * n
    no = 0
    for i in range(n):
        if out[i] == -1 and dense[i]:
            no += 1
            todo = [i]
            out[i] = no
            while todo:
                for j in np.flatnonzero(near[todo.pop()]).tolist():
                    if out[j] == -1:
                        out[j] = no
                        todo.append(j)
    return out, margin


def check(case: dict[str, Any]) -> tuple[bool, list[str]]:
    from instancespace.stages.trace import TraceStage
    x = points(case)
    k = case["k"]
    eps = case["eps"]
    if eps is None:
        eps = reference_eps(x, k)
    if eps == 0 or not np.isfinite(eps):
        return False, ["no radius"]
    want, margin = reference(x, k, eps)
    if case["kind"] != "grid" and margin < 1e-9:
        return False, ["too close to call"]
    keep = x.copy()
    got = attempt(TraceStage.dbscan, x, k, case["eps"], what="TraceStage.dbscan")
    require((x == keep).all(), "the points were changed")
    got = [int(v) for v in np.asarray(got).ravel()]
    eq(len(got), len(x), "number of labels")
    # clusters may be numbered in any order, from 1 without gaps
    ids = sorted(set(v for v in got if v > 0))
    eq(ids, list(range(1, len(ids) + 1)), "cluster numbers")
    require(all(v == -1 or v > 0 for v in got), f"labels {got}")
    pairs = set(zip(got, want))
    require(len(pairs) == len(set(got)) == len(set(want))
            and all((a == -1) == (b == -1) for a, b in pairs),
            f"clusters {got}, expected {want}")
    return len(set(want)) > 1, [case["kind"], f"{len(set(want) - {-1})} clusters"]


def reference_eps(x: Any, k: int) -> float:
    m, n = x.shape
    vol = float(np.prod([max(c) - min(c) for c in x.T.tolist()]))
    return (vol * k * math.gamma(n / 2 + 1) / (m * math.sqrt(math.pi ** n))) ** (1 / n)


def check_eps(case: dict[str, Any]) -> tuple[bool, list[str]]:
    """The radius is that of a ball holding k of the points, if they filled their bounding box."""
    from instancespace.stages.trace import TraceStage
    x = points(case)
    want = reference_eps(x, case["k"])
    got = attempt(TraceStage.epsilon, x, case["k"], what="TraceStage.epsilon")
    require(abs(got - want) <= 1e-9 * (1 + want), f"radius is {got}, expected {want}")
    return want > 0 and len(x) > 3, [f"dim {case['dim']}"]


def check_run(case: dict[str, Any]) -> tuple[bool, list[str]]:
    """The neighbourhood is a twentieth of the instances that are good, between 3 and 50."""
    from instancespace.stages.trace import TraceStage
    x = np.unique(points(case), axis=0)
    good = np.zeros(max(case["k"] * 170, len(x)), bool)
    rng = np.random.default_rng(case["k"])
    good[rng.permutation(len(good))[:max(len(x), case.get("total", 0))]] = True
    k = min(max(-(-int(good.sum()) // 20), 3), 50)
    eps = reference_eps(x, k)
    if len(x) < 3 or eps == 0:
        return False, ["too few"]
    want, margin = reference(x, k, eps)
    if margin < 1e-9:
        return False, ["too close to call"]
    got = [int(v) for v in attempt(TraceStage.run_dbscan, good, x, what="TraceStage.run_dbscan")]
    pairs = set(zip(got, want))
    require(len(pairs) == len(set(got)) == len(set(want))
            and all((a == -1) == (b == -1) for a, b in pairs),
            f"clusters {got}, expected {want} (neighbourhood {k})")
    return k > 3 and len(set(want)) > (len(x) > 50), [f"k {k}"]


@st.composite
def run_st(draw: Any) -> dict[str, Any]:
    c = draw(case_st())
    c["total"] = draw(st.sampled_from([0, 40, 61, 100, 300, 1100]))
    c["k"] = draw(st.integers(2, 8))
    return c


@st.composite
def many_st(draw: Any) -> dict[str, Any]:
    return {"kind": draw(st.sampled_from(["random", "blobs"])), "dim": 2, "k": 8,
            "n": draw(st.integers(60, 400)), "seed": draw(st.integers(0, 2**31)), "eps": None,
            "total": draw(st.sampled_from([0, 200, 500, 790, 850, 950, 999, 1001, 1100, 1300]))}


SUBS = [Sub("clusters", case_st, check, 3000, 100000),
        Sub("radius", case_st, check_eps, 600, 10000),
        Sub("neighbourhood", run_st, check_run, 400, 10000),
        Sub("many", many_st, check_run, 120, 4000)]
