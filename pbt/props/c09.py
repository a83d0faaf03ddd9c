"""C09: filter: purging similar instances, uniformity."""
from __future__ import annotations

from typing import Any

import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, attempt, eq, require
from pbt.gen import filter_reference

RULE = ("generated instances on integer grids and from clusters (duplicates, chains of close "
        "instances, distances exactly at the threshold), all four similarity types; non-trivial "
        "= some instance is removed and some similar one is kept or several instances remain")
ASSUMPTIONS = ["no missing values",
               "threshold comparisons within 1e-9 (except exact Pythagorean/axis ones) are skipped"]
KINDS = ["Ftr", "Ftr&AP", "Ftr&Good", "Ftr&AP&Good"]


@st.composite
def case_st(draw: Any) -> dict[str, Any]:
    big = draw(st.sampled_from([False] * 5 + [True]))
    n = draw(st.integers(11, 45) if big else st.integers(1, 10))
    nf = draw(st.sampled_from([1, 2, 3, 3, 6, 11]) if big else st.integers(1, 3))
    na = draw(st.sampled_from([1, 2, 3, 5, 11]) if big else st.integers(1, 3))
    grid = draw(st.booleans())
    c: dict[str, Any] = {"kind": draw(st.sampled_from(KINDS)), "grid": grid}
    g = st.integers(0, 4)
    rng = np.random.default_rng(draw(st.integers(0, 2**31)) if big else 0)

    def mat(k: int, e: Any) -> Any:
        if big:  # rows from a pool, so that some are equal or close
            pool = draw(st.lists(e, min_size=3, max_size=8))
            return [[pool[int(i)] for i in r] for r in rng.integers(0, len(pool), (n, k))]
        return draw(st.lists(st.lists(e, min_size=k, max_size=k), min_size=n, max_size=n))

    if grid:
        c["x"] = mat(nf, g)
        c["y"] = mat(na, g)
        c["d"] = draw(st.sampled_from([0.5, 1.0, 1.5, 2.0, 0.0, 3.0, *([4.0, 6.0] * big)]))
    else:
        f = st.floats(-2, 2).map(lambda v: round(v, 4))
        c["x"] = mat(nf, f)
        c["y"] = mat(na, f)
        c["d"] = draw(st.sampled_from([0.1, 0.5, 1.01, 2.03]))
    c["far"] = draw(st.sampled_from([0, 0, 0, 1e6, -3e7]))
    c["yb"] = mat(na, st.sampled_from([True, True, False]))
    return c


def check(case: dict[str, Any]) -> tuple[bool, list[str]]:
    from instancespace.utils.filter import compute_uniformity, do_filter, filter_instance

    x, y = np.array(case["x"], float), np.array(case["y"], float)
    x += case.get("far", 0)  # features far away from 0
    yb, d, kind = np.array(case["yb"], bool), case["d"], case["kind"]
    n = len(x)
    rm, dis, visa, margin = filter_reference(x, y, yb, kind, d)
    # on an axis or with exact squares the comparison is exact; elsewhere stay off the boundary
    if not case["grid"] and margin < (1e-9 if not case.get("far") else 1e-6):
        return False, ["boundary"]
    if case["grid"] and "AP" in kind:
        gamma = (y.shape[1] / x.shape[1]) ** 0.5 * d
        for i in range(n):
            for j in range(i):
                dy = float(((y[i] - y[j]) ** 2).sum() ** 0.5)
                if 0 < abs(dy - gamma) < 1e-9 or (abs(dy - gamma) < 1e-9 and dy != round(dy)):
                    return False, ["boundary"]
    x0, y0, b0 = x.copy(), y.copy(), yb.copy()
    got = attempt(filter_instance, x, y, yb, kind, d, what="filter_instance")
    for name, g, w in zip(("removed", "dissimilar", "visa"), got, (rm, dis, visa)):
        eq([bool(v) for v in g], w, f"{name} flags ({kind}, distance {d})")
    kept = [i for i in range(n) if not rm[i]]
    labels = [kind, "grid" if case["grid"] else "floats"]
    if len(kept) >= 3:
        near = [min(float(((x[i] - x[j]) ** 2).sum() ** 0.5) for j in kept if j != i)
                for i in kept]
        mean = sum(near) / len(near)
        if mean > 0:
            sd = (sum((v - mean) ** 2 for v in near) / (len(near) - 1)) ** 0.5
            u = attempt(compute_uniformity, x, np.array(rm), what="compute_uniformity")
            require(abs(u - (1 - sd / mean)) < (1e-9 if not case.get("far") else 1e-6), f"uniformity {u}, expected {1 - sd / mean}")
            full = attempt(do_filter, x, y, yb, kind, d, what="do_filter")
            eq([[bool(v) for v in g] for g in full[:3]], [rm, dis, visa], "do_filter flags")
            require(abs(full[3] - u) < 1e-12, "do_filter uniformity")
            labels.append("uniformity")
    require((x == x0).all() and (y == y0).all() and (yb == b0).all(), "an input was changed")
    if any(visa):
        labels.append("visa")
    if any(rm):
        labels.append("removed")
    return any(rm) and len(kept) > 1, labels


SUBS = [Sub("filter", case_st, check, 6000, 150000)]
