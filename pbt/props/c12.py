"""C12: CLOISTER: boundaries of the instance space."""
from __future__ import annotations

import itertools
from typing import Any

import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, attempt, require
from pbt.gen import pearson, polygon_contains, signed_area

RULE = ("generated feature matrices with positive, negative and no correlations, any projection "
        "matrix and any thresholds; the boundary is compared with the 2^n corners of the feature "
        "ranges enumerated independently; non-trivial = the correlations exclude a corner")
ASSUMPTIONS = ["features are centred (their minimum is negative, their maximum positive)",
               "no correlation within 1e-9 of a threshold; remaining corners not nearly collinear"]


@st.composite
def case_st(draw: Any) -> dict[str, Any]:
    n = draw(st.sampled_from([2, 3, 3, 4, 4, 5, 6, 7, 9]))
    return {"n": n, "N": draw(st.one_of(st.integers(6, 40), st.integers(6, 40),
                                        st.sampled_from([70, 110, 200]))), "seed": draw(st.integers(0, 2**31)),
            "link": draw(st.lists(st.sampled_from([0, 0, 1, -1, 3, -3, 10, -10]), min_size=n,
                                  max_size=n)),
            "a": draw(st.one_of(st.none(), st.lists(st.lists(
                st.integers(-3, 3), min_size=n, max_size=n), min_size=2, max_size=2))),
            "p": draw(st.sampled_from([0.05, 0.01, 0.5, 1.0, 0.0])),
            "c": draw(st.sampled_from([0.7, 0.3, 0.5, 0.9, 0.0, 1.0])),
            "ints": draw(st.booleans())}


def hull_ok(got: Any, corners: Any, what: str) -> None:
    scale = float(np.abs(corners).max()) + 1e-12
    require(got.ndim == 2 and got.shape[1] == 2 and len(got) >= 3,
            f"{what} has shape {got.shape}")
    for v in got:
        require(float(np.abs(corners - v).max(axis=1).min()) <= 1e-9 * scale,
                f"{what}: vertex {v.tolist()} is not a corner of the feature ranges")
    poly = got if signed_area(got) > 0 else got[::-1]
    k = len(poly)
    for i in range(k):
        p, q, r = poly[i], poly[(i + 1) % k], poly[(i + 2) % k]
        cr = (q[0] - p[0]) * (r[1] - q[1]) - (q[1] - p[1]) * (r[0] - q[0])
        require(cr > -1e-9 * scale ** 2, f"{what} is not convex in the order given")
    out = polygon_contains(poly, corners)
    require(out <= 1e-8 * scale, f"{what} leaves out a permitted corner by {out}")


def degenerate(c: Any) -> int:
    """0: spans an area, 1: clearly flat, 2: too close to call."""
    if len(c) < 3:
        return 1
    d = c - c.mean(axis=0)
    s = np.linalg.svd(d, compute_uv=False)
    r = s[1] / s[0] if s[0] > 0 else 0.0
    return 0 if r > 1e-4 else 2 if r > 0 and s[0] > 0 and r > 1e-16 else 1


def check(case: dict[str, Any]) -> tuple[bool, list[str]]:
    from instancespace.data.options import CloisterOptions
    from instancespace.stages.cloister import CloisterInput, CloisterStage

    rng = np.random.default_rng(case["seed"])
    N, n = case["N"], case["n"]
    base = rng.normal(size=N)
    x = np.column_stack([k * base + rng.normal(size=N) for k in case["link"]])
    x = (x - x.mean(axis=0)) / x.std(axis=0)
    if case["ints"]:
        x = np.round(3 * x) + 0.25
    if (x.min(axis=0) >= 0).any() or (x.max(axis=0) <= 0).any():
        return False, ["not centred"]
    a = rng.normal(size=(2, n)) if case["a"] is None else np.array(case["a"], float)
    r, p = pearson(x, x)
    np.fill_diagonal(r, 0)
    off = ~np.eye(n, dtype=bool)
    if ((np.abs(np.abs(r) - case["c"]) < 1e-9) & off).any() or \
            ((np.abs(p - case["p"]) < 1e-12) & off).any():
        return False, ["boundary"]
    r = np.where(p > case["p"], 0.0, r)
    lo, hi = x.min(axis=0), x.max(axis=0)
    corners, allowed = [], []
    for bits in itertools.product([0, 1], repeat=n):
        corners.append([hi[j] if b else lo[j] for j, b in enumerate(bits)])
        allowed.append(not any(
            (r[j, k] > case["c"] and bits[j] != bits[k])
            or (r[j, k] < -case["c"] and bits[j] == bits[k])
            for j in range(n) for k in range(j)))
    z = np.array(corners) @ a.T
    ze = z[np.array(allowed)]
    kinds = degenerate(z), degenerate(ze)
    if 2 in kinds:
        return False, ["nearly flat"]
    x0, a0 = x.copy(), a.copy()
    out = attempt(CloisterStage._run, CloisterInput(
        x, a, CloisterOptions(p_val=case["p"], c_thres=case["c"])), what="CloisterStage._run")
    require((x == x0).all() and (a == a0).all(), "an input was changed")
    labels = ["unconstrained" if all(allowed) else "constrained"]
    if kinds[0] == 1:
        require(out.z_edge.size == 0, "an area although the projection is flat")
        return False, ["flat projection"]
    hull_ok(np.asarray(out.z_edge), z, "z_edge")
    inst = x @ a.T
    e = out.z_edge if signed_area(out.z_edge) > 0 else out.z_edge[::-1]
    require(polygon_contains(e, inst) <= 1e-8 * (1 + np.abs(z).max()), "an instance lies outside")
    if kinds[1] == 1:
        require(np.array_equal(out.z_ecorr, out.z_edge),
                "z_ecorr is not z_edge although too few corners remain")
        labels.append("too strict")
    else:
        hull_ok(np.asarray(out.z_ecorr), ze, "z_ecorr")
    return not all(allowed), labels


SUBS = [Sub("boundaries", case_st, check, 2400, 60000)]
