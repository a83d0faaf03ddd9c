"""C07: PRELIM: bounding of outliers and normalisation."""
from __future__ import annotations

from typing import Any

import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, attempt, require
from pbt.gen import midpoint_iqr

RULE = ("generated feature and performance columns of several shapes (normal, skewed, heavy "
        "tailed with outliers, integer-valued with ties, different scales) with missing values, "
        "bounding and normalisation on or off; non-trivial = bounding clips a value or "
        "normalisation is on")
ASSUMPTIONS = ["columns are constant or have at least 4 distinct values; scales between 1e-2 and 1e7"]

SHAPES = ["normal", "skewed", "tails", "ints", "outlier_hi", "outlier_lo", "uniform", "constant"]


@st.composite
def case_st(draw: Any) -> dict[str, Any]:
    n = draw(st.one_of(st.integers(8, 40), st.integers(8, 40), st.integers(5, 8),
                       st.sampled_from([64, 101, 150, 257])))
    cols = st.lists(st.tuples(st.sampled_from(SHAPES), st.sampled_from([0.01, 1.0, 30.0, 1000.0, 1e7]),
                              st.sampled_from([0.0, -5.0, 100.0]),
                              st.sampled_from([0, 0, 1, 3])).map(list), min_size=1, max_size=draw(st.sampled_from([4, 4, 4, 11])))
    return {"n": n, "x": draw(cols), "y": draw(cols), "seed": draw(st.integers(0, 2**31)),
            "bound": draw(st.booleans()), "norm": draw(st.booleans()),
            "max": draw(st.booleans()), "abs": draw(st.sampled_from([True, True, False])),
            "neg": draw(st.booleans()), "inf": draw(st.sampled_from([0, 0, 0, 1, -1, 2]))}


def column(rng: Any, n: int, spec: list[Any], positive: bool = False) -> Any:
    shape, scale, loc, nmiss = spec
    v = {"normal": lambda: rng.normal(size=n), "skewed": lambda: rng.exponential(size=n) ** 2,
         "tails": lambda: rng.standard_t(2, size=n), "ints": lambda: rng.integers(0, 6, n) * 1.0,
         "outlier_hi": lambda: rng.normal(size=n), "outlier_lo": lambda: rng.normal(size=n),
         "uniform": lambda: rng.random(n), "constant": lambda: np.ones(n)}[shape]()
    if shape.startswith("outlier"):
        v[rng.integers(n)] += (60 if shape.endswith("hi") else -60)
    v = v * scale + (0 if positive else loc)
    if positive:
        v = np.abs(v) + scale
    v[rng.choice(n, size=nmiss, replace=False)] = np.nan
    return v


def check_norm(raw: Any, got: Any, lam: float, mu: float, sigma: float, what: str,
               optimal: bool) -> None:
    from scipy import special

    ok = ~np.isnan(raw)
    require(np.array_equal(~np.isnan(got), ok), f"{what}: missing values moved")
    v = raw[ok]
    if (v == v[0]).all():
        require((got[ok] == 0).all(), f"{what}: a constant is not normalised to 0: {got[ok]!r}")
        return
    z = special.boxcox(v, lam)
    require(np.isfinite(got[ok]).all(), f"{what}: not finite: {got[ok]!r}")
    require(np.isfinite(lam) and abs(float(z.mean()) - mu) <= 1e-6 * max(1, abs(mu)),
            f"{what}: mean reported {mu!r}, is {z.mean()!r}")
    sd = float(np.std(z, ddof=1))
    require(abs(sd - sigma) <= 1e-6 * sd + 1e-9 * abs(mu), f"{what}: sd reported {sigma!r}, is {sd!r}")
    if sd > 1e-6 * abs(mu):
        g = got[ok]
        require(np.allclose(g, (z - mu) / sigma, rtol=1e-5, atol=1e-5),
                f"{what}: not the z-scored Box-Cox transform with the reported parameters")
        require(abs(g.mean()) < 1e-6 and abs(np.std(g, ddof=1) - 1) < 1e-6,
                f"{what}: mean {g.mean()}, sd {np.std(g, ddof=1)}")
        o = np.argsort(v, kind="stable")
        require((np.diff(g[o]) >= -1e-9).all(), f"{what}: the order of the values changed")
    if optimal:
        def llf(t: float) -> float:
            w = special.boxcox(v, t)
            return float((t - 1) * np.log(v).sum() - len(v) / 2 * np.log(w.var()))
        here = llf(lam)
        for t in np.concatenate([np.linspace(lam - 1, lam + 1, 41), [0.0, 1.0]]):
            require(llf(t) <= here + 1e-3 * max(1.0, abs(here)) or not np.isfinite(llf(t)),
                    f"{what}: lambda {lam} is less likely than {t}")


def check(case: dict[str, Any]) -> tuple[bool, list[str]]:
    import pandas as pd

    from instancespace.data.options import PrelimOptions, SelvarsOptions
    from instancespace.stages.prelim import PrelimInput, PrelimStage

    n = case["n"]
    rng = np.random.default_rng(case["seed"])
    x = np.column_stack([column(rng, n, s) for s in case["x"]])
    # absolute performance may have any sign
    neg = case["neg"] and case["abs"]
    y = np.column_stack([column(rng, n, s, positive=not neg) for s in case["y"]])
    for i in range(n):
        if np.isnan(y[i]).all():
            y[i, 0] = 1.5
    for m in (x, y):
        for j in range(m.shape[1]):
            v = m[~np.isnan(m[:, j]), j]
            if 1 < len(set(v.tolist())) < 4:
                return False, ["near-constant column"]
    bound, norm, absp = case["bound"], case["norm"], case["abs"]
    if bound and case["inf"] and n >= 16:  # infinite outliers
        for k in range(abs(case["inf"])):
            i, j = int(rng.integers(n)), int(rng.integers(x.shape[1]))
            if not np.isnan(x[i, j]):
                x[i, j] = np.inf if case["inf"] > 0 and k == 0 else -np.inf
    x0, y0 = x.copy(), y.copy()
    xr, yr = x.copy(), y.copy()
    out = attempt(PrelimStage._run, PrelimInput(
        x=x, y=y, x_raw=xr, y_raw=yr, s=None, inst_labels=pd.Series(range(n)).astype(str),
        prelim_options=PrelimOptions(max_perf=case["max"], abs_perf=absp, epsilon=0.2,
                                     beta_threshold=0.5, bound=bound, norm=norm),
        selvars_options=SelvarsOptions.default()), what="PrelimStage._run")
    for name, a, b in (("x_raw", out.x_raw, x0), ("y_raw", out.y_raw, y0), ("input x", x, x0),
                       ("input y", y, y0)):
        require(np.array_equal(a, b, equal_nan=True), f"{name} was changed")
    labels = []
    clipped = False
    wx = x0.copy()
    for j in range(x0.shape[1]):
        v = x0[~np.isnan(x0[:, j]), j]
        med, iqr = float(np.median(v)), midpoint_iqr(v)
        tol = 1e-9 * (abs(med) + iqr + 1)
        for got, want, name in ((out.med_val[j], med, "med_val"),
                                (out.iq_range[j], iqr, "iq_range"),
                                (out.hi_bound[j], med + 5 * iqr, "hi_bound"),
                                (out.lo_bound[j], med - 5 * iqr, "lo_bound")):
            require(abs(got - want) <= tol, f"{name}[{j}] is {got!r}, expected {want!r}")
        if bound:
            c = np.clip(x0[:, j], med - 5 * iqr, med + 5 * iqr)
            clipped |= bool((np.abs(c - x0[:, j]) > tol).any())
            wx[:, j] = c
    if bound:
        labels.append("clips" if clipped else "nothing to clip")
    if not norm:
        require(np.allclose(out.x, wx, rtol=1e-9, atol=1e-9, equal_nan=True),
                "features are not the bounded input")
        if not bound:
            require(np.array_equal(out.x, x0, equal_nan=True), "features changed for no reason")
        if absp:
            require(np.array_equal(out.y, y0, equal_nan=True), "performance changed for no reason")
        return clipped, labels + ["bound only"]
    for j in range(wx.shape[1]):
        v = wx[~np.isnan(wx[:, j]), j]
        require(abs(out.min_x[j] - v.min()) <= 1e-9 * max(1, abs(v.min())), f"min_x[{j}]")
        if 1 < len(np.unique(v)) < 3:
            return False, ["near-constant column"]
        check_norm(wx[:, j] - v.min() + 1, out.x[:, j], out.lambda_x[j], out.mu_x[j],
                   out.sigma_x[j], f"feature {j}", True)
    wy = y0
    if not absp:
        wy = (1 - y0 / np.nanmax(y0, axis=1)[:, None] if case["max"]
              else 1 - np.nanmin(y0, axis=1)[:, None] / y0)
    lo = float(np.nanmin(wy))
    require(abs(out.min_y - lo) <= 1e-9 * max(1, abs(lo)), f"min_y is {out.min_y}, expected {lo}")
    for j in range(wy.shape[1]):
        check_norm((wy[:, j] - lo) + np.finfo(float).eps, out.y[:, j], out.lambda_y[j],
                   out.mu_y[j], out.sigma_y[j], f"performance {j}", False)
    if np.isnan(x0).any() or np.isnan(y0).any():
        labels.append("missing values")
    return True, labels + ["normalised" + ("" if absp else "/relative")]


# Box-Cox used to overflow on the second performance
FAR = {"abs": True, "bound": False, "max": False, "n": 8, "neg": True, "norm": True, "seed": 0,
       "x": [["normal", 0.01, 0.0, 0]],
       "y": [["normal", 0.01, 0.0, 0], ["ints", 30.0, -5.0, 0]]}

SUBS = [Sub("transform", case_st, check, 1600, 40000, pinned=[FAR])]
