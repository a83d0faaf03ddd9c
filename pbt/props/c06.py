"""C06: PRELIM: good algorithms, best performance, best algorithm, easy instances."""
from __future__ import annotations

from fractions import Fraction
from typing import Any

import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, attempt, eq, require

RULE = ("generated performance matrices (dyadic values with many ties, zeros, missing values and "
        "values exactly at the threshold) for minimised/maximised, absolute/relative performance, "
        "any threshold and any easiness threshold, normalisation on and off; non-trivial = some "
        "but not all algorithms are good")
ASSUMPTIONS = ["relative performance is non-negative",
               "an instance has at least one measured algorithm",
               "any of the best algorithms may be reported when they tie"]


@st.composite
def case_st(draw: Any) -> dict[str, Any]:
    n = draw(st.one_of(st.integers(1, 8), st.integers(1, 8), st.integers(9, 40)))
    na = draw(st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(6, 12)))
    if draw(st.integers(0, 40)) == 0:  # beyond what small integer types hold
        n, na = draw(st.sampled_from([(3, 140), (5, 300), (140, 3), (300, 2)]))
    nf = draw(st.integers(1, 3))
    abs_perf = draw(st.booleans())
    val = st.one_of(st.integers(0, 12).map(lambda v: v / 4), st.integers(0, 3).map(float),
                    st.integers(0, 400).map(lambda v: v / 8))
    if abs_perf:
        val = st.one_of(val, val.map(lambda v: -v))
    if n * na > 40:  # many values: drawn from a few, by a seed
        pool = draw(st.lists(st.one_of(val, val, val, val, st.none()), min_size=2, max_size=12))
        rng = np.random.default_rng(draw(st.integers(0, 2**31)))
        rows = [[pool[int(k)] for k in rng.integers(0, len(pool), na)] for _ in range(n)]
    else:
        rows = draw(st.lists(st.lists(st.one_of(val, val, val, val, st.none()), min_size=na,
                                      max_size=na), min_size=n, max_size=n))
    # powers of two keep every ratio and comparison exact
    scale = draw(st.sampled_from([1.0, 1.0, 1.0, 2.0 ** (-40 if abs_perf else -9), 2.0 ** 30]))
    rows = [[None if v is None else v * scale for v in r] for r in rows]
    for r in rows:
        if all(v is None for v in r):
            r[draw(st.integers(0, na - 1))] = draw(val) * scale
    eps = draw(st.sampled_from([0.0, 0.25, 0.5, 0.75, 1.0, 2.0, -0.5] if abs_perf else
                               [0.0, 0.05, 0.125, 0.2, 0.25, 0.5, 0.75, 0.9]))
    if abs_perf:
        eps *= scale
    return {"y": rows, "nf": nf, "abs": abs_perf, "max": draw(st.booleans()), "eps": eps,
            "beta": draw(st.sampled_from([0.0, 0.25, 0.5, 0.55, 0.75, 1.0])),
            "bound": draw(st.booleans()), "norm": draw(st.sampled_from([False, False, True])),
            "seed": draw(st.integers(0, 10**6))}


def check(case: dict[str, Any]) -> tuple[bool, list[str]]:
    import pandas as pd

    from instancespace.data.options import PrelimOptions, SelvarsOptions
    from instancespace.stages.prelim import PrelimInput, PrelimStage

    y = np.array([[np.nan if v is None else v for v in r] for r in case["y"]], dtype=float)
    n, na = y.shape
    norm = case["norm"]
    if norm and (n < 4 or any(len({v for v in y[:, j] if v == v}) < 3 for j in range(na))):
        norm = False  # Box-Cox needs varied columns
    x = np.random.default_rng(case["seed"]).normal(size=(n, case["nf"]))
    if norm and not case["abs"]:
        norm = False  # relative performances may become constant columns
    y0 = y.copy()
    out = attempt(PrelimStage._run, PrelimInput(
        x=x.copy(), y=y, x_raw=x.copy(), y_raw=y.copy(), s=None,
        inst_labels=pd.Series([f"i{k}" for k in range(n)]),
        prelim_options=PrelimOptions(max_perf=case["max"], abs_perf=case["abs"],
                                     epsilon=case["eps"], beta_threshold=case["beta"],
                                     bound=case["bound"], norm=norm),
        selvars_options=SelvarsOptions.default()), what="PrelimStage._run")
    require(np.array_equal(y, y0, equal_nan=True), "the performance given was changed")
    require(np.array_equal(out.y_raw, y0, equal_nan=True), "raw performance was changed")
    eps, labels = case["eps"], set()
    eq(tuple(out.y_bin.shape), (n, na), "shape of y_bin")
    for i in range(n):
        row = [float(v) for v in y0[i]]
        vals = [v for v in row if v == v]
        best = max(vals) if case["max"] else min(vals)
        require(abs(out.y_best[i] - best) <= 1e-12 * max(1, abs(best)),
                f"y_best[{i}] is {out.y_best[i]!r}, expected {best!r}")
        p = int(out.p[i])
        require(1 <= p <= na and row[p - 1] == best,
                f"p[{i}] = {p} is not a best algorithm of {row} (1-based)")
        want: list[bool | None] = []
        for v in row:
            if v != v:
                want.append(False)
                labels.add("missing")
            elif case["abs"]:
                want.append(v >= eps if case["max"] else v <= eps)
                if v == eps:
                    labels.add("at the threshold")
            else:
                if v == best:
                    want.append(True)
                else:
                    q = Fraction(v) / Fraction(best) if case["max"] else Fraction(best) / Fraction(v)
                    gap = 1 - q
                    exact = Fraction(float(q)) == q and Fraction(float(gap)) == gap
                    if exact and gap == Fraction(eps):
                        labels.add("gap at the threshold")
                        want.append(True)
                    else:
                        want.append(None if abs(float(gap) - eps) < 1e-9 else float(gap) <= eps)
                if best == 0:
                    labels.add("zero best")
        got = [bool(b) for b in out.y_bin[i]]
        for j, (g, w) in enumerate(zip(got, want)):
            require(w is None or g == w,
                    f"y_bin[{i},{j}] is {g}, expected {w} for performance {row[j]} (row {row}, "
                    f"threshold {eps})")
        eq(int(out.num_good_algos[i]), sum(got), f"num_good_algos[{i}]")
        eq(bool(out.beta[i]), sum(got) > case["beta"] * na, f"beta[{i}] with {sum(got)}/{na} good")
        if sum(v == best for v in row) > 1:
            labels.add("tie")
        if not case["abs"] and not norm:
            for j, v in enumerate(row):
                if v != v:
                    require(np.isnan(out.y[i, j]), "missing performance became a number")
                elif best > 0:
                    w = 1 - (v / best if case["max"] else best / v)
                    require(abs(out.y[i, j] - w) < 1e-9,
                            f"relative performance y[{i},{j}] is {out.y[i, j]!r}, expected {w}")
                else:  # the best itself, or all of it away from a best of nothing
                    w = 0.0 if v == best else 1.0
                    require(abs(out.y[i, j] - w) < 1e-6,
                            f"relative performance y[{i},{j}] is {out.y[i, j]!r}, expected {w}")
        elif not norm:
            require(np.array_equal(out.y[i], y0[i], equal_nan=True), "y changed without reason")
    good = int(out.y_bin.sum())
    labels.add(("max" if case["max"] else "min") + ("/abs" if case["abs"] else "/rel"))
    if norm:
        labels.add("normalised")
    return 0 < good < n * na, sorted(labels)


SUBS = [Sub("performance", case_st, check, 6000, 150000)]
