"""C08: PRELIM: subsets of instances."""
from __future__ import annotations

import math
import os
import tempfile
from typing import Any

import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, attempt, eq, require
from pbt.gen import filter_reference

RULE = ("generated instances run once complete and once as a fractional, file indexed (1-based "
        "indices in any order, repeated, out of range, in rows or columns, or a missing file) or "
        "density based experiment; non-trivial = a proper, non-empty subset is selected")
ASSUMPTIONS = ["the fraction leaves at least one instance out",
               "no distance within 1e-9 of the density threshold"]
KINDS = ["Ftr", "Ftr&AP", "Ftr&Good", "Ftr&AP&Good"]


@st.composite
def case_st(draw: Any) -> dict[str, Any]:
    n = draw(st.one_of(st.integers(3, 20), st.integers(3, 20), st.sampled_from([31, 50, 64, 110])))
    mode = draw(st.sampled_from(["fraction", "file", "file", "density", "nofile"]))
    c: dict[str, Any] = {
        "n": n, "mode": mode, "nf": draw(st.integers(1, 3)), "na": draw(st.sampled_from([1, 2, 3, 3, 11])),
        "seed": draw(st.integers(0, 2**31)), "source": draw(st.booleans()),
        "norm": draw(st.booleans()), "bound": draw(st.booleans()), "max": draw(st.booleans()),
        "index": draw(st.sampled_from([0, 0, 5, "rev"]))}
    if mode == "fraction":
        c["fraction"] = draw(st.one_of(st.sampled_from([0.1, 0.25, 0.3, 0.5, 0.75]),
                                       st.floats(0.05, 0.9)))
    elif mode == "file":
        c["idx"] = draw(st.lists(st.one_of(st.integers(1, n), st.integers(1, n),
                                           st.sampled_from([0, 1, n, n + 1, n + 7, -1])),
                                 min_size=1, max_size=min(n, 40)))
        c["sep"] = draw(st.sampled_from([",", "\n"]))
        if n == 110 and draw(st.booleans()):  # a long list
            c.update(n=1500, norm=False, idx=list(range(1500, 0, -draw(st.integers(1, 2)))))
    elif mode == "density":
        c["kind"] = draw(st.sampled_from(KINDS))
        c["d"] = draw(st.sampled_from([0.05, 0.3, 0.7, 1.5, 4.0, 1, 2]))
    return c


ROWS = ["x", "y", "x_raw", "y_raw", "y_bin", "y_best", "p", "num_good_algos", "beta",
        "inst_labels", "s"]


def check(case: dict[str, Any]) -> tuple[bool, list[str]]:
    import pandas as pd

    from instancespace.data.options import PrelimOptions, SelvarsOptions
    from instancespace.stages.prelim import PrelimInput, PrelimStage

    n = case["n"]
    rng = np.random.default_rng(case["seed"])
    x, y = rng.normal(size=(n, case["nf"])), rng.exponential(size=(n, case["na"]))
    names = [f"inst_{k}" for k in range(n)]
    idx = list(range(n))[::-1] if case["index"] == "rev" else (
        range(case["index"], case["index"] + n))

    def run(sel: Any) -> Any:
        return attempt(PrelimStage._run, PrelimInput(
            x=x.copy(), y=y.copy(), x_raw=x.copy(), y_raw=y.copy(),
            s=pd.Series([f"s{k}" for k in range(n)], index=idx) if case["source"] else None,
            inst_labels=pd.Series(names, index=idx),
            prelim_options=PrelimOptions(max_perf=case["max"], abs_perf=True, epsilon=0.7,
                                         beta_threshold=0.5, bound=case["bound"],
                                         norm=case["norm"] and n > 4),
            selvars_options=sel), what=f"PrelimStage._run ({case['mode']})")

    full = run(SelvarsOptions.default())
    require(full.data_dense is None, "dense data without a density based experiment")
    eq(list(full.inst_labels), names, "instances of the complete experiment")
    want: list[int] | None = None
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "idx.csv")
        mode = case["mode"]
        if mode == "fraction":
            k = math.ceil(n * case["fraction"])
            if k >= n:
                return False, ["everything"]
            sel = SelvarsOptions.default(small_scale_flag=True, small_scale=case["fraction"])
        elif mode == "density":
            rm, _, _, margin = filter_reference(full.x, full.y, full.y_bin, case["kind"],
                                                case["d"])
            if margin < 1e-9:
                return False, ["boundary"]
            want = [i for i in range(n) if not rm[i]]
            sel = SelvarsOptions.default(density_flag=True, min_distance=case["d"],
                                         selvars_type=case["kind"])
        else:
            sel = SelvarsOptions.default(file_idx_flag=True, file_idx=path)
            if mode == "file":
                with open(path, "w") as f:
                    f.write(case["sep"].join(map(str, case["idx"])) + "\n")
                want = sorted({i - 1 for i in case["idx"] if 1 <= i <= n})
                if not want:
                    return False, ["no valid index"]
            else:
                want = list(range(n))
        sub = run(sel)
        again = run(sel) if mode == "fraction" else sub
    got = [names.index(v) for v in sub.inst_labels]
    if mode == "fraction":
        eq(len(got), k, f"instances selected for fraction {case['fraction']} of {n}")
        eq(list(again.inst_labels), list(sub.inst_labels), "the same experiment again")
        require(got == sorted(set(got)), "instances repeated or reordered")
        want = got
    eq(got, want, f"instances selected ({mode})")
    for f in ROWS:
        a, b = getattr(full, f), getattr(sub, f)
        if f == "s" and not case["source"]:
            require(b is None, "sources appeared")
            continue
        a, b = np.asarray(a), np.asarray(b)
        require(a[want].shape == b.shape and (a[want] == b).all(),
                f"{f} of the subset is not {f} of the selected instances")
    for f in ("med_val", "iq_range", "lambda_x", "mu_x", "sigma_x", "lambda_y", "mu_y", "sigma_y"):
        require(np.array_equal(getattr(full, f), getattr(sub, f)), f"{f} depends on the subset")
    if mode == "density":
        require(sub.data_dense is not None, "no dense data")
        for f in ROWS:
            a, b = getattr(full, f), getattr(sub.data_dense, f)
            if f == "s" and not case["source"]:
                continue
            require(np.array_equal(np.asarray(a), np.asarray(b)),
                    f"dense {f} is not the complete {f}")
    else:
        require(sub.data_dense is None, "dense data without a density based experiment")
    return 0 < len(got) < n, [mode, "last instance" if n - 1 in got else "without last"]


SUBS = [Sub("subsets", case_st, check, 1200, 30000)]
