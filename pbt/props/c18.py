"""C18: the colours exported for the web."""
from __future__ import annotations

import csv
import math
import os
import shutil
import tempfile
from fractions import Fraction
from pathlib import Path
from typing import Any

import numpy as np

from pbt.core import Sub, attempt, eq, require
from pbt.models import make, model_st, snapshot
from pbt.props.c17 import read

RULE = ("generated models (columns that do not vary, integers, huge and tiny, negative and missing values); "
        "non-trivial = at least 2 algorithms whose values vary")
ASSUMPTIONS = ["the scale from 0 to 255 is rounded either way where the exact value is within "
               "1e-9 of the next step", "a missing value gets no colour"]


def scale(v: Any, lo: Any, hi: Any) -> Fraction:
    v, lo, hi = Fraction(float(v)), Fraction(float(lo)), Fraction(float(hi))
    return Fraction(0) if hi == lo else 255 * (v - lo) / (hi - lo)


def colours(path: Path, cols: list[str], rows: list[str], v: Any, per_column: bool) -> None:
    require(path.is_file(), f"{path.name} was not written")
    head, labels, cells = read(path)
    eq(head, cols, f"columns of {path.name}")
    eq(labels, rows, f"row labels of {path.name}")
    v = np.asarray(v, float).reshape(len(rows), len(cols))
    for j in range(len(cols)):
        w = v[:, j] if per_column else v
        lo, hi = np.nanmin(w), np.nanmax(w)
        for i in range(len(rows)):
            if np.isnan(v[i, j]):
                eq(cells[i][j], "", f"{path.name}, row {labels[i]!r}, {head[j]!r} (missing)")
                continue
            exact = scale(v[i, j], lo, hi)
            d = Fraction(1, 10 ** 9)
            f = (lambda t: math.floor(t)) if per_column else (lambda t: math.floor(t + Fraction(1, 2)))
            ok = {f(exact - d), f(exact), f(exact + d)}
            got = cells[i][j]
            require(got.lstrip("-").isdigit() and int(got) in ok,
                    f"{path.name}, row {labels[i]!r}, {head[j]!r}: {got}, expected {sorted(ok)} "
                    f"({v[i, j]} between {lo} and {hi})")


def check(case: dict[str, Any]) -> tuple[bool, list[str]]:
    import matplotlib as mpl
    model, _ = make(case)
    before = snapshot(model)
    d = model.data
    insts, feats, algos = case["insts"], case["feats"], case["algos"]
    out = Path(tempfile.mkdtemp(prefix="c18_"))
    try:
        attempt(model.save_for_web, str(out) if case["seed"] % 2 else out,
                what="Model.save_for_web")
        require(snapshot(model) == before, "saving changed the model")
        colours(out / "feature_raw_color.csv", feats, insts, d.x_raw[:, model.feat_sel.idx], True)
        colours(out / "feature_process_color.csv", feats, insts, d.x, True)
        colours(out / "algorithm_raw_single_color.csv", algos, insts, d.y_raw, True)
        colours(out / "algorithm_process_single_color.csv", algos, insts, d.y, True)
        colours(out / "algorithm_raw_color.csv", algos, insts, d.y_raw, False)
        colours(out / "algorithm_process_color.csv", algos, insts, d.y, False)
        colours(out / "good_algos_color.csv", ["NumGoodAlgos"], insts, d.num_good_algos, False)
        with open(out / "color_table.csv", newline="") as f:
            rows = list(csv.reader(f))
        rows = [r[-3:] for r in rows]
        eq(rows[0], ["R", "G", "B"], "columns of color_table.csv")
        eq(len(rows), 257, "rows of color_table.csv")
        for i, r in enumerate(rows[1:]):
            want = mpl.colormaps["viridis"](i / 255)[:3]
            require(all(abs(int(a) - 255 * b) < 1 + 1e-6 and 0 <= int(a) <= 255
                        for a, b in zip(r, want)), f"colour {i} is {r}, viridis has {want}")
        eq(len(os.listdir(out)), 8, "number of files")
    finally:
        shutil.rmtree(out, ignore_errors=True)
    return len(algos) > 1, [case["values"], "constant" if case["const"] else "varied"]


SUBS = [Sub("colours", model_st, check, 500, 12000)]
