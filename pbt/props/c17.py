"""C17: the CSV files of a model hold its data."""
from __future__ import annotations

import csv
import os
import shutil
import tempfile
from pathlib import Path
from typing import Any

import numpy as np

from pbt.core import Sub, Violation, attempt, eq, require
from pbt.models import make, model_st, snapshot

RULE = ("generated models (labels with separators, quotes and non-ASCII characters, row indices "
        "with gaps, huge and tiny values, footprints of one or several parts, with holes or "
        "empty); non-trivial = at least 2 algorithms and an outline to write")
ASSUMPTIONS = ["labels contain no line breaks; labels of algorithms are distinct and fit in a file "
               "name", "whether the first corner of an outline is repeated at the end of a part is "
               "left open"]


def read(path: Path) -> tuple[list[str], list[str], list[list[str]]]:
    with open(path, newline="", encoding="utf-8") as f:
        rows = list(csv.reader(f))
    head = rows[0]
    eq(head[0], "Row", f"heading of the row labels in {path.name}")
    return head[1:], [r[0] for r in rows[1:]], [r[1:] for r in rows[1:]]


def numbers(cells: list[list[str]], width: int) -> Any:
    def one(s: str) -> float:
        return {"True": 1.0, "False": 0.0}.get(s, float("nan") if s == "" else None) \
            if s in ("True", "False", "") else float(s)
    return np.array([[one(s) for s in r] for r in cells], float).reshape(len(cells), width)


def table(path: Path, cols: list[str], rows: list[str], want: Any) -> None:
    require(path.is_file(), f"{path.name} was not written")
    head, labels, cells = read(path)
    eq(head, cols, f"columns of {path.name}")
    eq(labels, rows, f"row labels of {path.name}")
    got = numbers(cells, len(cols))
    want = np.asarray(want, float).reshape(len(rows), len(cols))
    bad = ~((got == want) | (np.isnan(got) & np.isnan(want))
            | (np.abs(got - want) <= 1e-13 * np.abs(want)))
    if bad.any():
        i, j = np.argwhere(bad)[0]
        raise Violation(f"{path.name}, row {labels[i]!r}, column {head[j]!r}: "
                        f"{got[i, j]!r}, the model has {want[i, j]!r}")


def frame(path: Path, df: Any, cols: list[Any]) -> None:
    """A summary table: first column named Row, then the given columns."""
    require(path.is_file(), f"{path.name} was not written")
    with open(path, newline="", encoding="utf-8") as f:
        rows = list(csv.reader(f))
    eq(rows[0], ["Row", *[str(c) for c in cols[1:]]], f"columns of {path.name}")
    eq(len(rows) - 1, len(df), f"number of rows of {path.name}")
    for i, r in enumerate(rows[1:]):
        for s, c in zip(r, cols):
            v = df.iloc[i][c]
            if isinstance(v, str):
                eq(s, v, f"{path.name}, row {i}, {c}")
            else:
                require(abs(float(s) - float(v)) <= 1e-13 * abs(float(v)),
                        f"{path.name}, row {i}, {c}: {s}, the model has {v}")


def outline(path: Path, fp: Any, parts: list[Any]) -> None:
    if fp.polygon is None:
        require(not path.exists(), f"{path.name} was written for no outline")
        return
    require(path.is_file(), f"{path.name} was not written")
    head, labels, cells = read(path)
    eq(head, ["z_1", "z_2"], f"columns of {path.name}")
    eq(labels, [f"bnd_pnt_{i + 1}" for i in range(len(labels))], f"row labels of {path.name}")
    got = [(float(a), float(b)) for a, b in cells]
    left = [[(float(x), float(y)) for x, y in p] for p in parts]
    at = 0
    while left:
        # parts may come in any order, a part may start at any corner and run either way
        for p in left:
            k = len(p)
            piece = got[at:at + k]
            if len(piece) == k and sorted(piece) == sorted(p):
                s = p.index(piece[0])
                fwd = p[s:] + p[:s]
                require(piece == fwd or piece == [fwd[0], *reversed(fwd[1:])],
                        f"{path.name}: corners are out of order")
                at += k
                if got[at:at + 1] == piece[:1]:
                    at += 1
                left.remove(p)
                break
        else:
            raise Violation(f"{path.name}: corners {got} from row {at + 1} are not those of a part")
    eq(len(got) - at, 0, f"{path.name}: corners that are not in the outline")


def check(case: dict[str, Any]) -> tuple[bool, list[str]]:
    model, corners = make(case)
    before = snapshot(model)
    d = model.data
    out = Path(tempfile.mkdtemp(prefix="c17_"))
    try:
        attempt(model.save_to_csv, str(out) if case["seed"] % 2 else out, what="Model.save_to_csv")
        require(snapshot(model) == before, "saving changed the model")
        insts, feats, algos = case["insts"], case["feats"], case["algos"]
        table(out / "coordinates.csv", ["z_1", "z_2"], insts, model.pilot.z)
        table(out / "feature_raw.csv", feats, insts, d.x_raw[:, model.sifted.idx])
        table(out / "feature_process.csv", feats, insts, d.x)
        table(out / "algorithm_raw.csv", algos, insts, d.y_raw)
        table(out / "algorithm_process.csv", algos, insts, d.y)
        table(out / "algorithm_bin.csv", algos, insts, d.y_bin)
        table(out / "good_algos.csv", ["NumGoodAlgos"], insts, d.num_good_algos)
        table(out / "beta_easy.csv", ["IsBetaEasy"], insts, d.beta)
        table(out / "portfolio.csv", ["Best_Algorithm"], insts, d.p)
        table(out / "algorithm_svm.csv", algos, insts, model.pythia.y_hat)
        table(out / "portfolio_svm.csv", ["Best_Algorithm"], insts, model.pythia.selection0)
        if case["cloister"]:
            for nm, v in (("bounds.csv", model.cloister.z_edge),
                          ("bounds_prunned.csv", model.cloister.z_ecorr)):
                table(out / nm, ["z_1", "z_2"], [f"bnd_pnt_{i + 1}" for i in range(len(v))], v)
        for kind in ("best", "good"):
            for i, a in enumerate(algos):
                outline(out / f"footprint_{a}_{kind}.csv", getattr(model.trace, kind)[i],
                        corners[kind][i])
        ts = model.trace.summary
        frame(out / "footprint_performance.csv", ts,
              [ts.columns[j] for j in (0, 2, 4, 5, 7, 9, 10)])
        if case["pilot_summary"]:
            frame(out / "projection_matrix.csv", model.pilot.summary, list(model.pilot.summary))
        frame(out / "svm_table.csv", model.pythia.summary, list(model.pythia.summary))
        want = {"coordinates", "feature_raw", "feature_process", "algorithm_raw",
                "algorithm_process", "algorithm_bin", "good_algos", "beta_easy", "portfolio",
                "algorithm_svm", "portfolio_svm", "footprint_performance", "svm_table"}
        want |= {"bounds", "bounds_prunned"} if case["cloister"] else set()
        want |= {"projection_matrix"} if case["pilot_summary"] else set()
        want |= {f"footprint_{a}_{k}" for k in ("best", "good") for i, a in enumerate(algos)
                 if getattr(model.trace, k)[i].polygon is not None}
        eq(sorted(os.listdir(out)), sorted(f"{w}.csv" for w in want), "files written")
        # saving again gives the same files
        first = {f: (out / f).read_bytes() for f in os.listdir(out)}
        attempt(model.save_to_csv, out, what="Model.save_to_csv (again)")
        require(first == {f: (out / f).read_bytes() for f in os.listdir(out)},
                "saving again changed the files")
    finally:
        shutil.rmtree(out, ignore_errors=True)
    return len(algos) > 1 and any(corners["best"] + corners["good"]), sorted(
        set(case["best"] + case["good"]))[:2] + [case["values"]]


def check_missing(case: dict[str, Any]) -> tuple[bool, list[str]]:
    """A folder that is not there is refused, whatever is saved."""
    model, _ = make(case)
    out = Path(tempfile.mkdtemp(prefix="c17_"))
    try:
        for fn in (model.save_to_csv, model.save_for_web, model.save_graphs):
            try:
                fn(out / "not there")
            except ValueError:
                continue
            raise Violation(f"{fn.__name__} to a folder that does not exist was not refused")
        eq(os.listdir(out), [], "files written")
    finally:
        shutil.rmtree(out, ignore_errors=True)
    return True, []


SUBS = [Sub("files", model_st, check, 500, 12000),
        Sub("missing folder", model_st, check_missing, 40, 400)]
