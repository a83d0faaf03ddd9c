"""C04: metadata: DataFrame / CSV file -> Metadata."""
from __future__ import annotations

import math
import os
import tempfile
from typing import Any

from hypothesis import strategies as st

from pbt.core import Sub, attempt, eq, require

RULE = ("generated metadata tables (columns in any order, headers in any case, extra columns, "
        "missing cells, with or without sources, 1..60 rows, labels that are words, numbers or look "
        "like numbers) given as a DataFrame and as a CSV file (with or without byte order mark, "
        "quotes, CRLF, surplus delimiters), plus files that are not metadata; non-trivial = at least "
        "one feature and one algorithm column, or a bad file")
ASSUMPTIONS = ["exactly one 'Instances' column; names are unique",
               "an empty cell (and nothing else) is a missing label or source"]

FLOATS = st.one_of(
    st.floats(-1e6, 1e6).map(lambda v: float(f"{v:.9g}")),
    st.integers(-50, 50), st.sampled_from([0.0, -0.5, 1e-7, 1e12]))
WORD = st.text("abcdefgxyzABC_-0123456789 .", min_size=0, max_size=6).map(
    lambda s: "w" + s.rstrip() + "q")


@st.composite
def casing(draw: Any, s: str) -> str:
    return draw(st.sampled_from([s, s.upper(), s.lower(), s.title()]))


# text that looks like a number, a date or a truth value
LOOKS = st.sampled_from(["007", "08", "1.10", "1.1", "1e5", "+3", "-0", "0x1F", "1_000", "True", "False",
                         "2020-01-01", "12345678901234567890123", "0.1000", "1.", "inf1", "  7", "NA", "N/A", "null", "NULL", "None",
                         "nan", "NaN", "n/a", "inf", "-"])


@st.composite
def table(draw: Any) -> dict[str, Any]:
    n = draw(st.one_of(st.just(1), st.integers(1, 6), st.integers(1, 6), st.integers(1, 6),
                       st.integers(1, 6), st.sampled_from([12, 60, 60, 700])))
    size = n
    n = min(n, 60)  # longer ones repeat
    cols: list[dict[str, Any]] = []
    names: set[str] = set()

    def add(name: str, role: str, values: list[Any]) -> None:
        if name.lower() not in names:
            names.add(name.lower())
            cols.append({"name": name, "role": role, "values": values})

    labels: list[Any] = draw(st.sampled_from([
        st.integers(0, 10**6), WORD, WORD, LOOKS, st.one_of(WORD, LOOKS),
        st.integers(-4000, 4000).map(lambda v: v / 8), st.booleans(),
    ]).flatmap(lambda e: st.lists(e, min_size=n, max_size=n)))
    add(draw(casing("Instances")), "name", labels)
    if draw(st.booleans()):
        add(draw(casing("Source")), "source", draw(st.sampled_from(
            [WORD, LOOKS, WORD, LOOKS, st.one_of(WORD, st.none()), st.none()]).flatmap(
            lambda e: st.lists(e, min_size=n, max_size=n))))
    suffix = st.one_of(
        st.text("abcXYZ_019 ", max_size=5).map(lambda s: s.strip() or "q"),
        st.sampled_from(["", "(a)", "-1", "%", "é", ".5", "feature_1", "algo_2", "source"]))
    cell = st.one_of(FLOATS, FLOATS, FLOATS, st.none())
    for prefix, role in (("feature_", "feat"), ("algo_", "algo")):
        for _ in range(draw(st.integers(1, 4))):
            add(draw(casing(prefix)) + draw(suffix), role,
                draw(st.lists(cell, min_size=n, max_size=n)))
    for _ in range(draw(st.integers(0, 2))):
        add(draw(st.sampled_from(["notes", "featureX", "algoX", "my_feature_a", "xalgo_1",
                                  "sources", "instance", "bestalgo"])), "other",
            draw(st.lists(st.one_of(WORD, FLOATS), min_size=n, max_size=n)))
    for c in cols:
        c["values"] = [c["values"][i % n] for i in range(size)]
    order = draw(st.permutations(range(len(cols))))
    return {"cols": [cols[i] for i in order], "bom": draw(st.booleans()),
            "quote": draw(st.booleans()), "crlf": draw(st.booleans()),
            "surplus": draw(st.integers(0, 3)) == 0}


def write_csv(path: str, case: dict[str, Any]) -> None:
    end = "\r\n" if case["crlf"] else "\n"
    mark = '"' if case["quote"] else ""
    with open(path, "w", encoding="utf-8-sig" if case["bom"] else "utf-8", newline="") as f:
        f.write(",".join(mark + c["name"] + mark for c in case["cols"]) + end)
        for row in zip(*(c["values"] for c in case["cols"])):
            f.write(",".join("" if v is None else repr(v) if not isinstance(v, str)
                             else mark + v + mark for v in row)
                    + ("," if case["surplus"] else "") + end)


def expect(case: dict[str, Any], m: Any, what: str) -> None:
    def close(a: Any, b: Any) -> bool:
        if b is None:
            return isinstance(a, float) and math.isnan(a)
        return math.isclose(float(a), b, rel_tol=1e-12, abs_tol=1e-300)

    n = len(case["cols"][0]["values"])
    for role, names, mat in (("feat", m.feature_names, m.features),
                             ("algo", m.algorithm_names, m.algorithms)):
        cols = [c for c in case["cols"] if c["role"] == role]
        eq(list(names), [c["name"] for c in cols], f"{what}: {role} names")
        eq(tuple(mat.shape), (n, len(cols)), f"{what}: {role} shape")
        require(mat.dtype.kind in "fiu", f"{what}: {role} matrix has dtype {mat.dtype}")
        for j, c in enumerate(cols):
            for i, v in enumerate(c["values"]):
                require(close(mat[i, j].item(), v),
                        f"{what}: {role} {c['name']!r} row {i} is {mat[i, j]!r}, expected {v!r}")
    labels = next(c for c in case["cols"] if c["role"] == "name")["values"]
    require(hasattr(m.instance_labels, "tolist"), f"{what}: instance labels are not a series")
    eq(m.instance_labels.tolist(), [str(v) for v in labels], f"{what}: instance labels")
    src = [c for c in case["cols"] if c["role"] == "source"]
    if not src:
        require(m.instance_sources is None, f"{what}: sources without a source column")
    else:
        require(hasattr(m.instance_sources, "tolist"), f"{what}: sources are not a series")
        eq([None if v is None or v != v else v for v in m.instance_sources.tolist()],
           src[0]["values"], f"{what}: sources")


def check_table(case: dict[str, Any]) -> tuple[bool, list[str]]:
    import numpy as np
    import pandas as pd

    from instancespace.data.metadata import Metadata, from_csv_file

    df = pd.DataFrame({c["name"]: [np.nan if v is None else v for v in c["values"]]
                       for c in case["cols"]})
    copy = df.copy(deep=True)
    expect(case, attempt(Metadata.from_data_frame, df, what="from_data_frame"), "data frame")
    require(df.equals(copy) and list(df.columns) == list(copy.columns), "the frame was changed")
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "metadata.csv")
        write_csv(path, case)
        m = attempt(from_csv_file, path, what="from_csv_file")
        require(m is not None, "a readable file was refused")
        expect(case, m, "csv file")
    rows = len(copy)
    return True, ["1 row" if rows == 1 else "n rows",
                  "source" if any(c["role"] == "source" for c in case["cols"]) else "no source",
                  "missing cells" if copy.isna().any().any() else "complete"]


BAD = st.fixed_dictionaries({
    "kind": st.sampled_from(["missing", "dir", "empty", "ragged", "undecodable", "missing_dir"]),
    "as_path": st.booleans(), "n": st.integers(1, 5)})


def check_bad(case: dict[str, Any]) -> tuple[bool, list[str]]:
    from pathlib import Path

    from instancespace.data.metadata import from_csv_file

    kind = case["kind"]
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "m.csv")
        head = "Instances,feature_a,algo_b\n"
        if kind == "dir":
            os.mkdir(path)
        elif kind == "missing_dir":
            path = os.path.join(d, "no", "m.csv")
        elif kind != "missing":
            body = {"empty": b"",
                    "ragged": (head + "i,1,2\n" * case["n"] + "j,1,2,3,4\n").encode(),
                    "undecodable": (head + "i,1,2\n" * case["n"]).encode() + b"\xff\xfe\xfa,1,2\n",
                    }[kind]
            with open(path, "wb") as f:
                f.write(body)
        m = attempt(from_csv_file, Path(path) if case["as_path"] else path, what="from_csv_file")
    require(m is None, f"from_csv_file gave metadata for a bad file ({kind})")
    return True, [kind]


SUBS = [
    Sub("tables", table, check_table, 2400, 60000),
    Sub("bad_files", lambda: BAD, check_bad, 240, 2000, shards=2),
]
