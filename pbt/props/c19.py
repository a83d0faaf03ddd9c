"""C19: the archive and the MATLAB file for the dashboard."""
from __future__ import annotations

import os
import shutil
import tempfile
import zipfile
from pathlib import Path
from typing import Any

from hypothesis import strategies as st

from pbt.core import Sub, attempt, eq, require
from pbt.models import NAME, make, model_st

RULE = ("generated folders of files (nested folders, empty and binary files, an archive left from "
        "an earlier run, files to leave out); non-trivial = files in a nested folder")
ASSUMPTIONS = ["file names are distinct across folders: the archive is flat by design (the "
               "dashboard expects output/<file>)"]
FILE = st.one_of(
    st.text(alphabet="abcXYZ019_-. é", min_size=1, max_size=10).filter(
        lambda s: s.strip(". ") == s),
    # hidden files and near-names of the one that is left out
    st.sampled_from([".hidden", ".a.csv", "gitignore", ".gitignored", "x.gitignore", ".git"]))


@st.composite
def case_st(draw: Any) -> dict[str, Any]:
    names = draw(st.lists(FILE, max_size=8, unique_by=lambda s: s.lower()))
    return {"names": names, "zip": draw(st.sampled_from(["output.zip", "a b.zip", "results"])),
            "where": [draw(st.sampled_from(["", "csv", "png", "png/deep", "csv/x/y"]))
                      for _ in names],
            "data": [draw(st.binary(max_size=300)).hex() for _ in names],
            "ignore": draw(st.booleans()), "old": draw(st.booleans()),
            "as_str": draw(st.booleans()), "twice": draw(st.booleans())}


def tree(root: Path) -> dict[str, bytes]:
    return {str(p.relative_to(root)): p.read_bytes() for p in root.rglob("*") if p.is_file()}


def check(case: dict[str, Any]) -> tuple[bool, list[str]]:
    model, _ = make(PLAIN)
    root = Path(tempfile.mkdtemp(prefix="c19_"))
    try:
        want = {}
        for name, where, data in zip(case["names"], case["where"], case["data"]):
            if name == case["zip"]:
                continue
            p = root / where / name
            if p.is_dir() or any(q.is_file() for q in p.parents if q != root and root in q.parents):
                continue
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(bytes.fromhex(data))
            want[f"output/{name}"] = bytes.fromhex(data)
        if case["ignore"]:
            (root / ".gitignore").write_text("*")
        if case["old"]:
            (root / case["zip"]).write_bytes(b"an old archive")
        before = {k: v for k, v in tree(root).items() if k != case["zip"]}
        for _ in range(2 if case["twice"] else 1):
            attempt(model.save_zip, case["zip"], str(root) if case["as_str"] else root,
                    what="Model.save_zip")
        with zipfile.ZipFile(root / case["zip"]) as zf:
            require(zf.testzip() is None, "the archive is damaged")
            names = [i.filename for i in zf.infolist() if not i.is_dir()]
            eq(sorted(names), sorted(want), "files in the archive")
            for k in names:
                require(zf.read(k) == want[k], f"{k} differs in the archive")
        eq({k: v for k, v in tree(root).items() if k != case["zip"]}, before, "files in the folder")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return any("/" in k or k != os.path.basename(k) for k in before), [
        f"{min(len(want), 5)} files", "again" if case["twice"] else "once"]


PLAIN: dict[str, Any] = {
    "n": 3, "seed": 1, "feats": ["f"], "algos": ["a"], "insts": ["x", "y", "z"], "index": "plain",
    "sources": False, "extra": 0, "values": "normal", "const": False, "best": ["none"],
    "good": ["none"], "sim": False, "cloister": True, "pilot_summary": True}


@st.composite
def mat_st(draw: Any) -> dict[str, Any]:
    return {"algos": draw(st.lists(st.one_of(
        NAME, st.text(alphabet="abcdefghij_0123456789", min_size=1, max_size=40)),
        min_size=1, max_size=8, unique=True))}


def check_mat(case: dict[str, Any]) -> tuple[bool, list[str]]:
    """The MATLAB file holds the labels of the algorithms."""
    from scipy.io import loadmat
    algos = case["algos"]
    model, _ = make(dict(PLAIN, algos=algos, best=["none"] * len(algos), good=["none"] * len(algos)))
    root = Path(tempfile.mkdtemp(prefix="c19_"))
    try:
        attempt(model.save_to_mat, str(root) if len(algos) % 2 else root, what="Model.save_to_mat")
        eq(os.listdir(root), ["model.mat"], "files written")
        got = loadmat(root / "model.mat", chars_as_strings=True, simplify_cells=True)["data"]
        got = got["algolabels"]
        got = [got] if isinstance(got, str) else [str(v) for v in got]
        # MATLAB pads labels to one length
        eq([g.rstrip() for g in got], [a.rstrip() for a in algos], "labels of the algorithms")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return len(algos) > 1, []


SUBS = [Sub("archive", case_st, check, 400, 8000),
        Sub("matlab", mat_st, check_mat, 300, 8000)]
