"""C05: preprocessing: selection of columns, removal of instances and features."""
from __future__ import annotations

import math
from typing import Any

from hypothesis import strategies as st

from pbt.core import Sub, attempt, eq, require

RULE = ("generated instances x features/algorithms with missing cells (single, whole rows, "
        "columns exactly at / just below / above one fifth), selections of names (known, "
        "unknown, none matching, reordered), with and without sources; non-trivial = a row or a "
        "feature is removed or a selection applies")
ASSUMPTIONS = ["unique feature and algorithm names",
               "at least one instance survives (the rest is unspecified)"]


def names(prefix: str, k: int, kind: str) -> list[str]:
    """Unique names; odd ones differ in case, blanks or one character only."""
    if kind == "plain":
        return [f"{prefix}{i}" for i in range(k)]
    return [["{0}{1}", "{2}{1}", "{0}{1} ", "{0} {1}", "{0}{1}{1}"][i % 5].format(
        prefix, i // 5, prefix.upper()) for i in range(k)]


@st.composite
def case_st(draw: Any) -> dict[str, Any]:
    n = draw(st.sampled_from([1, 2, 4, 5, 6, 9, 10, 11, 15] * 3 + [20, 33, 50, 65, 100, 130]))
    nf = draw(st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(6, 14)))
    na = draw(st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(5, 12)))
    seed = draw(st.integers(0, 2**31))
    xnan: list[list[int]] = []
    for j in range(nf):  # nan counts around the one-fifth boundary
        k = draw(st.sampled_from([0, 0, 1, n // 5, n // 5 - 1, n // 5 + 1, (n + 4) // 5, n]))
        k = min(max(k, 0), n)
        first = draw(st.integers(0, n - 1))  # k rows, spread over the data
        step = draw(st.sampled_from([s for s in (1, 3, 7) if math.gcd(s, n) == 1]))
        xnan += [[(first + step * i) % n, j] for i in range(k)]
    full_x = draw(st.lists(st.integers(0, n - 1), unique=True, max_size=2))
    full_y = draw(st.lists(st.integers(0, n - 1), unique=True, max_size=2))
    ynan = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, na - 1)).map(list),
                         max_size=6))

    odd = draw(st.sampled_from(["plain", "plain", "odd"]))

    def selection(prefix: str, k: int) -> Any:
        pool = names(prefix, k, odd) + ["nope", prefix, f"{prefix}0 ", f"{prefix.upper()}0"]
        return draw(st.one_of(st.none(), st.lists(st.sampled_from(pool), max_size=k + 2)))

    return {"n": n, "nf": nf, "na": na, "seed": seed, "xnan": xnan, "ynan": ynan,
            "full_x": full_x, "full_y": full_y, "dup": draw(st.booleans()),
            "feats": selection("feature_", nf), "algos": selection("algo_", na),
            "source": draw(st.booleans()), "index": draw(st.sampled_from([0, 0, 7, "rev"])),
            "names": odd,
            "scale": draw(st.sampled_from([1.0, 1.0, 1e9, 1e-9, 0.0]))}


def check(case: dict[str, Any]) -> tuple[bool, list[str]]:
    import numpy as np
    import pandas as pd

    from instancespace.data.options import SelvarsOptions
    from instancespace.stages.preprocessing import PreprocessingInput, PreprocessingStage

    n, nf, na = case["n"], case["nf"], case["na"]
    rng = np.random.default_rng(case["seed"])
    x, y = rng.normal(size=(n, nf)), rng.normal(size=(n, na))
    if case["dup"]:
        x = np.round(x)
    x, y = x * case["scale"], y * case["scale"]
    for i, j in case["xnan"]:
        x[i, j] = np.nan
    for i, j in case["ynan"]:
        y[i, j] = np.nan
    x[case["full_x"]] = np.nan
    y[case["full_y"]] = np.nan
    odd = case["names"] == "odd"
    feats = names("feature_", nf, case["names"])
    algos = names("algo_", na, case["names"])
    labels = [f"inst{i}" if not odd or i % 3 else ["", "nan", "0", "feature_0"][i // 3 % 4] + f" {i}"
              for i in range(n)]
    sources = [f"s{i % 3}" for i in range(n)]
    idx = list(range(n))[::-1] if case["index"] == "rev" else (
        range(case["index"], case["index"] + n))

    # reference: columns first, then rows without any value, then incomplete features
    fc = [j for j, f in enumerate(feats) if f in (case["feats"] or [])] or list(range(nf))
    ac = [j for j, a in enumerate(algos) if a in (case["algos"] or [])] or list(range(na))
    rows = [i for i in range(n)
            if not all(np.isnan(x[i, j]) for j in fc) and not all(np.isnan(y[i, j]) for j in ac)]
    keep = [j for j in fc if 5 * sum(bool(np.isnan(x[i, j])) for i in rows) < len(rows)]
    if not rows:
        return False, ["nothing survives"]

    xin, yin = x.copy(), y.copy()
    lab = pd.Series(labels, index=idx)
    src = pd.Series(sources, index=idx) if case["source"] else None
    fl, al = list(feats), list(algos)
    sel = SelvarsOptions.default(feats=case["feats"], algos=case["algos"])
    out = attempt(PreprocessingStage._run, PreprocessingInput(
        feature_names=fl, algorithm_names=al, instance_labels=lab, instance_sources=src,
        features=xin, algorithms=yin, selvars_options=sel), what="PreprocessingStage._run")
    eq(list(out.feat_labels), [feats[j] for j in keep], "feature labels")
    eq(list(out.algo_labels), [algos[j] for j in ac], "algorithm labels")
    eq(list(out.inst_labels), [labels[i] for i in rows], "instance labels")
    if src is None:
        require(out.s is None, "sources appeared")
    else:
        eq(list(out.s), [sources[i] for i in rows], "sources")
    wx, wy = x[np.ix_(rows, keep)], y[np.ix_(rows, ac)]
    for name, got, want in (("x", out.x, wx), ("x_raw", out.x_raw, wx),
                            ("y", out.y, wy), ("y_raw", out.y_raw, wy)):
        require(got.shape == want.shape and np.array_equal(got, want, equal_nan=True),
                f"{name} is not the selected part of the input: {got!r} vs {want!r}")
    require(np.array_equal(xin, x, equal_nan=True) and np.array_equal(yin, y, equal_nan=True)
            and list(lab) == labels and fl == feats and al == algos
            and (src is None or list(src) == sources), "an input was changed")
    labels_ = []
    if len(rows) < n:
        labels_.append("rows removed")
    if len(keep) < len(fc):
        labels_.append("features removed")
    if len(fc) < nf or len(ac) < na:
        labels_.append("selection")
    if any(5 * int(np.isnan(x[rows, j]).sum()) == len(rows) for j in fc):
        labels_.append("exactly one fifth missing")
    return bool(labels_), labels_ or ["untouched"]


SUBS = [Sub("preprocessing", case_st, check, 6000, 150000)]
