"""C10: SIFTED: selection of features."""
from __future__ import annotations

from typing import Any

import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, Violation, attempt, eq, require
from pbt.gen import filter_reference, pearson

RULE = ("generated features (informative, redundant, irrelevant, some only negatively correlated) "
        "and performances, any correlation threshold, cluster count, small genetic searches, "
        "with and without a density based experiment, selection on and off; and planted problems "
        "in which one combination of features separates good from bad and the others do not; "
        "non-trivial = at least one feature is dropped")
ASSUMPTIONS = ["every algorithm has a feature that correlates significantly with it",
               "no correlation within 1e-9 of the threshold and no p-value within 1e-9 of 0.05",
               "no missing values where features are clustered; 2 <= number of clusters"]
ROWS = ["y", "y_bin", "x_raw", "y_raw", "beta", "num_good_algos", "y_best", "p", "inst_labels"]


def ga_options(k: int, rho: float, flag: bool, pop: int, gens: int) -> Any:
    from instancespace.data.options import SiftedOptions
    return SiftedOptions.default(
        flag=flag, rho=rho, k=k, n_trees=5, max_iter=50, replicates=3, num_generations=gens,
        num_parents_mating=2, sol_per_pop=pop, k_tournament=2, keep_elitism=1)


def make_input(x: Any, y: Any, yb: Any, opts: Any, sel: Any, dense: Any, source: bool) -> Any:
    import pandas as pd

    from instancespace.data.options import ParallelOptions
    from instancespace.stages.sifted import SiftedInput

    n = len(x)
    return SiftedInput(
        x=x, y=y, y_bin=yb, x_raw=x * 2 + 1, y_raw=y + 5,
        beta=yb.sum(axis=1) > yb.shape[1] / 2, num_good_algos=yb.sum(axis=1).astype(float),
        y_best=y.min(axis=1), p=y.argmin(axis=1) + 1,
        inst_labels=pd.Series([f"i{k}" for k in range(n)]),
        feat_labels=[f"feature_{j}" for j in range(x.shape[1])],
        s=pd.Series([f"s{k % 3}" for k in range(n)]) if source else None,
        sifted_options=opts, selvars_options=sel, data_dense=dense,
        parallel_options=ParallelOptions.default(flag=False))


@st.composite
def case_st(draw: Any) -> dict[str, Any]:
    # wide: many features and algorithms, missing cells, decided by correlation alone
    wide = draw(st.integers(0, 2)) == 0
    nf = draw(st.integers(4, 14) if wide else st.sampled_from([1, 2, 3, 4, 5, 6, 6, 6, 7, 7, 8]))
    na = draw(st.sampled_from([1, 2, 3, 6, 11]) if wide else st.integers(1, 3))
    kinds = draw(st.lists(st.sampled_from(["own", "copy", "noise", "own"]), min_size=nf,
                          max_size=nf))
    return {"nf": nf, "na": na, "n": draw(st.sampled_from([18, 24, 40, 90, 160]) if wide else
                                             st.integers(18, 30)), "kinds": kinds,
            "load": draw(st.lists(st.lists(st.sampled_from([0, 0, 1, -1, 2, -3]), min_size=nf,
                                           max_size=nf), min_size=na, max_size=na)),
            "noise": draw(st.sampled_from([0.1, 0.5, 1.0])),
            # an algorithm that hardly depends on any feature
            "weak": draw(st.integers(0, 2)) == 0,
            "rho": draw(st.sampled_from([0.1, 0.2, 0.26, 0.3, 0.34, 0.4, 0.46, 0.5, 0.63, 0.7, 0.85, 0.9])),
            "k": 14 if wide else draw(st.integers(2, 4)),
            "missing": draw(st.sampled_from([0, 0, 1, 5])) if wide else 0, "flag": draw(st.sampled_from([True] * 6 + [False])),
            "dense": draw(st.sampled_from([None, None, None, 0.5, 1.0, 1])),
            "kind": draw(st.sampled_from(["Ftr", "Ftr&Good"])),
            "again": draw(st.integers(0, 3)) == 0, "source": draw(st.booleans()),
            "seed": draw(st.integers(0, 2**31))}


def build(case: dict[str, Any]) -> tuple[Any, Any, Any]:
    rng = np.random.default_rng(case["seed"])
    n, nf, na = case["n"], case["nf"], case["na"]
    x = rng.normal(size=(n, nf))
    for j in range(1, nf):
        if case["kinds"][j] == "copy":
            x[:, j] = x[:, j - 1] + 0.3 * x[:, j]
    load = np.array(case["load"], float)
    for j in range(nf):
        if case["kinds"][j] == "noise":
            load[:, j] = 0
    noise = case["noise"] * rng.normal(size=(n, na))
    if case.get("weak"):
        noise[:, rng.integers(na)] *= 6
    y = x @ load.T + noise
    yb = y <= np.median(y, axis=0)
    for _ in range(case["missing"]):
        x[rng.integers(n), rng.integers(nf)] = np.nan
        y[rng.integers(n), rng.integers(na)] = np.nan
    return x, y, yb


def pairwise(x: Any, y: Any) -> tuple[Any, Any]:
    """Correlations over the instances that have both values."""
    r, p = np.zeros((x.shape[1], y.shape[1])), np.zeros((x.shape[1], y.shape[1]))
    for j in range(x.shape[1]):
        for k in range(y.shape[1]):
            ok = ~np.isnan(x[:, j]) & ~np.isnan(y[:, k])
            a, b = pearson(x[ok, j:j + 1], y[ok, k:k + 1])
            r[j, k], p[j, k] = a[0, 0], b[0, 0]
    return r, p


def check(case: dict[str, Any]) -> tuple[bool, list[str]]:
    from instancespace.data.model import DataDense
    from instancespace.data.options import SelvarsOptions
    from instancespace.stages.sifted import NotEnoughFeatureError, SiftedStage

    xf, yf, ybf = build(case)
    sel = SelvarsOptions.default()
    dense = None
    rows = list(range(len(xf)))
    opts = ga_options(case["k"], case["rho"], case["flag"], 4, 2)
    full = make_input(xf, yf, ybf, opts, sel, None, case["source"])
    if case["dense"] is not None and not case["missing"]:
        rm, _, _, margin = filter_reference(xf, yf, ybf, case["kind"], case["dense"])
        rows = [i for i in rows if not rm[i]]
        if margin < 1e-9 or len(rows) < 12:
            return False, ["subset too small"]
        sel = SelvarsOptions.default(density_flag=True, min_distance=case["dense"],
                                     selvars_type=case["kind"])
        dense = DataDense(x=xf, y=yf, x_raw=full.x_raw, y_raw=full.y_raw, y_bin=ybf,
                          y_best=full.y_best, p=full.p, num_good_algos=full.num_good_algos,
                          beta=full.beta, inst_labels=full.inst_labels, s=full.s)
    sub = {f: getattr(full, f)[rows] for f in ROWS + ["x"]}
    inp = full._replace(**sub, s=None if full.s is None else full.s[rows], data_dense=dense,
                        selvars_options=sel)
    x, y = np.array(inp.x), np.array(inp.y)
    nf = x.shape[1]
    frozen = {f: np.array(getattr(inp, f)) for f in ROWS + ["x"]}

    def run() -> Any:
        return SiftedStage._run(inp)

    # reference: which features does the correlation analysis keep?
    r, p = pairwise(x, y) if case["missing"] else pearson(x, y)
    if (np.abs(np.abs(r) - case["rho"]) < 1e-9).any() or (np.abs(p - 0.05) < 1e-9).any():
        return False, ["boundary"]
    a = np.where(p > 0.05, 0.0, np.abs(r))
    keep_all = not case["flag"] or nf <= 3
    if not keep_all and (a.max(axis=0) == 0).any():
        return False, ["an algorithm nothing correlates with"]
    s = sorted({int(j) for j in a.argmax(axis=0)}
               | {j for j in range(nf) if (a[j] >= case["rho"]).any()})
    if nf == 1 or (not keep_all and len(s) <= 1):
        try:
            out = run()
        except NotEnoughFeatureError:
            return True, ["not enough features"]
        raise Violation(f"{len(s) if nf > 1 else 1} feature left, but no NotEnoughFeatureError: "
                        f"{out.selvars}")
    out = attempt(run, what="SiftedStage._run")
    sv = [int(v) for v in out.selvars]
    labels = []
    want_rows = rows
    if keep_all:
        eq(sv, list(range(nf)), "features kept without selection")
        labels.append("all kept")
    elif len(s) <= 3 or len(s) <= case["k"]:
        eq(sv, s, "features kept by the correlation analysis")
        labels.append("correlation only")
    else:
        labels.append("clustered")
        c = np.asarray(out.clust)
        eq(tuple(c.shape), (len(s), case["k"]), "shape of the clusters")
        require((c.sum(axis=1) == 1).all() and (c.sum(axis=0) > 0).all(),
                f"clusters are not a partition: {c.astype(int).tolist()}")
        require(set(sv) <= set(s), f"features {sv} are not among the correlated ones {s}")
        require(sv == sorted(set(sv)), f"selected features {sv} are not in order")
        where = sorted(int(np.argmax(c[s.index(j)])) for j in sv)
        eq(where, list(range(case["k"])), f"clusters of the selected features {sv} of {s}")
        sc = [float(v) for v in out.silhouette_scores]
        require(len(sc) == len(s) - 2 and all(-1 - 1e-9 <= v <= 1 + 1e-9 for v in sc),
                f"silhouette scores {sc}")
        if dense is not None:
            rm, _, _, margin = filter_reference(xf[:, sv], yf, ybf, case["kind"], case["dense"])
            if margin < 1e-9:
                return False, ["boundary"]
            want_rows = [i for i in range(len(xf)) if not rm[i]]
            labels.append("dense")
    eq([int(v) for v in out.idx], sv, "reported feature indices")
    eq(list(out.feat_labels), [f"feature_{j}" for j in sv], "feature labels")
    require(np.array_equal(np.asarray(out.x), xf[np.ix_(want_rows, sv)], equal_nan=True),
            f"x is not the selected columns of the instances (shape {np.shape(out.x)})")
    for f in ROWS:
        a, b = np.asarray(getattr(out, f)), np.asarray(getattr(full, f))[want_rows]
        require(np.array_equal(a, b, equal_nan=a.dtype.kind == "f" == b.dtype.kind),
                f"{f} does not belong to the instances")
    if full.s is None:
        require(out.s is None, "sources appeared")
    else:
        eq(list(out.s), [full.s[i] for i in want_rows], "sources")
    if not keep_all:
        require(np.allclose(out.rho, r, atol=1e-9), "rho is not the Pearson correlation")
        require(np.allclose(out.pval, p, atol=1e-9), "pval of the correlations")
    for f, v in frozen.items():
        require(np.array_equal(np.array(getattr(inp, f)), v, equal_nan=v.dtype.kind == "f"),
                f"input {f} was changed")
    if case["again"]:
        eq([int(v) for v in attempt(run, what="SiftedStage._run").selvars], sv,
           "selection of a second run")
    if (r[s] < 0).any():
        labels.append("negative correlations")
    return len(sv) < nf, labels


@st.composite
def planted_st(draw: Any) -> dict[str, Any]:
    # per cluster: position of the informative feature among the two; and irrelevant features
    return {"pos": draw(st.lists(st.booleans(), min_size=2, max_size=2)),
            "junk": draw(st.lists(st.booleans(), min_size=5, max_size=5)),
            "order": draw(st.permutations(range(4))), "na": draw(st.integers(1, 2)),
            "seed": draw(st.integers(0, 2**31))}


def check_planted(case: dict[str, Any]) -> tuple[bool, list[str]]:
    from instancespace.data.options import SelvarsOptions
    from instancespace.stages.sifted import SiftedStage

    rng = np.random.default_rng(case["seed"])
    n = 40
    while True:
        g = rng.normal(size=(n, 4))
        g -= g.mean(0)
        g, _ = np.linalg.qr(g)
        g *= np.sqrt(n)
        # 0, 1: cluster A; 2, 3: cluster B (far away).  The informative one of each:
        info = [0 if case["pos"][0] else 1, 2 if case["pos"][1] else 3]
        score = g[:, info[0]] + g[:, info[1]]
        if np.abs(score).min() > 1e-6:
            break
    yb = np.column_stack([score > 0] * case["na"])
    g[:, 2:] += 6.0
    cols = [g[:, j] for j in case["order"]]
    names = list(case["order"])
    x_cols: list[Any] = []
    ids: list[int] = []
    for pos in range(5):
        if case["junk"][pos]:
            e = rng.normal(size=n)  # uncorrelated with every performance: is dropped
            b = np.column_stack([np.ones(n), g])
            e -= b @ np.linalg.lstsq(b, e, rcond=None)[0]
            x_cols.append(e)
            ids.append(-1)
        if pos < 4:
            x_cols.append(cols[pos])
            ids.append(names[pos])
    x = np.column_stack(x_cols)
    # performances that all four features correlate with; two algorithms share them out
    y = np.column_stack([g.sum(axis=1)] if case["na"] == 1 else
                        [g.sum(axis=1), g @ np.array([1, -1, 1, -1.0])])
    opts = ga_options(2, 0.3, True, 16, 4)
    out = attempt(SiftedStage._run, make_input(x, y, yb, opts, SelvarsOptions.default(), None,
                                               False), what="SiftedStage._run")
    got = sorted(ids[int(v)] for v in out.selvars)
    eq(got, sorted(info), "features selected (the pair that separates good from bad instances)")
    return True, [f"junk {sum(case['junk'])}"]


SUBS = [Sub("selection", case_st, check, 560, 10000),
        Sub("objective", planted_st, check_planted, 24, 400)]
