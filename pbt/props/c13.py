"""C13: PYTHIA: per-algorithm SVMs, their scores, the algorithm selection and its summary."""
from __future__ import annotations

from typing import Any

import numpy as np
from hypothesis import strategies as st

from pbt.core import Known, Sub, attempt, eq, require

RULE = ("generated two dimensional spaces with labels that follow half planes, discs or chance, "
        "trained with grid search or given hyper-parameters; non-trivial = at least 2 algorithms "
        "and some instance with no algorithm predicted good or with two or more")
ASSUMPTIONS = ["every algorithm is good on at least two instances and bad on at least two",
               "Bayesian searches are cut to 4 points (minutes per case else)"]

# libsvm stops within 1e-3 of the optimum, and where it stops depends on the last bits of the
# kernel: labels closer than this to the boundary are not compared between two trainings
SURE = 1e-2


@st.composite
def case_st(draw: Any) -> dict[str, Any]:
    params = draw(st.sampled_from([None, None, "array", "list"]))
    wide = params is not None and draw(st.integers(0, 3)) == 0
    na = draw(st.sampled_from([5, 11]) if wide else st.integers(1, 4))
    return {"n": draw(st.sampled_from([45, 60, 110]) if wide else st.integers(16, 40)), "seed": draw(st.integers(0, 2**31)),
            "algos": [draw(st.sampled_from(["half", "disc", "random", "random", "rare", "common"]))
                      for _ in range(na)],
            "folds": draw(st.integers(2, 5)), "poly": draw(st.booleans()),
            "weights": draw(st.integers(0, 2)) == 0,
            "params": params,
            "nan": draw(st.integers(0, 3)) == 0, "scale": draw(st.integers(-2, 2)),
            "bayes": draw(st.integers(0, 4)) == 0}


def build(case: dict[str, Any]) -> dict[str, Any]:
    rng = np.random.default_rng(case["seed"])
    n, na = case["n"], len(case["algos"])
    z = rng.normal(size=(n, 2)) * [1.0, 1.7] + [0.3, -2.0]
    cols = []
    for kind in case["algos"]:
        u = (z - z.mean(0)) / z.std(0)
        if kind == "half":
            a = rng.random() * 2 * np.pi
            c = u @ [np.cos(a), np.sin(a)] > 0.2
        elif kind == "disc":
            c = (u ** 2).sum(1) < 1.2
        else:
            c = rng.random(n) < {"random": 0.5, "rare": 0.2, "common": 0.85}[kind]
        p = rng.permutation(n)
        c[p[:2]] = True
        c[p[2:4]] = False
        cols.append(c)
    y = np.abs(rng.normal(size=(n, na))) * 10 + 0.5
    if case["nan"]:
        y[rng.random(y.shape) < 0.1] = np.nan
        y[0] = 1.0 + np.arange(na)
        y[np.isnan(y).all(1), 0] = 3.0
    if case["weights"]:
        y[1] = np.nanmean(np.delete(y, 1, axis=0))  # close to the overall mean
    return {"z": z, "y": y, "y_bin": np.column_stack(cols),
            "y_best": np.nanmin(np.where(np.isnan(y), np.inf, y), axis=1)}


def run(case: dict[str, Any], d: dict[str, Any], params: Any = None, grid: bool = True,
        parallel: bool = False) -> Any:
    from instancespace.data.options import ParallelOptions, PythiaOptions
    from instancespace.stages.pythia import PythiaInput, PythiaStage

    labels = [f"algo_{i}" for i in range(len(case["algos"]))]
    opts = PythiaOptions(cv_folds=case["folds"], is_poly_krnl=case["poly"],
                         use_weights=case["weights"], use_grid_search=grid, params=params)
    if not grid:
        short_bayes()
    return attempt(PythiaStage._run, PythiaInput(
        z=d["z"], y_raw=d["y"], y_bin=d["y_bin"], y_best=d["y_best"], algo_labels=labels,
        pythia_options=opts, parallel_options=ParallelOptions(parallel, 2)),
        what="PythiaStage._run")


def short_bayes() -> None:
    """Bayesian searches try few points here (30 take minutes)."""
    import functools

    import skopt
    cls = skopt.BayesSearchCV
    if hasattr(cls, "_short"):
        return
    init = cls.__init__

    @functools.wraps(init)
    def few(self: Any, *a: Any, **k: Any) -> None:
        init(self, *a, **k)
        self.n_iter = min(self.n_iter, 4)

    cls.__init__, cls._short = few, True


def num(v: Any) -> float:
    return float("nan") if isinstance(v, str) else float(v)


def near(got: Any, want: float, what: str, tol: float = 1.1e-3) -> None:
    got = num(got)
    if np.isnan(want):
        require(np.isnan(got), f"{what} is {got}, expected nothing")
    else:
        require(abs(got - want) <= tol + 1e-9 * abs(want), f"{what} is {got}, expected {want}")


def prf(truth: Any, pred: Any) -> tuple[float, float]:
    tp = int((truth & pred).sum())
    return (tp / int(pred.sum()) if pred.any() else 0.0,
            tp / int(truth.sum()) if truth.any() else 0.0)


def check(case: dict[str, Any]) -> tuple[bool, list[str]]:
    from sklearn.svm import SVC

    d = build(case)
    keep = {k: v.copy() for k, v in d.items()}
    n, na = d["y_bin"].shape
    yb = d["y_bin"]
    params = None
    if case["params"]:
        r = np.random.default_rng(case["seed"] + 5)
        params = 2.0 ** r.uniform(-4, 3, size=(na, 2))
        given = params.tolist() if case["params"] == "list" else params.copy()
    out = run(case, d, given if params is not None else None, grid=not case["bayes"])
    for k, v in keep.items():
        require(np.array_equal(d[k], v, equal_nan=v.dtype.kind == "f"), f"input {k} was changed")

    z = d["z"]
    mu, sd = z.mean(0), z.std(0, ddof=1)
    require(np.allclose(np.asarray(out.mu, float), mu, atol=1e-10), f"mu is {out.mu}, not {mu}")
    require(np.allclose(np.asarray(out.sigma, float), sd, atol=1e-10), f"sigma is {out.sigma}, not {sd}")
    zn = (z - mu) / sd
    eq(out.cp.get_n_splits(), case["folds"], "number of folds")
    if case["weights"]:
        w = np.abs(d["y"] - np.nanmean(d["y"]))
        w[w == 0] = np.nanmin(w[w > 0])
        w[np.isnan(w)] = np.nanmax(w)
    else:
        w = np.ones((n, na))
    require(np.asarray(out.w).shape == w.shape and np.allclose(out.w, w), "weights w")
    for nm in ("y_sub", "y_hat", "pr0_sub", "pr0_hat"):
        eq(np.asarray(getattr(out, nm)).shape, (n, na), f"shape of {nm}")
    for nm in ("svm", "box_consnt", "k_scale", "accuracy", "precision", "recall"):
        eq(len(getattr(out, nm)), na, f"length of {nm}")
    eq(np.asarray(out.cvcmat).shape, (na, 4), "shape of cvcmat")
    eq((out.y_hat.dtype.kind, out.y_sub.dtype.kind), ("b", "b"), "kinds of y_hat, y_sub")
    for i in range(na):
        who = f"algorithm {i}: "
        m = out.svm[i]
        yhat, truth = out.y_hat[:, i], yb[:, i]
        require(np.array_equal(np.asarray(m.predict(zn)).astype(bool), yhat),
                who + "y_hat is not what its model predicts")
        require(np.allclose(m.predict_proba(zn)[:, 1], out.pr0_hat[:, i], atol=1e-7),
                who + "pr0_hat is not what its model predicts")
        c, g = float(out.box_consnt[i]), float(out.k_scale[i])
        eq((float(m.C), float(m.gamma)), (c, g), who + "C and gamma of the model")
        eq(m.kernel, "poly" if case["poly"] else "rbf", who + "kernel")
        if params is not None:
            require(np.allclose([c, g], params[i]), who + f"trained with {c, g}, given {params[i]}")
        else:
            require(2.0 ** -10 <= c * (1 + 1e-9) and c <= 16 + 1e-9
                    and 2.0 ** -10 <= g * (1 + 1e-9) and g <= 16 + 1e-9, who + f"C, gamma = {c, g}")
        # the same model trained independently
        ref = SVC(kernel=m.kernel, C=c, gamma=g, degree=2, coef0=1, probability=True,
                  random_state=0)
        ref.fit(zn, truth, sample_weight=w[:, i].copy())
        df = ref.decision_function(zn)
        sure = np.abs(df) > SURE
        require(np.array_equal(ref.predict(zn)[sure].astype(bool), yhat[sure]),
                who + "y_hat differs from a model trained on all instances")
        seen = np.zeros(n, int)
        for tr, te in out.cp.split(zn, truth):
            seen[te] += 1
            ref.fit(zn[tr], truth[tr], sample_weight=w[tr, i])
            sure = np.abs(ref.decision_function(zn[te])) > SURE
            got = out.y_sub[te, i]
            require(np.array_equal(ref.predict(zn[te])[sure].astype(bool), got[sure]),
                    who + "y_sub differs from models trained without the fold")
            require(np.allclose(ref.predict_proba(zn[te])[:, 1], out.pr0_sub[te, i], atol=0.05),
                    who + "pr0_sub differs from models trained without the fold")
        require((seen == 1).all(), who + "instances are not in one fold each")
        for nm in ("pr0_sub", "pr0_hat"):
            v = getattr(out, nm)[:, i]
            require(((v >= 0) & (v <= 1)).all(), who + f"{nm} is no probability")
        s = out.y_sub[:, i]
        eq([int(v) for v in out.cvcmat[i]],
           [int((~truth & ~s).sum()), int((~truth & s).sum()),
            int((truth & ~s).sum()), int((truth & s).sum())], who + "cvcmat (tn fp fn tp)")
        p, r = prf(truth, yhat)
        near(out.accuracy[i], float((truth == yhat).mean()), who + "accuracy", 1e-9)
        near(out.precision[i], p, who + "precision", 1e-9)
        near(out.recall[i], r, who + "recall", 1e-9)

    # selection
    s0, s1 = np.asarray(out.selection0), np.asarray(out.selection1)
    eq((s0.shape, s1.shape), ((n,), (n,)), "shapes of the selections")
    prec = np.asarray(out.precision, float)
    good_share = yb.mean(0)
    none = several = 0
    for k in range(n):
        cand = [i for i in range(na) if out.y_hat[k, i] and prec[i] > 0]
        several += len(cand) > 1
        if not cand:
            none += 1
            eq(int(s0[k]), -1, f"selection0 of instance {k}, for which none is predicted good")
            require(0 <= s1[k] < na and good_share[s1[k]] >= good_share.max() - 1e-12,
                    f"selection1[{k}] is {s1[k]}, not the algorithm that is good most often")
        else:
            top = max(prec[i] for i in cand)
            require(int(s0[k]) in [i for i in cand if prec[i] >= top - 1e-12],
                    f"selection0[{k}] is {s0[k]}: not a most precise algorithm predicted good")
            eq(int(s1[k]), int(s0[k]), f"selection1[{k}]")

    # summary
    t = out.pythia_summary
    eq(list(t.iloc[:, 0]), [f"algo_{i}" for i in range(na)] + ["Oracle", "Selector"], "rows")
    y = d["y"]
    rows = np.arange(n)

    def mean_std(v: Any) -> tuple[float, float]:
        v = v[~np.isnan(v)]
        return (float(v.mean()), float(v.std())) if len(v) else (float("nan"),) * 2

    for i in range(na):
        r = t.iloc[i]
        m, s = mean_std(y[:, i])
        near(r["Avg_Perf_all_instances"], m, f"average performance of algo {i}")
        near(r["Std_Perf_all_instances"], s, f"deviation of the performance of algo {i}")
        near(r["Probability_of_good"], good_share[i], f"probability of good of algo {i}")
        m, s = mean_std(y[out.y_hat[:, i], i])
        near(r["Avg_Perf_selected_instances"], m, f"average performance of algo {i} when selected")
        near(r["Std_Perf_selected_instances"], s, f"deviation of algo {i} when selected")
        near(r["BoxConstraint"], float(out.box_consnt[i]), f"C of algo {i} in the summary")
        near(r["KernelScale"], float(out.k_scale[i]), f"gamma of algo {i} in the summary")
        for col, v in (("accuracy", out.accuracy), ("precision", out.precision),
                       ("recall", out.recall)):
            near(r[f"CV_model_{col}"], 100 * float(v[i]), f"{col} of algo {i} in the summary")
    orc, sel = t.iloc[na], t.iloc[na + 1]
    m, s = mean_std(d["y_best"])
    near(orc["Avg_Perf_all_instances"], m, "average performance of the oracle")
    near(orc["Std_Perf_all_instances"], s, "deviation of the performance of the oracle")
    near(orc["Probability_of_good"], 1.0, "probability of good of the oracle")
    m, s = mean_std(y[rows, s1])
    near(sel["Avg_Perf_all_instances"], m, "average performance of the selector")
    near(sel["Std_Perf_all_instances"], s, "deviation of the performance of the selector")
    near(sel["Probability_of_good"], float(yb[rows, s1].mean()), "probability of good, selector")
    on = s0 >= 0
    m, s = mean_std(y[rows[on], s0[on]])
    near(sel["Avg_Perf_selected_instances"], m, "average performance, selector, selected")
    near(sel["Std_Perf_selected_instances"], s, "deviation, selector, selected")
    pick = np.zeros((n, na), bool)
    pick[rows[on], s0[on]] = True
    p, r = prf(yb.ravel(), pick.ravel())
    near(sel["CV_model_precision"], 100 * p, "precision of the selector")
    near(sel["CV_model_recall"], 100 * r, "recall of the selector")
    return na > 1 and bool(none or several), [
        "poly" if case["poly"] else "rbf", "weights" if case["weights"] else "plain",
        "given" if params is not None else "bayes" if case["bayes"] else "search"] + (["none"] if none else []) + (
        ["several"] if several else [])


# ---------------------------------------------------------------- metamorphic: units of the space

@st.composite
def unit_st(draw: Any) -> dict[str, Any]:
    c = draw(case_st())
    c["weights"] = False
    c["algos"] = c["algos"][:2]
    c["parallel"] = draw(st.booleans())
    return c


def check_unit(case: dict[str, Any]) -> tuple[bool, list[str]]:
    """A space in other units (and a run with several workers) gives the same models."""
    import joblib
    from sklearn.base import clone
    d = build(case)
    f = 2.0 ** case["scale"]
    params = None if not case["params"] else [[1.0, 0.5]] * len(case["algos"])
    a = run(case, d, params)
    d2 = dict(d, z=d["z"] * f)
    with joblib.parallel_backend("threading"):
        b = run(case, d2, params, parallel=case["parallel"])
    where = f"when the space is scaled by {f}, parallel={case['parallel']}"
    eq((a.box_consnt, a.k_scale), (b.box_consnt, b.k_scale), "C and gamma " + where)
    zn = (d["z"] - d["z"].mean(0)) / d["z"].std(0, ddof=1)
    flips = False
    for i in range(len(case["algos"])):
        # labels that hang on the last bits may differ
        sure = np.abs(a.svm[i].decision_function(zn)) > SURE
        flips |= not sure.all()
        require(np.array_equal(a.y_hat[sure, i], b.y_hat[sure, i]), f"y_hat differs {where}")
        for tr, te in a.cp.split(zn, d["y_bin"][:, i]):
            sure = np.abs(clone(a.svm[i]).fit(zn[tr], d["y_bin"][tr, i])
                          .decision_function(zn[te])) > SURE
            require(np.array_equal(a.y_sub[te, i][sure], b.y_sub[te, i][sure]),
                    f"y_sub differs {where}")
    # (the probabilities come from a small cross validation inside libsvm that jumps with the last
    # bits of the kernel; they are compared with models trained alike in "models")
    if not flips:
        for nm in ("selection0", "selection1", "precision"):
            require(np.array_equal(np.asarray(getattr(a, nm)), np.asarray(getattr(b, nm))),
                    f"{nm} differs {where}")
    require(np.allclose(np.asarray(a.mu) * f, b.mu), "mu does not scale with the space")
    require(np.allclose(np.asarray(a.sigma) * f, b.sigma), "sigma does not scale with the space")
    return case["scale"] != 0 or case["parallel"], ["parallel" if case["parallel"] else "serial"]


# ---------------------------------------------------------------- planted structure

@st.composite
def planted_st(draw: Any) -> dict[str, Any]:
    return {"n": draw(st.integers(40, 80)), "seed": draw(st.integers(0, 2**31)),
            "kind": draw(st.sampled_from(["half", "ring"])), "folds": draw(st.integers(3, 5)),
            "poly": draw(st.booleans()), "weights": draw(st.booleans())}


def check_planted(case: dict[str, Any]) -> tuple[bool, list[str]]:
    """Regions that are clearly separated are learnt (also on instances left out)."""
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    g = np.arange(n) % 2 == 0
    if case["kind"] == "half":
        z = rng.uniform(-1, 1, size=(n, 2))
        z[:, 0] = np.where(g, 1, -1) * (0.6 + np.abs(z[:, 0]))
    else:
        th = rng.uniform(0, 2 * np.pi, n)
        rad = np.where(g, 0.3 * rng.random(n), 1.6 + 0.3 * rng.random(n))
        z = np.column_stack([rad * np.cos(th), rad * np.sin(th)])
    yb = np.column_stack([g, ~g])
    y = np.column_stack([np.where(g, 1.0, 9.0), np.where(g, 8.0, 2.0)]) + rng.random((n, 2))
    c = dict(case, algos=["a", "b"])
    out = run(c, {"z": z, "y": y, "y_bin": yb, "y_best": y.min(1)})
    for i in range(2):
        require((out.y_hat[:, i] == yb[:, i]).mean() >= 0.9, f"algorithm {i}: y_hat is mostly wrong")
        require((out.y_sub[:, i] == yb[:, i]).mean() >= 0.85, f"algorithm {i}: y_sub is mostly wrong")
    want = np.where(g, 0, 1)
    require((np.asarray(out.selection1) == want).mean() >= 0.85, "selections are mostly wrong")
    return True, [case["kind"]]


# ---------------------------------------------------------------- known finding

def check_cv(case: dict[str, Any]) -> None:
    """The columns CV_model_* hold cross validated scores."""
    d = build(case)
    out = run(case, d)
    t = out.pythia_summary
    for i in range(len(case["algos"])):
        tn, fp, fn, tp = (int(v) for v in out.cvcmat[i])
        near(t.iloc[i]["CV_model_accuracy"], 100 * (tn + tp) / (tn + fp + fn + tp),
             f"CV_model_accuracy of algorithm {i} is not cross validated: it")


CV_CASE = {"n": 30, "seed": 7, "algos": ["random", "random"], "folds": 3, "poly": False,
           "weights": False, "params": None, "nan": False, "scale": 0}

KNOWN = [Known("cv-metrics", CV_CASE, check_cv,
               "accuracy, precision and recall (columns CV_model_*) are computed on the training "
               "instances, not cross validated; cvcmat is",
               "is not cross validated")]

SUBS = [Sub("models", case_st, check, 260, 6000),
        Sub("units", unit_st, check_unit, 50, 1000),
        Sub("planted", planted_st, check_planted, 40, 1000)]
