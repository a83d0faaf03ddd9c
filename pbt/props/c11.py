"""C11: PILOT: projection to two dimensions."""
from __future__ import annotations

from typing import Any

import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, attempt, eq, require

RULE = ("generated feature and performance matrices (random, correlated, performances that repeat "
        "or are exact combinations of features) projected analytically, numerically, from given "
        "starting points and from a given solution; non-trivial = at least 3 features")
ASSUMPTIONS = ["features are linearly independent, of size 0.001 to 100 (about 1 where the optimum is "
               "searched), performance is missing in "
               "a few places only, and not in analytic projections; what error and fit of missing values "
               "are is left open",
               "the numerical solution is stored with 3 significant digits (half precision)"]


@st.composite
def case_st(draw: Any) -> dict[str, Any]:
    mode = draw(st.sampled_from(["analytic", "numeric", "x0", "alpha"]))
    wide = mode in ("analytic", "alpha") and draw(st.integers(0, 3)) == 0
    n = draw(st.integers(5, 12) if wide else st.integers(2, 6))
    return {"mode": mode, "n": n,
            "na": draw(st.sampled_from([1, 2, 5, 8, 11]) if wide else st.integers(1, 4)),
            "N": draw(st.sampled_from([n + 15, 60, 101, 160]) if wide else
                      st.integers(n + 6, 40)), "seed": draw(st.integers(0, 2**31)),
            "y": draw(st.sampled_from(["random", "mixed", "exact", "repeat", "binary"])),
            "mixx": draw(st.booleans()), "tries": draw(st.integers(1, 3)),
            "missing": mode != "analytic" and draw(st.integers(0, 3)) == 0,
            "as_list": draw(st.booleans()),
            "scale": draw(st.sampled_from([1, 1, 1, 1e-3, 30.0])) if mode in ("analytic", "alpha") else 1}


def build(case: dict[str, Any]) -> tuple[Any, Any]:
    rng = np.random.default_rng(case["seed"])
    x = rng.normal(size=(case["N"], case["n"]))
    if case["mixx"]:
        x[:, -1] = 0.8 * x[:, 0] + 0.6 * x[:, -1]
    na = case["na"]
    w = rng.normal(size=(case["n"], na))
    y = {"random": lambda: rng.normal(size=(case["N"], na)),
         "mixed": lambda: x @ w + 0.5 * rng.normal(size=(case["N"], na)),
         "exact": lambda: x @ w,
         "binary": lambda: (x @ w > 0).astype(float),
         "repeat": lambda: np.repeat(x @ w[:, :1], na, axis=1)}[case["y"]]()
    if case.get("missing"):
        y = np.array(y)
        y[rng.integers(0, len(y), 2), rng.integers(0, na, 2)] = np.nan
    return x * case.get("scale", 1), y


def close(a: Any, b: Any, tol: float, what: str) -> None:
    a, b = np.asarray(a), np.asarray(b)
    require(a.shape == b.shape, f"{what} has shape {a.shape}, expected {b.shape}")
    require(a.dtype.kind == "f", f"{what} has dtype {a.dtype}")
    d = float(np.max(np.abs(a.astype(float) - b))) if a.size else 0.0
    require(d <= tol * (1 + float(np.max(np.abs(b))) if b.size else 1), f"{what} is off by {d}")


def corr(u: Any, v: Any) -> float:
    u, v = u - u.mean(), v - v.mean()
    return float((u @ v) / np.sqrt((u @ u) * (v @ v)))


def distances(z: Any) -> Any:
    return np.array([np.sqrt(((z[i] - z[j]) ** 2).sum())
                     for i in range(len(z)) for j in range(i + 1, len(z))])


def fill(x: Any, xb: Any) -> Any:
    """A good fit of rank 2 by the features to a matrix with missing values."""
    q, _ = np.linalg.qr(x)
    fit = np.zeros_like(xb)
    for _ in range(200):
        u, d, vt = np.linalg.svd(q @ (q.T @ np.where(np.isnan(xb), fit, xb)), full_matrices=False)
        fit = (u[:, :2] * d[:2]) @ vt[:2]
    return fit


def check(case: dict[str, Any]) -> tuple[bool, list[str]]:
    from instancespace.data.options import PilotOptions
    from instancespace.stages.pilot import PilotInput, PilotStage

    x, y = build(case)
    x0_, y0_ = x.copy(), y.copy()
    N, n = x.shape
    na = y.shape[1]
    m = n + na
    xb = np.hstack([x, y])
    labels = [f"feature_{j}" for j in range(n)]
    rng = np.random.default_rng(case["seed"] + 1)
    start = given = None
    mode = case["mode"]
    if mode == "x0":
        start = 2 * rng.random((2 * m + 2 * n, case["tries"])) - 1
    elif mode == "alpha":
        given = rng.normal(size=(2 * m + 2 * n, 1))
    conv = (lambda v: None if v is None else v.tolist() if case["as_list"] else v.copy())
    opts = PilotOptions.default(analytic=mode == "analytic", n_tries=case["tries"],
                                x0=conv(start), alpha=conv(given))
    out = attempt(PilotStage._run, PilotInput(x, y, labels, opts), what="PilotStage._run")
    a = np.asarray(out.a)
    require(a.shape == (2, n), f"A has shape {a.shape}, expected {(2, n)}")
    require(np.isfinite(a.astype(complex)).all(), "A is not finite")
    a = a.astype(float) if a.dtype.kind == "f" else a
    half = 2e-3 if mode in ("numeric", "x0") else 1e-9
    close(out.z, x @ a.T, 1e-9, "Z (= X A')")
    b, c = np.asarray(out.b), np.asarray(out.c)
    require(b.shape == (n, 2), f"B has shape {b.shape}, expected {(n, 2)}")
    require(c.shape == (2, na), f"C has shape {c.shape}, expected {(2, na)}")
    require(b.dtype.kind == "f" and c.dtype.kind == "f", f"B, C have dtypes {b.dtype}, {c.dtype}")
    b, c = b.astype(float), c.astype(float)
    hat = np.hstack([(x @ a.T) @ b.T, (x @ a.T) @ c])
    holes = bool(np.isnan(xb).any())
    err = float(np.nansum((xb - hat) ** 2))
    # the error over missing values is missing, or that of the measured ones
    require(holes and np.isnan(out.error) or abs(float(out.error) - err) <= 1e-9 * (1 + err),
            f"error is {out.error}, expected {err}")
    r2 = np.asarray(out.r2, float)
    eq(tuple(r2.shape), (m,), "shape of r2 (one per feature and algorithm)")
    for j in range(m):
        ok = ~np.isnan(xb[:, j])
        if hat[ok, j].std() > 1e-9:
            w = corr(xb[ok, j], hat[ok, j]) ** 2
            require(not ok.all() and np.isnan(r2[j]) or abs(r2[j] - w) <= 2e-3,
                    f"r2[{j}] is {r2[j]}, expected {w}")
    s = out.pilot_summary
    eq(list(s.columns)[1:], labels, "columns of the projection matrix summary")
    eq(list(s.iloc[:, 0]), ["Z_{1}", "Z_{2}"], "rows of the projection matrix summary")
    close(s.iloc[:, 1:].to_numpy(float), a, 1e-9, "projection matrix summary")
    # what any projection of the features can reach at best
    best = np.nan
    if not holes:
        q, _ = np.linalg.qr(x)
        px = q @ (q.T @ xb)
        sv = np.linalg.svd(px, compute_uv=False)
        best = float(((xb - px) ** 2).sum() + (sv[2:] ** 2).sum())
    require(holes or err >= best - 1e-6 * (1 + best), f"error {err} is below the optimum {best}")
    if mode == "analytic":
        _, d, vt = np.linalg.svd(xb, full_matrices=False)
        if len(d) > 2 and d[1] - d[2] > 1e-3 * d[0]:
            v = np.vstack([b, c.T])
            close(v.T @ v, np.eye(2), 1e-8, "[B; C']' [B; C']")
            close(v @ v.T, vt[:2].T @ vt[:2], 1e-6, "projector on the principal components")
            unit = float(np.abs(x.T @ (xb @ v)).max())
            close(x.T @ (x @ a.T) / unit, x.T @ (xb @ v) / unit, 1e-7,
                  "least squares fit of the components")
        require(out.X0 is None and out.eoptim is None and out.perf is None, "numerical outputs")
    elif mode == "alpha":
        al = given[:, 0]
        close(a, al[:2 * n].reshape(2, n), 1e-9, "A of the given solution")
        full = al[2 * n:].reshape(m, 2)
        close(b, full[:n], 1e-9, "B of the given solution")
        close(c, full[n:].T, 1e-9, "C of the given solution")
    else:
        t = case["tries"]
        al = np.asarray(out.alpha, float)
        eq(tuple(al.shape), (2 * m + 2 * n, t), "shape of alpha")
        eo, pf = np.asarray(out.eoptim, float), np.asarray(out.perf, float)
        eq((eo.shape, pf.shape), ((t,), (t,)), "shapes of eoptim, perf")
        if start is not None:
            close(out.X0, start, 1e-12, "starting points")
        k = int(np.argmax(pf))
        hd = distances(x)
        for i in range(t):
            ai = al[:2 * n, i].reshape(2, n)
            bi = al[2 * n:, i].reshape(m, 2)
            sq = (xb - x @ ai.T @ bi.T) ** 2
            # with missing values: over all measured ones, or the mean of every instance
            ei = min((float(np.nanmean(sq)), float(np.nanmean(np.nanmean(sq, axis=1)))),
                     key=lambda v: abs(v - eo[i]))
            scale = float(np.nanmean(xb ** 2))
            require(abs(ei - eo[i]) <= 0.02 * scale, f"eoptim[{i}] is {eo[i]}, alpha has {ei}")
            w = corr(hd, distances(x @ ai.T))
            require(abs(w - pf[i]) <= 0.02, f"perf[{i}] is {pf[i]}, expected {w}")
        top = [i for i in range(t) if pf[i] >= pf[k] - 1e-9]
        require(any(np.allclose(a, al[:2 * n, i].reshape(2, n), atol=1e-9)
                    and np.allclose(np.vstack([b, c.T]), al[2 * n:, i].reshape(m, 2), atol=1e-9)
                    for i in top), "A, B, C are not the trial that keeps distances best")
        scale = float(np.nansum(xb ** 2))
        if holes:
            best = float(np.nansum((xb - fill(x, xb)) ** 2))
        slack = 0.03 if holes else 0.0
        require(err <= best + (0.02 + slack) * scale, f"error {err} is far from the optimum {best}")
        require(float(eo.max()) * xb.size <= best + (0.05 + 2 * slack) * scale,
                f"a trial ended with {eo.max() * xb.size}, optimum {best}")
    require((x == x0_).all() and np.array_equal(y, y0_, equal_nan=True), "an input was changed")
    return n >= 3, [mode, case["y"]] + (["missing"] if holes else [])


SUBS = [Sub("projection", case_st, check, 700, 20000)]
