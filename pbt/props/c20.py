"""C20: the plots of a model."""
from __future__ import annotations

import os
import shutil
import tempfile
from pathlib import Path
from typing import Any

import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, attempt, eq, require
from pbt.models import make, model_st, snapshot

RULE = ("generated models; the figures are taken apart as they are saved (points, colour values, "
        "groups, outlines), a few are rendered; non-trivial = at least 2 algorithms and an outline")
ASSUMPTIONS = ["the global scale of negative performance is any that keeps order and ends",
               "colour values of columns that do not vary are left open, an instance without a value "
               "may be left out of the plot of it",
               "which colours and sizes are used is not checked; labels that start with _ have no "
               "entry in a legend"]


class Saved:
    """What was on a figure when it was saved."""

    def __init__(self, fig: Any) -> None:
        self.title = fig.get_suptitle() if hasattr(fig, "get_suptitle") else (
            fig._suptitle.get_text() if fig._suptitle else "")
        ax = fig.axes[0]
        self.groups = [(str(c.get_label()), np.asarray(c.get_offsets(), float),
                        None if c.get_array() is None else np.ma.filled(
                            np.ma.asarray(c.get_array(), float), np.nan))
                       for c in ax.collections]
        # points without a value are masked: they are not drawn
        self.hidden = [np.ma.getmaskarray(np.ma.asarray(c.get_offsets())).any(axis=1)
                       for c in ax.collections]
        self.limits = [sorted(ax.get_xlim()), sorted(ax.get_ylim())]
        self.axes = [ax.get_xlabel(), ax.get_ylabel()]
        c = ax.collections
        self.colours = [{tuple(map(float, v)) for v in q.get_facecolor()} for q in c]
        self.norms = [(q.norm.vmin, q.norm.vmax) for q in c]
        # the colours points and the scale are drawn in
        self.drawn = []
        for q in c:
            q.update_scalarmappable()
            self.drawn.append(np.asarray(q.get_facecolor(), float))
        self.scale = None if len(fig.axes) < 2 else sorted(fig.axes[1].get_ylim())
        lg = ax.get_legend()
        self.legend = None if lg is None else [
            (t.get_text(), tuple(map(float, h.get_facecolor()[0])))
            for t, h in zip(lg.get_texts(), lg.legend_handles)]
        self.patch_colours = [tuple(map(float, q.get_facecolor()[:3])) for q in ax.patches]
        self.patches = [[tuple(map(float, p)) for p in q.get_xy()] for q in ax.patches]

    def grouped(self) -> dict[str, list[Any]]:
        out: dict[str, list[Any]] = {}
        for lb, pts, _ in self.groups:
            if len(pts):
                out.setdefault(lb, []).extend(map(tuple, pts.tolist()))
        return {k: sorted(v) for k, v in out.items()}


def capture(fn: Any, out: Path) -> dict[str, Saved]:
    import matplotlib.figure as mf
    saved: dict[str, Saved] = {}
    old = mf.Figure.savefig

    def fake(self: Any, fname: Any, *a: Any, **k: Any) -> None:
        saved[os.path.relpath(str(fname), str(out))] = Saved(self)

    mf.Figure.savefig = fake  # type: ignore[method-assign]
    try:
        attempt(fn, what="Model.save_graphs")
    finally:
        mf.Figure.savefig = old  # type: ignore[method-assign]
    return saved


def spread(s: Saved, name: str, z: Any, title: str, v: Any, lo: float, hi: float,
           exact: bool = True) -> None:
    """One point per instance, coloured by its value v between lo and hi."""
    eq(s.title, title, f"title of {name}")
    eq(len(s.groups), 1, f"groups of points in {name}")
    _, pts, c = s.groups[0]
    require(pts.shape == z.shape and (pts == z).all(), f"{name}: points are not the instances")
    there = ~np.isnan(v)  # an instance without a value may be left out
    hidden = s.hidden[0] | (s.drawn[0][:, 3] == 0 if len(s.drawn[0]) == len(z) else False)
    require(not (hidden & there).any(),
            f"{name}: instances {np.flatnonzero(hidden & there)} are not drawn")
    if not hi > lo * (1 + 1e-6) if lo >= 0 else not hi > lo:
        return  # whatever colour
    require(c is not None and c.shape == v.shape, f"{name}: no colour value per instance")
    v, c, drawn = v[there], c[there], s.drawn[0][there]
    if exact:
        want = (v - lo) / (hi - lo)
        require(np.allclose(c, want, rtol=1e-9, atol=1e-9 + 1e-15 / (hi - lo)),
                f"{name}: colour values {c}, expected {want}")
    else:
        o = np.argsort(v, kind="stable")
        require((np.diff(c[o]) >= -1e-12).all(), f"{name}: colour values are not in order")
        require((c >= -1e-9).all() and (c <= 1 + 1e-9).all(), f"{name}: colour values {c}")
        for end, w in ((lo, 0.0), (hi, 1.0)):
            require(np.allclose(c[v == end], w), f"{name}: the value {end} has {c[v == end]}")
    n0, n1 = s.norms[0]
    require(v.max() <= v.min() or s.scale is not None and np.allclose(s.scale, [n0, n1]),
            f"{name}: the scale is {s.scale}, colours are for {[n0, n1]}")
    top, low = drawn[np.argmax(v)], drawn[np.argmin(v)]
    require(c.max() <= c.min() + 1e-9 or not np.allclose(top, low),
            f"{name}: highest and lowest value have the same colour")


def grouped(s: Saved, name: str, z: Any, title: str, want: dict[str, Any]) -> None:
    eq(s.title, title, f"title of {name}")
    exp: dict[str, list[Any]] = {}
    for lb, sel in want.items():
        if sel.any():
            exp.setdefault(lb, []).extend(map(tuple, z[sel].tolist()))
    eq([lb for lb, _ in s.legend or []], [g[0] for g in s.groups if not g[0].startswith("_")],
       f"legend of {name}")
    own: dict[Any, str] = {}
    for (lb, _, _), c in zip(s.groups, s.colours):
        eq(len(c), 1, f"colours of group {lb} in {name}")
        one = next(iter(c))
        require(own.setdefault(one, lb) == lb,
                f"{name}: groups {own[one]} and {lb} have the same colour")
        require(all(lc == one for ll, lc in s.legend if ll == lb) or len(
            {g[0] for g in s.groups}) < len(s.groups),
            f"{name}: legend and instances of {lb} differ in colour")
    eq(s.grouped(), {k: sorted(v) for k, v in exp.items()}, f"groups of points in {name}")


def outlines(s: Saved, name: str, want: list[Any]) -> None:
    """Patches are the given outlines (corners, any start, order of parts open)."""
    def norm(c: Any) -> Any:
        return frozenset((float(x), float(y)) for x, y in c)
    got = sorted((norm(p) for p in s.patches if len(p)), key=sorted)
    exp = sorted((norm(p) for p in want), key=sorted)
    eq([sorted(g) for g in got], [sorted(g) for g in exp], f"outlines in {name}")


def coloured(s: Saved, name: str, owners: dict[str, list[Any]]) -> None:
    """Outlines have the colour of the instances they are about."""
    if len({g[0] for g in s.groups}) < len(s.groups):
        return
    colour = {lb: next(iter(c))[:3] for (lb, _, _), c in zip(s.groups, s.colours)}
    of = {frozenset(tuple(map(float, p)) for p in c): lb for lb, cs in owners.items() for c in cs}
    for patch, c in zip(s.patches, s.patch_colours):
        lb = of.get(frozenset(patch))
        if lb is not None:
            eq([round(v, 6) for v in c], [round(v, 6) for v in colour[lb]],
               f"{name}: colour of an outline of {lb}")


def check(case: dict[str, Any]) -> tuple[bool, list[str]]:
    import matplotlib.pyplot as plt
    model, corners = make(case)
    d = model.data
    before = snapshot(model)
    out = Path(tempfile.mkdtemp(prefix="c20_"))
    try:
        if case.get("render"):
            attempt(model.save_graphs, out, what="Model.save_graphs")
            files = {f: (out / f).read_bytes() for f in os.listdir(out)}
            require(all(v.startswith(b"\x89PNG") for v in files.values()), "not a PNG file")
            saved = None
        else:
            saved = capture(lambda: model.save_graphs(str(out)), out)
            files = dict.fromkeys(saved)
        require(snapshot(model) == before, "saving changed the model")
        require(len(plt.get_fignums()) <= 1, f"{len(plt.get_fignums())} figures were left open")
    finally:
        plt.close("all")
        shutil.rmtree(out, ignore_errors=True)
    feats, algos = case["feats"], case["algos"]
    na = len(algos)
    want = [f"distribution_feature_{f}.png" for f in feats]
    for a in algos:
        want += [f"distribution_performance_global_normalized_{a}.png",
                 f"distribution_performance_individual_normalized_{a}.png",
                 f"binary_performance_{a}.png", f"binary_svm_{a}.png", f"footprint_{a}.png"]
    want += ["distribution_number_good_algos.png", "distribution_portfolio.png",
             "distribution_svm_portfolio.png", "distribution_beta_score.png",
             "footprint_portfolio.png"] + (["distribution_sources.png"] if case["sources"] else [])
    eq(sorted(files), sorted(want), "plots written")
    if saved is None:
        return True, ["rendered"]

    z = model.pilot.z
    for nm, s in saved.items():
        eq(s.axes, ["z_{1}", "z_{2}"], f"axes of {nm}")
        for k, (lo, hi) in enumerate(s.limits):
            require(lo <= z[:, k].min() and z[:, k].max() <= hi,
                    f"{nm} shows {[lo, hi]} of axis {k + 1}, instances are at "
                    f"{[z[:, k].min(), z[:, k].max()]}")
    y_foot = model.pythia.y_hat if case["sim"] else d.y_bin
    p_foot = model.pythia.selection0 if case["sim"] else d.p
    exact = not np.nanmin(d.y_raw) < 0  # the scale is logarithmic
    glb = np.log10(d.y_raw + 1) if exact else d.y_raw
    for i, f in enumerate(feats):
        v = d.x[:, i]
        spread(saved[want[i]], want[i], z, f.replace("_", " "), v, v.min(), v.max())
    for i, a in enumerate(algos):
        t = a.replace("_", " ")
        nm = f"distribution_performance_global_normalized_{a}.png"
        spread(saved[nm], nm, z, t, glb[:, i], np.nanmin(glb), np.nanmax(glb), exact)
        nm = f"distribution_performance_individual_normalized_{a}.png"
        v = d.y_raw[:, i]
        spread(saved[nm], nm, z, t, v, np.nanmin(v), np.nanmax(v))
        for nm, b in ((f"binary_performance_{a}.png", d.y_bin[:, i]),
                      (f"binary_svm_{a}.png", model.pythia.y_hat[:, i])):
            grouped(saved[nm], nm, z, t, {"GOOD": b, "BAD": ~b})
        nm = f"footprint_{a}.png"
        b = y_foot[:, i]
        grouped(saved[nm], nm, z, t + " Footprint", {"GOOD": b, "BAD": ~b})
        outlines(saved[nm], nm, corners["good"][i] if b.any() else [])
        coloured(saved[nm], nm, {"GOOD": corners["good"][i] if b.any() else []})
    nm = "distribution_number_good_algos.png"
    spread(saved[nm], nm, z, "Percentage of good algorithms",
           d.num_good_algos / na, 0.0, 1.0)
    nm = "distribution_beta_score.png"
    grouped(saved[nm], nm, z, "Beta score", {"GOOD": d.beta, "BAD": ~d.beta})

    def by_algo(p: Any) -> dict[str, Any]:
        w: dict[str, Any] = {}
        for lb, sel in [("None", p == 0)] + [(a.replace("_", " "), p == i + 1)
                                             for i, a in enumerate(algos)]:
            w[lb] = w[lb] | sel if lb in w else sel
        return w

    nm = "distribution_portfolio.png"
    grouped(saved[nm], nm, z, "Best algorithm", by_algo(d.p))
    nm = "distribution_svm_portfolio.png"
    grouped(saved[nm], nm, z, "Predicted best algorithm", by_algo(model.pythia.selection0))
    nm = "footprint_portfolio.png"
    grouped(saved[nm], nm, z, "Portfolio footprints", by_algo(p_foot))
    outlines(saved[nm], nm, [c for i in range(na) if (p_foot == i + 1).any()
                             for c in corners["best"][i]])
    coloured(saved[nm], nm, {a.replace("_", " "): corners["best"][i] for i, a in enumerate(algos)
                             if (p_foot == i + 1).any()})
    if case["sources"]:
        nm = "distribution_sources.png"
        s = [None if v != v else v for v in d.s]
        fig = saved[nm]
        want_s = {v: np.array([w == v for w in s]) for v in set(s) if v is not None}
        none = np.array([v is None for v in s])
        if none.any():  # under whatever name, but not that of a source
            name = [g[0] for g in fig.groups if len(g[1]) and g[0] not in want_s]
            eq(len(name), 1, f"groups of {nm} that are not sources")
            want_s[name[0]] = none
        grouped(fig, nm, z, "Sources", want_s)
    return na > 1 and any(corners["best"] + corners["good"]), [
        "sim" if case["sim"] else "data", case["values"]]


@st.composite
def render_st(draw: Any) -> dict[str, Any]:
    c = draw(model_st(plain=True))
    c["render"] = True
    return c


SUBS = [Sub("figures", model_st, check, 240, 5000),
        Sub("rendered", render_st, check, 8, 80, shrink=False)]
