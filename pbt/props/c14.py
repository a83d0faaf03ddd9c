"""C14: TRACE: footprints of good, best and beta performance and their summary."""
from __future__ import annotations

from typing import Any

import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, attempt, eq, require

RULE = ("generated instance spaces (random and clustered points, duplicates) with labels that "
        "follow regions or chance; non-trivial = some footprint has an area and some instance "
        "is not good")
ASSUMPTIONS = ["best algorithms are numbered from 0, -1 for none, as the stage takes them",
               "counts may differ by the instances within 1e-6 of the outline of a footprint "
               "(C15 settles the outline itself)"]
EPS = 1e-6
AREA = 1e-3  # closing gaps of 0.01 turns rounding where outlines touch into such areas


@st.composite
def case_st(draw: Any) -> dict[str, Any]:
    na = draw(st.sampled_from([1, 2, 2, 3, 3, 5]))
    return {"n": draw(st.sampled_from([draw(st.integers(6, 60)), draw(st.integers(60, 160))])), "seed": draw(st.integers(0, 2**31)),
            "space": draw(st.sampled_from(["normal", "blobs", "grid"])),
            "spread": draw(st.sampled_from([0.5, 1.0, 2.0])),
            "algos": [draw(st.sampled_from(["half", "disc", "random", "all", "two", "none"]))
                      for _ in range(na)],
            "best": draw(st.sampled_from(["regions", "noisy", "random", "regions", "noisy", "random", "one"])),
            "beta": draw(st.sampled_from(["random", "all", "none", "region", "two"])),
            "sim": draw(st.booleans()),
            "purity": draw(st.sampled_from([0.1, 0.55, 0.75, 0.9, 1.0])),
            "cores": draw(st.integers(1, 4)), "dup": draw(st.booleans())}


def space(case: dict[str, Any], rng: Any) -> Any:
    n = case["n"]
    if case["space"] == "normal":
        z = rng.normal(size=(n, 2))
    elif case["space"] == "blobs":
        c = rng.uniform(-3, 3, size=(3, 2))
        z = c[rng.integers(0, 3, n)] + 0.4 * rng.normal(size=(n, 2))
    else:
        z = rng.integers(-3, 4, size=(n, 2)) / 2 + 1e-3 * rng.normal(size=(n, 2))
    z = z * case["spread"]
    if case["dup"]:
        z[rng.integers(0, n, n // 4)] = z[rng.integers(0, n, n // 4)]
    return z


def labels(kind: str, z: Any, rng: Any) -> Any:
    n = len(z)
    out = np.zeros(n, bool)
    if kind == "half":
        out = z @ rng.normal(size=2) > 0
    elif kind == "disc":
        d = ((z - z[rng.integers(n)]) ** 2).sum(1)
        out = d <= np.quantile(d, 0.5)
    elif kind == "random":
        out = rng.random(n) < 0.5
    elif kind == "all":
        out = ~out
    elif kind == "two":
        out[rng.permutation(n)[:2]] = True
    return out


def best_of(kind: str, z: Any, na: int, rng: Any) -> Any:
    if kind == "random":
        return rng.integers(-1, na, len(z))
    if kind == "one":
        return np.full(len(z), rng.integers(-1, na))
    if kind == "pair":
        # two of the algorithms share the space, one of them is the best one more often
        a, b = rng.permutation(na)[:2]
        out = np.where(rng.random(len(z)) < rng.choice([0.3, 0.4, 0.6, 0.7]), a, b)
        rest = z @ rng.normal(size=2)
        far = rest > np.quantile(rest, 0.85)
        out[far] = rng.integers(0, na, far.sum())
        return out
    s = z @ rng.normal(size=(2, na))
    if kind == "mixed":
        # one region in which any algorithm may be the best one
        s = s / np.abs(z).mean()
        s[rng.random(len(z)) < 0.5] += rng.normal(size=na)
        some = rng.random(len(z)) < 0.4
        s[some] = 3 * rng.normal(size=(some.sum(), na))
    if kind == "noisy":
        s = s + 0.7 * rng.normal(size=s.shape) * np.abs(z).mean()
    return np.argmax(s, axis=1)


def build(case: dict[str, Any]) -> dict[str, Any]:
    rng = np.random.default_rng(case["seed"])
    z = space(case, rng)
    na = len(case["algos"])
    yb = np.column_stack([labels(k, z, rng) for k in case["algos"]])
    p = best_of(case["best"], z, na, rng)
    # what the other source of results says must not matter
    other = np.column_stack([labels("random", z, rng) for _ in range(na)])
    po = rng.integers(0, na, len(z))
    beta = {"random": rng.random(len(z)) < 0.5, "all": np.ones(len(z), bool),
            "none": np.zeros(len(z), bool), "two": ~labels("two", z, rng),
            "region": z[:, 0] > np.median(z[:, 0])}[case["beta"]]
    return {"z": z, "used": yb, "p": p, "other": other, "po": po, "beta": beta}


def run(case: dict[str, Any], d: dict[str, Any]) -> Any:
    from instancespace.data.options import ParallelOptions, TraceOptions
    from instancespace.stages.trace import TraceInputs, TraceStage
    sim = case["sim"]
    na = d["used"].shape[1]
    return attempt(TraceStage._run, TraceInputs(
        z=d["z"], selection0=d["p"] if sim else d["po"], p=d["po"] if sim else d["p"],
        beta=d["beta"], algo_labels=[f"algo_{i}" for i in range(na)],
        y_hat=d["used"] if sim else d["other"], y_bin=d["other"] if sim else d["used"],
        trace_options=TraceOptions(sim, case["purity"]),
        parallel_options=ParallelOptions(case["cores"] > 1, case["cores"])),
        what="TraceStage._run")


def empty(fp: Any) -> bool:
    return fp.polygon is None or fp.polygon.is_empty


def stats(fp: Any, z: Any, good: Any, who: str) -> None:
    """The numbers of a footprint are those of its outline."""
    import shapely
    if empty(fp):
        eq([float(fp.area), float(fp.elements), float(fp.good_elements), float(fp.density),
            float(fp.purity)], [0.0] * 5, f"{who} without an outline: its numbers")
        return
    poly = fp.polygon
    require(abs(fp.area - poly.area) <= 1e-9 * (1 + poly.area), f"{who}: area {fp.area}")
    pts = shapely.points(z)
    near = shapely.distance(poly.boundary, pts) <= EPS
    inside = shapely.contains_xy(poly, z[:, 0], z[:, 1])
    for what, got, sel in (("elements", fp.elements, np.ones(len(z), bool)),
                           ("good_elements", fp.good_elements, good)):
        lo = int((inside & ~near & sel).sum())
        hi = int(((inside | near) & sel).sum())
        require(lo <= got <= hi, f"{who}: {what} is {got}, there are {lo} (to {hi}) inside")
    require(fp.good_elements <= fp.elements, f"{who}: more good elements than elements")
    want = fp.elements / fp.area if fp.area else 0.0
    require(abs(fp.density - want) <= 1e-9 * (1 + want), f"{who}: density {fp.density}, not {want}")
    want = fp.good_elements / fp.elements if fp.elements else 0.0
    require(abs(fp.purity - want) <= 1e-12, f"{who}: purity {fp.purity}, not {want}")


def check(case: dict[str, Any]) -> tuple[bool, list[str]]:
    from shapely.geometry import MultiPoint
    d = build(case)
    keep = {k: v.copy() for k, v in d.items()}
    z = d["z"]
    na = d["used"].shape[1]
    out = run(case, d)
    for k, v in keep.items():
        require(np.array_equal(d[k], v), f"input {k} was changed")
    eq((len(out.good), len(out.best)), (na, na), "numbers of footprints")
    hull = MultiPoint(z).convex_hull.buffer(0.03)
    todo = [("space", out.space, np.ones(len(z), bool)), ("beta", out.hard, ~d["beta"])]
    todo += [(f"good {i}", out.good[i], d["used"][:, i]) for i in range(na)]
    todo += [(f"best {i}", out.best[i], d["p"] == i) for i in range(na)]
    found = 0
    for who, fp, sel in todo:
        stats(fp, z, sel, who)
        if not empty(fp):
            found += 1
            require(fp.polygon.difference(hull).area <= 1e-9, f"{who} leaves the instance space")
        if len(np.unique(z[sel], axis=0)) < 3:
            require(fp.polygon is None, f"{who}: an outline from fewer than 3 instances")
        elif not sel.all() and not who.startswith("best") and not empty(fp) and fp.elements:
            # pieces that are less pure than asked are cut off
            near = near_count(fp, z)
            require(fp.good_elements + near >= case["purity"] * (fp.elements - near) - 1e-9,
                    f"{who}: purity {fp.purity} (of {fp.elements}), asked for {case['purity']}")
    if na <= 2 and na > 1:
        resolved(out.best[0], out.best[1], z, d["p"] == 0, d["p"] == 1)
    summary(out, na)
    how = against_reference(case, d, out)
    return found > 1 and not d["used"].all(), ["sim" if case["sim"] else "data", case["space"],
                                               f"{min(found, 6)} outlines", how]


# ---------------------------------------------------------------- reference

def within(geom: Any, pts: Any, toss: Any = None) -> Any:
    """Which points lie in a geometry; with a generator those on its outline go either way."""
    import shapely
    if not len(pts):
        return np.zeros(0, bool)
    out = shapely.contains_xy(geom, pts[:, 0], pts[:, 1])
    if toss is not None:
        near = shapely.distance(geom.boundary, shapely.points(pts)) <= EPS
        out = np.where(near, toss.random(len(pts)) < 0.5, out)
    return out


def ref_fit(data: Any, z: Any, good: Any, purity: float) -> Any:
    """The outline of some instances without the triangles that are not pure enough."""
    import alphashape
    from shapely.ops import triangulate
    if len(data) < 3:
        return None
    poly = alphashape.alphashape(data, 2.15).simplify(0.05)
    if good.all():
        return poly
    if poly.is_empty:
        return None
    left = poly
    for piece in triangulate(poly):
        inside = within(piece, z)
        n, k = int(inside.sum()), int((inside & good).sum())
        if n and k / n < purity:
            left = left.difference(piece)
    return left


def ref_build(z: Any, good: Any, purity: float) -> Any:
    """The footprint of the instances that are good, before contradictions are resolved."""
    from math import gamma

    from pbt.props import c16
    rows = np.unique(z[good], axis=0)
    if len(rows) < 3:
        return None
    k = int(max(min(np.ceil(good.sum() / 20), 50), 3))
    m, dim = rows.shape
    eps = float((np.prod(rows.max(0) - rows.min(0)) * k * gamma(dim / 2 + 1)
                 / (m * np.pi ** (dim / 2))) ** (1 / dim))
    lab, margin = c16.reference(rows, k, eps)
    if margin < 1e-9:
        raise Unsettled
    lab = np.array(lab)
    poly = None
    for c in range(1, lab.max() + 1):
        part = ref_fit(rows[lab == c], z, good, purity)
        if part is not None and not part.is_empty:
            poly = part if poly is None else poly.union(part)
    if poly is None:
        from shapely.geometry import Polygon
        return Polygon()
    return poly.buffer(0.01).buffer(-0.01)


def ref_contra(a: Any, b: Any, z: Any, ga: Any, gb: Any, purity: float, toss: Any) -> Any:
    """Up to three rounds: where two footprints overlap the less pure one gives way."""
    if a is None or b is None:
        return a, b
    polys, goods = [a, b], [ga, gb]
    for turn in range(3):
        both = polys[0].intersection(polys[1])
        if both.is_empty:
            break
        inside = within(both, z, toss)
        na, nb = int((inside & ga).sum()), int((inside & gb).sum())
        if na == nb:
            break
        loser = 1 if na > nb else 0
        rest = polys[loser].difference(both)
        if turn < 2:
            rest = ref_tight(rest, z, goods[loser], purity, toss)
        polys[loser] = rest
        if rest is None or rest.is_empty:
            break
    return polys[0], polys[1]


def ref_tight(geom: Any, z: Any, good: Any, purity: float, toss: Any) -> Any:
    from shapely.geometry import MultiPolygon
    from shapely.ops import unary_union
    parts = list(geom.geoms) if isinstance(geom, MultiPolygon) else [geom]
    kept = []
    for part in parts:
        data = np.unique(z[within(part, z, toss) & good], axis=0)
        fit = ref_fit(data, z, good, purity) if len(data) >= 3 else None
        if fit is not None and not fit.is_empty:
            kept.append(fit)
    return unary_union(kept) if kept else None


class Unsettled(Exception):
    """A choice that hangs on rounding."""


def ref_best(first: Any, z: Any, goods: Any, purity: float, toss: Any) -> Any:
    """The best footprints after every pair was compared."""
    best = list(first)
    for i in range(len(best)):
        for j in range(i + 1, len(best)):
            best[i], best[j] = ref_contra(best[i], best[j], z, goods[i], goods[j], purity, toss)
    return best


def settled(first: Any, best: Any, z: Any, goods: Any, purity: float) -> bool:
    """No choice between the best footprints hangs on instances on an outline."""
    for seed in range(6):
        try:
            other = ref_best(first, z, goods, purity, np.random.default_rng(seed))
        except Exception:  # noqa: BLE001  the drawing itself failed
            return False
        if any(between(a, b) > AREA for a, b in zip(best, other)):
            return False
    return True


def between(a: Any, b: Any) -> float:
    """Area in which two outlines differ."""
    a, b = (None if g is None or g.is_empty else g for g in (a, b))
    if a is None or b is None:
        return 0.0 if a is b else float((a or b).area)
    return float(a.symmetric_difference(b).area)


def against_reference(case: dict[str, Any], d: dict[str, Any], out: Any) -> str:
    """All outlines are those of an independent implementation."""
    z, q = d["z"], case["purity"]
    na = d["used"].shape[1]
    try:
        single = [("space", out.space, np.ones(len(z), bool)), ("beta", out.hard, ~d["beta"])]
        single += [(f"good {i}", out.good[i], d["used"][:, i]) for i in range(na)]
        for who, fp, good in single:
            want = ref_build(z, good, q)
            require(between(fp.polygon, want) <= AREA, f"{who}: the outline (area {fp.area}) and the "
                    f"expected one ({want and want.area}) differ by an area of "
                    f"{between(fp.polygon, want)}")
        goods = [d["p"] == i for i in range(na)]
        first = [ref_build(z, g, q) for g in goods]
    except Unsettled:
        return "unsettled"
    best = ref_best(first, z, goods, q, None)
    changed = any(a is not b for a, b in zip(first, best))
    off = [between(fp.polygon, want) for fp, want in zip(out.best, best)]
    if max(off) > AREA:
        if not settled(first, best, z, goods, q):
            return "hangs on outlines, other choice"
        require(False, f"best {int(np.argmax(off))}: the outline and the expected one differ by "
                f"an area of {max(off)}")
    return "contradictions" if changed else "no contradictions"


def near_count(fp: Any, z: Any) -> int:
    """Instances the closing of narrow gaps (by 0.01) may add or drop."""
    import shapely
    return int((shapely.distance(fp.polygon.boundary, shapely.points(z)) <= 0.0101).sum())


def resolved(a: Any, b: Any, z: Any, ga: Any, gb: Any) -> None:
    """Two best footprints only share areas in which both are equally pure."""
    import shapely
    if empty(a) or empty(b):
        return
    both = a.polygon.intersection(b.polygon)
    if both.area <= 1e-9:
        return
    inside = shapely.contains_xy(both, z[:, 0], z[:, 1])
    if (shapely.distance(both.boundary, shapely.points(z)) <= EPS).any():
        # instances on the outline: their side is not settled
        return
    eq(int((inside & ga).sum()), int((inside & gb).sum()),
       "instances of the two algorithms in the area both best footprints claim")


def summary(out: Any, na: int) -> None:
    t = out.trace_summary
    eq(list(t["Algorithm"]), [f"algo_{i}" for i in range(na)], "rows of the summary")
    for i in range(na):
        for fp, nm in ((out.good[i], "Good"), (out.best[i], "Best")):
            sa, sd = out.space.area, out.space.density
            want = {f"Area_{nm}": fp.area, f"Area_{nm}_Normalised": fp.area / sa if sa else fp.area,
                    f"Density_{nm}": fp.density,
                    f"Density_{nm}_Normalised": fp.density / sd if sd else fp.density,
                    f"Purity_{nm}": fp.purity}
            for k, v in want.items():
                got = float(t.iloc[i][k])
                require(abs(got - v) <= 1e-9 * (1 + abs(v)), f"{k} of algo {i} is {got}, not {v}")


# ---------------------------------------------------------------- overlapping best footprints

@st.composite
def mixed_st(draw: Any) -> dict[str, Any]:
    best = draw(st.sampled_from(["mixed", "mixed", "random", "pair"]))
    na = draw(st.sampled_from([4, 5, 6] if best == "pair" else [2, 2, 3, 4]))
    return {"n": draw(st.integers(50, 160)), "seed": draw(st.integers(0, 2**31)),
            "space": draw(st.sampled_from(["normal", "blobs"])),
            "spread": draw(st.sampled_from([0.4, 0.7, 1.0])),
            "algos": ["random"] * na, "best": best,
            "beta": "random", "sim": draw(st.booleans()),
            "purity": draw(st.sampled_from([0.1, 0.2, 0.3, 0.4, 0.5])),
            "cores": draw(st.integers(1, 4)), "dup": draw(st.booleans())}


# ---------------------------------------------------------------- order of the instances

@st.composite
def order_st(draw: Any) -> dict[str, Any]:
    c = draw(case_st())
    c["space"] = draw(st.sampled_from(["normal", "blobs"]))
    c["dup"] = False
    return c


def check_order(case: dict[str, Any]) -> tuple[bool, list[str]]:
    """Footprints depend on the instances, not on their order."""
    d = build(case)
    a = run(case, d)
    perm = np.random.default_rng(case["seed"] + 1).permutation(len(d["z"]))
    b = run(dict(case, cores=1), {k: v[perm] for k, v in d.items()})
    na = d["used"].shape[1]
    todo = [("space", a.space, b.space), ("beta", a.hard, b.hard)]
    todo += [(f"good {i}", a.good[i], b.good[i]) for i in range(na)]
    goods = [d["p"] == i for i in range(na)]
    try:
        first = [ref_build(d["z"], g, case["purity"]) for g in goods]
        best = ref_best(first, d["z"], goods, case["purity"], None)
        sure = settled(first, best, d["z"], goods, case["purity"])
    except Unsettled:
        sure = False
    if sure:
        todo += [(f"best {i}", a.best[i], b.best[i]) for i in range(na)]
    some = False
    for who, u, v in todo:
        require(abs(u.area - v.area) <= AREA,
                f"{who}: area {u.area}, with the instances reordered {v.area}")
        some |= u.area > 0
    return some, ["best compared" if sure else "best hang on outlines"]


# ---------------------------------------------------------------- planted regions

@st.composite
def planted_st(draw: Any) -> dict[str, Any]:
    return {"k": draw(st.integers(100, 130)), "seed": draw(st.integers(0, 2**31)),
            "gap": draw(st.sampled_from([5.0, 8.0])), "sim": draw(st.booleans()),
            "purity": draw(st.sampled_from([0.55, 0.9])), "cores": 2,
            "base": draw(st.integers(0, 3))}


def check_planted(case: dict[str, Any]) -> tuple[bool, list[str]]:
    """Algorithms that rule one region each get that region."""
    rng = np.random.default_rng(case["seed"])
    k = case["k"]
    th = case["base"] * np.pi / 4
    cs = case["gap"] / 2 * np.array([[np.cos(th), np.sin(th)], [-np.cos(th), -np.sin(th)]])
    # evenly filled discs (sunflower), slightly shaken
    r = np.sqrt((np.arange(k) + 0.5) / k)
    t = np.arange(k) * np.pi * (3 - np.sqrt(5))
    z = np.concatenate([c + np.column_stack([r * np.cos(t), r * np.sin(t)])
                        + 0.02 * rng.normal(size=(k, 2)) for c in cs])
    own = np.repeat([0, 1], k)
    yb = np.column_stack([own == 0, own == 1])
    p = rng.permutation(2 * k)
    z, own, yb = z[p], own[p], yb[p]
    out = run(case, {"z": z, "used": yb, "p": own, "other": ~yb, "po": 1 - own,
                     "beta": own == 0})
    for i in range(2):
        for nm, fp in (("good", out.good[i]), ("best", out.best[i])):
            require(not empty(fp) and fp.elements >= 0.6 * k,
                    f"{nm} {i}: {fp.elements} of the {k} instances of its region")
            eq(int(fp.good_elements), int(fp.elements), f"{nm} {i}: good elements")
            c = fp.polygon.centroid
            require(np.hypot(c.x - cs[i][0], c.y - cs[i][1]) < 1.0, f"{nm} {i} is elsewhere")
            require(2.0 <= fp.area <= 3.6, f"{nm} {i} has area {fp.area}")
    c = out.hard.polygon.centroid
    require(np.hypot(c.x - cs[1][0], c.y - cs[1][1]) < 1.0, "the beta footprint is elsewhere")
    return True, [f"gap {case['gap']}"]


# ---------------------------------------------------------------- contradictions

@st.composite
def contra_st(draw: Any) -> dict[str, Any]:
    return {"n": draw(st.integers(20, 60)), "seed": draw(st.integers(0, 2**31)),
            "mix": draw(st.floats(0.5, 1.0)), "shift": draw(st.floats(0.2, 1.5)),
            "purity": draw(st.sampled_from([0.1, 0.3, 0.55])),
            "turn": draw(st.floats(0, 6.28)), "swap": draw(st.booleans())}


def box(cx: float, w: float, h: float, turn: float) -> Any:
    from shapely import affinity
    from shapely.geometry import Polygon
    p = Polygon([(cx - w, -h), (cx + w, -h), (cx + w, h), (cx - w, h)])
    return affinity.rotate(p, turn, origin=(0, 0), use_radians=True)


def check_contra(case: dict[str, Any]) -> tuple[bool, list[str]]:
    """The footprint that is less pure where two overlap gives the area up."""
    import shapely
    from instancespace.data.model import Footprint
    from instancespace.data.options import ParallelOptions, TraceOptions
    from instancespace.stages.trace import TraceStage
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    raw = rng.uniform([-2.5, -1], [2.5, 1], size=(n, 2))
    cs, sn = np.cos(case["turn"]), np.sin(case["turn"])
    z = raw @ np.array([[cs, sn], [-sn, cs]])
    s = case["shift"]
    pa, pb = box(-s, 1.2, 1.0, case["turn"]), box(s, 1.2, 0.93, case["turn"])
    owner = np.where(raw[:, 0] < 0, 0, 1)
    mid = np.abs(raw[:, 0]) < 1.2 - s
    first = 1 if case["swap"] else 0
    owner[mid] = np.where(rng.random(mid.sum()) < case["mix"], first, 1 - first)
    ga, gb = owner == 0, owner == 1
    stage = TraceStage(z, np.column_stack([ga, gb]), owner, np.ones(n, bool), ["a", "b"],
                       TraceOptions(True, case["purity"]), ParallelOptions(False, 1))
    fa = Footprint.from_polygon(pa, z, ga)
    fb = Footprint.from_polygon(pb, z, gb)
    na, nb = attempt(stage.contra, fa, fb, ga, gb, what="TraceStage.contra")
    stats(na, z, ga, "base")
    stats(nb, z, gb, "test")
    resolved(na, nb, z, ga, gb)
    both = pa.intersection(pb)
    if both.area <= 1e-9:
        require(na.polygon.equals(pa) and nb.polygon.equals(pb), "no contradiction, yet changed")
        return False, ["apart"]
    inside = shapely.contains_xy(both, z[:, 0], z[:, 1])
    ca, cb = int((inside & ga).sum()), int((inside & gb).sum())
    if ca == cb:
        require(na.polygon.equals(pa) and nb.polygon.equals(pb), "equally pure, yet changed")
        return False, ["equal"]
    win, lose, p0 = (na, nb, pa) if ca > cb else (nb, na, pb)
    # the winner may only lose in a later round, to what the refitted loser claims
    if empty(lose) or lose.polygon.intersection(both).area <= 1e-9:
        require(win.polygon is not None and win.polygon.equals(p0),
                "the footprint that is purer where they overlap was changed")
    else:
        require(lose.polygon.intersection(both).area < both.area - 1e-9 or not inside.any(),
                "the footprint that is less pure where they overlap kept the area")
    return True, ["base wins" if ca > cb else "test wins",
                  "loser gone" if empty(lose) else "loser left"]


# refitted outlines used to depend on which instance came first
FIRST = {"algos": ["half", "two"], "best": "noisy", "beta": "random", "cores": 1, "dup": False,
         "n": 59, "purity": 0.75, "seed": 2325, "sim": False, "space": "normal", "spread": 0.5}

SUBS = [Sub("footprints", case_st, check, 160, 4000),
        Sub("mixed", mixed_st, check, 80, 2000),
        Sub("order", order_st, check_order, 40, 800, pinned=[FIRST]),
        Sub("planted", planted_st, check_planted, 40, 800),
        Sub("contra", contra_st, check_contra, 400, 8000)]
