"""C15: Footprint.from_polygon: the numbers of a footprint."""
from __future__ import annotations

from typing import Any

import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, attempt, eq, require

RULE = ("generated outlines (boxes with holes, star shapes, several parts, thin and empty ones) "
        "over instances on and off a grid that also hit edges and corners; non-trivial = "
        "instances both inside and outside")
ASSUMPTIONS = ["outlines are valid polygons",
               "smoothing may move the outline by up to 0.03 (twice 0.01, at sharp corners more)"]


@st.composite
def case_st(draw: Any) -> dict[str, Any]:
    kind = draw(st.sampled_from(["box", "hole", "star", "parts", "cross", "empty", "none"]))
    return {"kind": kind, "seed": draw(st.integers(0, 2**31)), "n": draw(st.one_of(st.integers(1, 40), st.sampled_from([60, 150]))),
            "scale": draw(st.sampled_from([0, 0, 0, -8, -5, 6, -12, -20])),
            "grid": draw(st.booleans()), "good": draw(st.sampled_from([0.0, 0.3, 0.7, 1.0])),
            "as_int": draw(st.booleans()), "smooth": False}


def rings_of(kind: str, rng: Any) -> list[list[Any]]:
    """Parts; each a list of rings (outer first) with integer or float corners."""
    def box(x0: int, y0: int, w: int, h: int) -> list[tuple[int, int]]:
        return [(x0, y0), (x0 + w, y0), (x0 + w, y0 + h), (x0, y0 + h)]

    x0, y0 = (int(v) for v in rng.integers(-4, 1, 2))
    w, h = (int(v) for v in rng.integers(3, 6, 2))
    if kind == "box":
        return [[box(x0, y0, w, h)]]
    if kind == "hole":
        return [[box(x0, y0, w, h), box(x0 + 1, y0 + 1, w - 2, h - 2)]]
    if kind == "parts":
        return [[box(x0, y0, w, h)], [box(x0 + w + 1, y0, 2, h)]]
    if kind == "cross":
        return [[[(x0, y0), (x0 + 4, y0 + 1), (x0 + 5, y0 + 5), (x0 + 3, y0 + 2), (x0 + 1, y0 + 4)]]]
    k = int(rng.integers(5, 9))
    th = np.sort(rng.uniform(0, 2 * np.pi, k))
    th = np.arange(k) / k * 2 * np.pi + 0.1
    rad = rng.uniform(1, 4, k)
    return [[[(float(r * np.cos(t)), float(r * np.sin(t))) for r, t in zip(rad, th)]]]


def ring_side(ring: list[Any], p: Any) -> int:
    """1 inside, 0 on the ring, -1 outside (even-odd rule, exact on integers)."""
    inside = False
    k = len(ring)
    for i in range(k):
        (ax, ay), (bx, by) = ring[i], ring[(i + 1) % k]
        cr = (bx - ax) * (p[1] - ay) - (by - ay) * (p[0] - ax)
        if cr == 0 and min(ax, bx) <= p[0] <= max(ax, bx) and min(ay, by) <= p[1] <= max(ay, by):
            return 0
        if (ay > p[1]) != (by > p[1]):
            if (cr > 0) == (by > ay):
                inside = not inside
    return 1 if inside else -1


def within(parts: list[list[Any]], p: Any) -> bool:
    for rings in parts:
        if ring_side(rings[0], p) == 1 and all(ring_side(h, p) == -1 for h in rings[1:]):
            return True
    return False


def area_of(parts: list[list[Any]]) -> float:
    def one(r: list[Any]) -> float:
        return abs(sum(r[i][0] * r[(i + 1) % len(r)][1] - r[(i + 1) % len(r)][0] * r[i][1]
                       for i in range(len(r)))) / 2
    return float(sum(one(rings[0]) - sum(one(h) for h in rings[1:]) for rings in parts))


def make(case: dict[str, Any]) -> tuple[Any, Any, Any, Any]:
    from shapely.geometry import MultiPolygon, Polygon
    rng = np.random.default_rng(case["seed"])
    kind = case["kind"]
    scale = 2.0 ** case.get("scale", 0)  # exact
    if kind in ("empty", "none"):
        parts: list[Any] = []
        poly: Any = Polygon() if kind == "empty" else None
    else:
        parts = rings_of(kind, rng)
        parts = [[[(c[0] * scale, c[1] * scale) for c in ring] for ring in rings] for rings in parts]
        ps = [Polygon(r[0], r[1:]) for r in parts]
        poly = ps[0] if len(ps) == 1 else MultiPolygon(ps)
    n = case["n"]
    z = (rng.integers(-5, 8, size=(n, 2)) / rng.choice([1, 2]) if case["grid"]
         else rng.uniform(-5, 8, size=(n, 2)))
    z = z.astype(float) * scale
    good = rng.random(n) < case["good"]
    return poly, parts, z, good


def check(case: dict[str, Any]) -> tuple[bool, list[str]]:
    from instancespace.data.model import Footprint
    poly, parts, z, good = make(case)
    keep = z.copy(), good.copy()
    fp = attempt(Footprint.from_polygon, poly, z, good, what="Footprint.from_polygon")
    require((z == keep[0]).all() and (good == keep[1]).all(), "an input was changed")
    if case["kind"] == "none":
        require(fp.polygon is None, "an outline from nothing")
    elif case["kind"] != "empty":
        require(fp.polygon.equals(poly), "the outline was changed")
    inside = np.array([within(parts, p) for p in z], bool)
    a = area_of(parts)
    e, g = int(inside.sum()), int((inside & good).sum())
    require(abs(float(fp.area) - a) <= 1e-9 * a, f"area is {fp.area}, expected {a}")
    eq(int(fp.elements), e, "elements (instances strictly inside)")
    eq(int(fp.good_elements), g, "good_elements (good instances strictly inside)")
    d = e / a if a else 0.0
    require(abs(float(fp.density) - d) <= 1e-9 * (1 + d), f"density is {fp.density}, expected {d}")
    p = g / e if e else 0.0
    require(abs(float(fp.purity) - p) <= 1e-12, f"purity is {fp.purity}, expected {p}")
    return 0 < e < len(z), [case["kind"]]


def check_smooth(case: dict[str, Any]) -> tuple[bool, list[str]]:
    """Smoothing closes slits and rounds corners, and the numbers are those of the result."""
    import shapely
    from instancespace.data.model import Footprint
    poly, parts, z, good = make(case)
    fp = attempt(Footprint.from_polygon, poly, z, good, smoothen=True,
                 what="Footprint.from_polygon")
    if case["kind"] in ("empty", "none"):
        eq((float(fp.area), float(fp.elements)), (0.0, 0.0), "numbers of no outline")
        return False, [case["kind"]]
    new = fp.polygon
    require(shapely.is_valid(new), "the outline is not valid")
    require(poly.difference(new).area <= 1e-3 * (1 + poly.length), "smoothing lost an area")
    require(new.hausdorff_distance(poly) <= 0.03, "smoothing moved the outline")
    require(abs(float(fp.area) - new.area) <= 1e-9, "area is not that of the outline")
    pts = shapely.points(z)
    sure = shapely.distance(poly.boundary, pts) > 0.03
    inside = np.array([within(parts, p) for p in z], bool)
    lo, hi = int((inside & sure).sum()), int((inside | ~sure).sum())
    require(lo <= fp.elements <= hi, f"elements is {fp.elements}, expected {lo} to {hi}")
    lo, hi = int((inside & sure & good).sum()), int(((inside | ~sure) & good).sum())
    require(lo <= fp.good_elements <= hi, f"good_elements is {fp.good_elements}, not {lo} to {hi}")
    d = fp.elements / fp.area
    require(abs(fp.density - d) <= 1e-9 * (1 + d), "density")
    require(abs(fp.purity - (fp.good_elements / fp.elements if fp.elements else 0)) <= 1e-12, "purity")
    return bool(inside.any()) and not inside.all(), [case["kind"]]


@st.composite
def slit_st(draw: Any) -> dict[str, Any]:
    return {"gap": draw(st.sampled_from([0.002, 0.008, 0.015, 0.03, 0.1])),
            "w": draw(st.floats(0.5, 3)), "h": draw(st.floats(0.5, 3))}


def check_slit(case: dict[str, Any]) -> tuple[bool, list[str]]:
    """Two parts grow together over a gap below 0.02 and stay apart over a wider one."""
    from shapely.geometry import box
    from instancespace.data.model import Footprint
    w, h, gap = case["w"], case["h"], case["gap"]
    poly = box(0, 0, w, h).union(box(w + gap, 0, 2 * w + gap, h))
    z = np.array([[w / 2, h / 2], [w + gap / 2, h / 2], [w + gap + w / 2, h / 2]])
    good = np.array([True, True, False])
    plain = Footprint.from_polygon(poly, z, good)
    eq((int(plain.elements), int(plain.good_elements)), (2, 1), "elements without smoothing")
    fp = Footprint.from_polygon(poly, z, good, True)
    joined = gap < 0.02
    eq((int(fp.elements), int(fp.good_elements)), (3, 2) if joined else (2, 1),
       f"elements, good elements with a gap of {gap}")
    eq(fp.polygon.geom_type, "Polygon" if joined else "MultiPolygon", "parts after smoothing")
    return True, ["closed" if joined else "open"]


SUBS = [Sub("numbers", case_st, check, 3000, 100000),
        # outlines far below the smoothing distance are swallowed by it
        Sub("smooth", lambda: case_st().filter(lambda c: c["scale"] >= -8), check_smooth, 800, 30000),
        Sub("slits", slit_st, check_slit, 60, 1000)]
