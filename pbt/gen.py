"""Shared generators and references for numeric data."""
from __future__ import annotations

import contextlib
import io
from typing import Any

import numpy as np


def quiet(fn: Any, *a: Any, **k: Any) -> Any:
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def filter_reference(x: Any, y: Any, yb: Any, kind: str, d: float
                     ) -> tuple[list[bool], list[bool], list[bool], float]:
    """(removed, dissimilar, visa, distance of the closest comparison to a threshold)."""
    n, na = y.shape
    gamma = (na / x.shape[1]) ** 0.5 * d
    removed = [False] * n
    dissim = [True] * n
    visa = [False] * n
    margin = np.inf
    for j in range(n):
        for i in range(j):
            if removed[i]:
                continue
            dx = sum((x[i, k] - x[j, k]) ** 2 for k in range(x.shape[1])) ** 0.5
            margin = min(margin, abs(dx - d))
            if dx > d:
                continue
            dissim[j] = False
            dy = sum((y[i, k] - y[j, k]) ** 2 for k in range(na)) ** 0.5
            if "AP" in kind:
                margin = min(margin, abs(dy - gamma))
            good = all(yb[i, k] and yb[j, k] for k in range(na))
            drop = {"Ftr": True, "Ftr&AP": dy <= gamma, "Ftr&Good": good,
                    "Ftr&AP&Good": good and dy <= gamma}[kind]
            if drop:
                removed[j] = True
                visa[j] = False
                break
            visa[j] = True
    return removed, dissim, visa, float(margin)


def midpoint_iqr(v: Any) -> float:
    s = sorted(float(t) for t in v if t == t)

    def q(p: float) -> float:
        pos = p * (len(s) - 1)
        lo = int(np.floor(pos + 1e-9))
        hi = int(np.ceil(pos - 1e-9))
        return (s[lo] + s[hi]) / 2

    return q(0.75) - q(0.25)




def pearson(x: Any, y: Any) -> tuple[Any, Any]:
    from scipy.special import stdtr
    n = len(x)
    xc, yc = x - x.mean(0), y - y.mean(0)
    r = (xc.T @ yc) / np.sqrt(np.outer((xc ** 2).sum(0), (yc ** 2).sum(0)))
    r = np.clip(r, -1, 1)
    t = np.abs(r) * np.sqrt((n - 2) / np.maximum(1e-300, 1 - r ** 2))
    return r, 2 * stdtr(n - 2, -t)


def polygon_contains(poly: Any, pts: Any) -> float:
    """Largest distance by which a point lies outside a convex polygon (ccw vertices)."""
    worst = 0.0
    k = len(poly)
    for i in range(k):
        p, q = poly[i], poly[(i + 1) % k]
        e = q - p
        ln = float(np.hypot(*e))
        if ln == 0:
            continue
        d = (e[0] * (pts[:, 1] - p[1]) - e[1] * (pts[:, 0] - p[0])) / ln
        worst = max(worst, float(-d.min()))
    return worst


def signed_area(poly: Any) -> float:
    x, y = poly[:, 0], poly[:, 1]
    return float((x * np.roll(y, -1) - np.roll(x, -1) * y).sum() / 2)
