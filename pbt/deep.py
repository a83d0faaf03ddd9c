"""Structural comparison of models, outputs and inputs."""
from __future__ import annotations

from dataclasses import fields, is_dataclass
from typing import Any

import numpy as np
import pandas as pd


def diff(a: Any, b: Any, path: str = "", tol: float = 0.0) -> str | None:
    """None if a and b hold the same data, else where they differ first."""
    from shapely.geometry.base import BaseGeometry

    if a is None or b is None:
        return None if a is b else f"{path}: {short(a)} != {short(b)}"
    if isinstance(a, BaseGeometry) or isinstance(b, BaseGeometry):
        if isinstance(a, BaseGeometry) and isinstance(b, BaseGeometry):
            if a.geom_type == b.geom_type and a.equals_exact(b, tol):
                return None
            if tol and a.symmetric_difference(b).area <= tol * (1 + a.area):
                return None
        return f"{path}: geometry {short(a)} != {short(b)}"
    if is_dataclass(a) and not isinstance(a, type):
        if type(a) is not type(b):
            return f"{path}: type {type(a).__name__} != {type(b).__name__}"
        for f in fields(a):
            d = diff(getattr(a, f.name), getattr(b, f.name), f"{path}.{f.name}", tol)
            if d:
                return d
        return None
    if isinstance(a, pd.DataFrame):
        if not isinstance(b, pd.DataFrame):
            return f"{path}: {short(a)} != {short(b)}"
        return (diff(list(a.columns), list(b.columns), path + ".columns")
                or diff(list(a.index), list(b.index), path + ".index")
                or diff(a.to_numpy(), b.to_numpy(), path + ".values", tol))
    if isinstance(a, pd.Series):
        if not isinstance(b, pd.Series):
            return f"{path}: {short(a)} != {short(b)}"
        return (diff(list(a.index), list(b.index), path + ".index")
                or diff(a.to_numpy(), b.to_numpy(), path + ".values", tol))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return f"{path}: {short(a)} != {short(b)}"
        if a.shape != b.shape:
            return f"{path}: shape {a.shape} != {b.shape}"
        if a.dtype == object or b.dtype == object:
            for k, (x, y) in enumerate(zip(a.ravel(), b.ravel())):
                d = diff(x, y, f"{path}[{k}]", tol)
                if d:
                    return d
            return None
        if a.dtype.kind in "fc" or b.dtype.kind in "fc":
            ok = np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True) if tol else (
                np.array_equal(a, b, equal_nan=True))
        else:
            ok = np.array_equal(a, b)
        if ok:
            return None
        bad = ~((a == b) | ((a != a) & (b != b)))
        k = tuple(int(t) for t in np.argwhere(bad)[0]) if bad.ndim else ()
        return f"{path}{list(k)}: {a[k]!r} != {b[k]!r} ({int(bad.sum())} of {bad.size} differ)"
    if isinstance(a, dict):
        if not isinstance(b, dict) or set(a) != set(b):
            return f"{path}: keys {sorted(map(str, a))} != {short(b)}"
        for k in a:
            d = diff(a[k], b[k], f"{path}[{k!r}]", tol)
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return f"{path}: {short(a)} != {short(b)}"
        for k, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{path}[{k}]", tol)
            if d:
                return d
        return None
    if hasattr(a, "dual_coef_"):
        if type(a) is not type(b):
            return f"{path}: {short(a)} != {short(b)}"
        return (diff(a.get_params(), b.get_params(), path + ".params")
                or diff(np.asarray(a.support_vectors_), np.asarray(b.support_vectors_),
                        path + ".support_vectors_", tol)
                or diff(np.asarray(a.dual_coef_), np.asarray(b.dual_coef_),
                        path + ".dual_coef_", tol))
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating, int)):
        if a == b or (a != a and b != b) or (tol and abs(a - b) <= tol * (1 + abs(a))):
            return None
        return f"{path}: {a!r} != {b!r}"
    if type(a).__module__.startswith("sklearn"):
        return None if repr(a) == repr(b) else f"{path}: {short(a)} != {short(b)}"
    try:
        same = bool(a == b)
    except Exception:  # noqa: BLE001
        same = repr(a) == repr(b)
    return None if same else f"{path}: {short(a)} != {short(b)}"


def short(x: Any) -> str:
    s = repr(x)
    return s if len(s) <= 120 else s[:117] + "..."
