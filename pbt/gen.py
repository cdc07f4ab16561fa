"""Generators shared by component checks (regions, models)."""
import math

import numpy as np
from hypothesis import strategies as st

from tranquilo.bounds import Bounds
from tranquilo.models import ScalarModel, VectorModel
from tranquilo.region import Region


@st.composite
def region_specs(draw, n, shape=None, scales=(-3, -1, 0, 0, 0, 1, 3)):
    """A region in n dimensions; shape None, "sphere" or "cube"."""
    shape = shape or draw(st.sampled_from(["sphere", "cube"]))
    size = 10.0 ** draw(st.sampled_from(list(scales)))
    shift = draw(st.sampled_from([0.0, 0.0, 1.0, -5.0]))
    center = [size * (shift + draw(st.floats(-3, 3, width=16))) for _ in range(n)]
    radius = size * draw(st.sampled_from([1.0, 0.1, 0.5, 2.0, 0.01]))
    out = {"center": center, "radius": radius, "lower": None, "upper": None}
    if shape == "cube":
        gap = st.sampled_from([0.0, 0.0, 0.25, 0.75, 1.0, 4.0, math.inf])
        low = [draw(gap) for _ in range(n)]
        up = [draw(gap) for _ in range(n)]
        up = [u + 0.5 if a + u < 0.1 else u for a, u in zip(low, up)]
        if min(low + up) > 0.75:
            low[draw(st.integers(0, n - 1))] = 0.25
        out["lower"] = [c - a * radius for c, a in zip(center, low)]
        out["upper"] = [c + a * radius for c, a in zip(center, up)]
    elif draw(st.booleans()):
        out["lower"] = [c - 1.5 * radius for c in center]
        out["upper"] = None if draw(st.booleans()) else [c + 3 * radius for c in center]
    return out


def build_region(spec):
    def arr(v):
        return None if v is None else np.array(v, dtype=float)

    return Region(
        center=arr(spec["center"]),
        radius=spec["radius"],
        bounds=Bounds(arr(spec["lower"]), arr(spec["upper"])),
    )


def unit_points(rng, shape, k, n):
    """Random points in the unit ball or cube."""
    if shape == "cube":
        return rng.uniform(-1, 1, size=(k, n))
    out = rng.normal(size=(k, n))
    out /= np.linalg.norm(out, axis=1, keepdims=True)
    return out * rng.uniform(size=(k, 1)) ** (1 / n)


def expand(region):
    """Center and half widths of the map between region and unit shape (by the formulas)."""
    return region.effective_center, np.broadcast_to(
        np.asarray(region.effective_radius, dtype=float), region.center.shape
    )


def symmetric(rng, n, kind="any"):
    a = rng.normal(size=(n, n))
    if kind == "convex":
        return a @ a.T
    return a + a.T


def build_model(rng, region, n_res, quadratic, scalar, size=1.0):
    """Random model on a region; n_res is ignored for scalar models."""
    n = len(region.center)
    kw = {"shift": region.effective_center.copy(), "scale": np.copy(region.effective_radius)}
    if np.ndim(region.effective_radius) == 0:
        kw["scale"] = float(region.effective_radius)
    if scalar:
        return ScalarModel(
            intercept=float(size * rng.normal()),
            linear_terms=size * rng.normal(size=n),
            square_terms=size * symmetric(rng, n) if quadratic else None,
            **kw,
        )
    return VectorModel(
        intercepts=size * rng.normal(size=n_res),
        linear_terms=size * rng.normal(size=(n_res, n)),
        square_terms=size * np.array([symmetric(rng, n) for _ in range(n_res)])
        if quadratic
        else None,
        **kw,
    )


def parts(model):
    """Intercept(s), linear and square terms with a leading residual axis."""
    if isinstance(model, ScalarModel):
        c, g, h = np.array([model.intercept]), model.linear_terms[None], model.square_terms
        h = None if h is None else h[None]
    else:
        c, g, h = model.intercepts, model.linear_terms, model.square_terms
    return np.asarray(c, float), np.asarray(g, float), h


def predict_at(model, x):
    """Prediction at points of the parameter space, shape (n_points, n_residuals)."""
    u = (np.atleast_2d(x) - model.shift) / model.scale
    c, g, h = parts(model)
    out = np.empty((len(u), len(c)))
    for i, p in enumerate(u):
        for k in range(len(c)):
            v = c[k] + sum(g[k, a] * p[a] for a in range(len(p)))
            if h is not None:
                v += 0.5 * float(p @ h[k] @ p)
            out[i, k] = v
    return out


def magnitude(model, x):
    """Upper bound of the absolute terms in a prediction (for tolerances)."""
    u = np.abs((np.atleast_2d(x) - model.shift) / model.scale)
    c, g, h = parts(model)
    out = np.abs(c).max() + (np.abs(g) @ u.T).max()
    if h is not None:
        out += max(float((np.abs(hk) @ u.T).max() * u.max()) * len(u[0]) for hk in h)
    return float(out)


def snapshot(model):
    out = {}
    for k, v in vars(model).items():
        out[k] = np.copy(v) if v is not None else None
    return out


def same_snapshot(a, b):
    return a.keys() == b.keys() and all(
        (a[k] is None and b[k] is None)
        or (a[k] is not None and b[k] is not None and np.array_equal(a[k], b[k]))
        for k in a
    )
