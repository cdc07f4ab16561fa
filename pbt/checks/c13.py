"""C13: subproblem solutions are feasible, honest and good."""
import itertools

import numpy as np
from hypothesis import strategies as st

from tranquilo.models import ScalarModel
from tranquilo.solve_subproblem import get_subsolver
from tranquilo.subsolvers.linear_subsolvers import (
    LinearModel,
    improve_geomtery_trsbox_linear,
    minimize_trsbox_linear,
)

from pbt import gen
from pbt.checks import c14
from pbt.core import Info, Sub, Violation, require

PROPERTY = "C13"

SPHERE = ["gqtpar_fast", "gqtpar", "fallback_reparametrized", "fallback_inscribed_cube",
          "fallback_norm_constraint"]
CUBE = ["bntr_fast", "bntr", "fallback_cube", "fallback_multistart"]
CG = ["cg", "trsbox", "steihaug_toint"]


# --------------------------------------------------------------------------------------
# oracles
# --------------------------------------------------------------------------------------


def ball_optimum(g, h):
    """Smallest value of g'x + x'hx/2 over the unit ball (secular equation, bisection)."""
    w, v = np.linalg.eigh(h)
    c = v.T @ g

    def value(y):
        return float(c @ y + 0.5 * (w * y) @ y)

    if w[0] > 0:
        y = -c / w
        if np.linalg.norm(y) <= 1:
            return value(y)
    low = max(0.0, -w[0])
    high = low + np.linalg.norm(g) + 1e-300
    best = 0.0
    for _ in range(200):
        mid = 0.5 * (low + high)
        d = w + mid
        y = -c / np.where(d <= 0, 1e-300, d)
        if np.linalg.norm(y) > 1:
            low = mid
        else:
            high = mid
            best = min(best, value(y))
            if np.linalg.norm(y) <= 1e-3:
                # hard case candidates: fill up along the lowest eigenvector
                for s in (-1, 1):
                    z = y.copy()
                    z[0] += s * np.sqrt(max(0.0, 1 - y @ y))
                    if np.linalg.norm(z) <= 1 + 1e-12:
                        best = min(best, value(z / max(1, np.linalg.norm(z))))
    return best


def box_optimum(g, h, lower, upper):
    """Smallest value over a box for convex models (enumeration of active sets)."""
    n = len(g)
    best = np.inf
    for side in itertools.product((-1, 0, 1), repeat=n):
        side = np.array(side)
        free = side == 0
        x = np.where(side < 0, lower, upper)
        if free.any():
            rhs = -(g[free] + h[np.ix_(free, ~free)] @ x[~free])
            x[free] = np.linalg.lstsq(h[np.ix_(free, free)], rhs, rcond=None)[0]
        x = np.clip(x, lower, upper)  # any feasible point is an upper bound
        best = min(best, float(g @ x + 0.5 * x @ h @ x))
    return best


def box_minimum(g, h):
    """Smallest value over the unit cube (enumeration of the stationary points)."""
    n = len(g)
    best = np.inf
    for side in itertools.product((-1, 0, 1), repeat=n):
        side = np.array(side)
        free = side == 0
        x = side.astype(float)
        if free.any():
            rhs = -(g[free] + h[np.ix_(free, ~free)] @ x[~free])
            x[free] = np.clip(np.linalg.lstsq(h[np.ix_(free, free)], rhs, rcond=None)[0], -1, 1)
        best = min(best, float(g @ x + 0.5 * x @ h @ x))
    return best


def first_descent(g, h, start):
    """Value of the first local minimum along the projected steepest descent path."""
    grad = g + h @ start
    t = np.concatenate([[0.0], np.logspace(-5, 5, 300)]) / max(np.abs(grad).max(), 1e-300)
    pts = np.clip(start - t[:, None] * grad, -1, 1)
    f = pts @ g + 0.5 * np.einsum("ij,jk,ik->i", pts, h, pts)
    up = np.flatnonzero(np.diff(f) > 1e-12 * np.abs(f).max())
    return float(f[up[0]] if len(up) else f[-1])


def stationarity(g, h, x):
    """Length of the projected gradient step in the unit cube."""
    return float(np.linalg.norm(np.clip(x - (g + h @ x), -1, 1) - x))


# --------------------------------------------------------------------------------------
# the solver on random models and regions
# --------------------------------------------------------------------------------------


def build(spec):
    region = gen.build_region(spec["region"])
    g, h, rng = c14.make_problem(spec)
    model = ScalarModel(
        intercept=spec["intercept"] * spec["size"],
        linear_terms=g,
        square_terms=h,
        shift=region.effective_center,
        scale=region.effective_radius,
    )
    return region, model, g, h, rng


def check_result(region, model, res, g, h, start, where):
    """Feasibility, consistency of spaces and honesty."""
    n = len(g)
    u = np.asarray(res.x_unit, dtype=float)
    x = np.asarray(res.x, dtype=float)
    require(u.shape == (n,) and x.shape == (n,), "%s: shapes %s, %s", where, u.shape, x.shape)
    require(np.isfinite(u).all() and np.isfinite(x).all(), "%s: solution %s", where, x)
    require(res.shape == region.shape, "%s: shape %r", where, res.shape)
    size = region.radius + np.abs(region.center).max()
    if region.shape == "sphere":
        require(np.linalg.norm(u) <= 1 + 1e-9, "%s: unit norm %r", where, np.linalg.norm(u))
        require(
            np.linalg.norm(x - region.center) <= region.radius * (1 + 1e-9) + 1e-13 * size,
            "%s: outside the ball",
            where,
        )
    else:
        require(np.abs(u).max() <= 1 + 1e-9, "%s: outside the unit cube: %s", where, u)
        cb = region.cube_bounds
        require(
            (x >= cb.lower - 1e-12 * size).all() and (x <= cb.upper + 1e-12 * size).all(),
            "%s: outside the cube",
            where,
        )
    b = region.bounds
    for bound, sign in ((b.lower, 1), (b.upper, -1)):
        if bound is not None:
            require((sign * (x - bound) >= 0).all(), "%s: %s violates bounds %s", where, x, bound)
    mid, half = gen.expand(region)
    require(
        np.allclose(x, mid + half * u, rtol=0, atol=1e-10 * size),
        "%s: x %s is not the image of x_unit %s",
        where,
        x,
        u,
    )
    old, new = c14.quad(g, h)(start), c14.quad(g, h)(u)
    terms = np.abs(g).sum() + np.abs(h).sum()
    tol = 1e-11 * (terms + abs(model.intercept)) + 1e-300
    require(res.expected_improvement >= 0, "%s: improvement %r", where, res.expected_improvement)
    require(
        abs(res.expected_improvement - (old - new)) <= tol,
        "%s: expected improvement %r, the model predicts %r",
        where,
        res.expected_improvement,
        old - new,
    )
    return old, old - new, tol


def solve(spec, region, model):
    opts = dict(spec["options"])
    return get_subsolver(spec["sphere"], spec["cube"], spec["retry"], opts)(
        model=model, trustregion=region
    )


def run_solve(spec):
    region, model, g, h, rng = build(spec)
    start = region.map_to_unit(region.center)
    before = gen.snapshot(model)
    center = region.center.copy()
    res = solve(spec, region, model)
    require(
        gen.same_snapshot(before, gen.snapshot(model)) and np.array_equal(center, region.center),
        "inputs were modified",
    )
    again = solve(spec, region, model)
    require(
        np.array_equal(res.x, again.x) and res.expected_improvement == again.expected_improvement,
        "solving the same problem twice gave different solutions",
    )
    name = spec["sphere"] if region.shape == "sphere" else spec["cube"]
    old, gain, tol = check_result(region, model, res, g, h, start, name)
    n = len(g)
    o = spec["options"]
    labels = [name, f"dim:{n}", spec["hessian"] + " hessian", region.shape]
    if name.startswith("bntr"):
        labels.append("method: " + o["conjugate_gradient_method"])
    convex = np.linalg.eigvalsh(h)[0] >= -1e-13 * np.abs(h).max()
    if name.startswith("gqtpar") and np.abs(g).max() > 1e-12 * np.abs(h).max():
        best = -ball_optimum(g, h)
        share = min((1 - o["k_easy"]) ** 2, 1 - o["k_hard"])
        require(
            gain >= (share - 1e-4) * best - 10 * tol,
            "%s: decrease %r, best possible over the ball %r",
            name,
            gain,
            best,
        )
        labels.append("compared with the ball optimum")
    grad = g + h @ start
    moving = np.clip(start - grad / max(np.abs(grad).max(), 1e-300), -1, 1) - start
    free = np.linalg.norm(grad[moving != 0]) if (moving != 0).any() else 0.0
    if name.startswith("bntr"):
        # gradients below the absolute tolerance count as converged
        slack = 3e-8 * np.sqrt(n) + 10 * tol
        if convex:
            lo, up = -np.ones(n), np.ones(n)
            best = old - box_optimum(g, h, lo, up)
            require(
                gain >= (1 - 1e-5) * best - slack,
                "%s: decrease %r, best possible over the box %r",
                name,
                gain,
                best,
            )
            labels.append("compared with the box optimum")
        if res.success:
            limit = max(1e-8, 1e-8 * abs(c14.quad(g, h)(res.x_unit)))
            require(
                stationarity(g, h, res.x_unit) <= 2 * limit + 1e-13 * np.abs(h).max(),
                "%s: the solution is not stationary (projected gradient %r, tolerance %r)",
                name,
                stationarity(g, h, res.x_unit),
                limit,
            )
            labels.append("stationary")
        if free > 1e-6:
            best = old - first_descent(g, h, start)
            require(
                gain >= 0.1 * best - slack,
                "%s: decrease %r, first minimum along steepest descent %r",
                name,
                gain,
                best,
            )
            labels.append("compared with steepest descent")
    terms = np.abs(g).sum() + np.abs(h).sum()
    if name == "fallback_multistart" and terms > 1e-2:
        # many starting points: the global minimum of the box is found
        best = old - box_minimum(g, h)
        if best > 1e-3 * terms:
            require(
                gain >= 0.8 * best,
                "%s: decrease %r, best possible over the box %r",
                name,
                gain,
                best,
            )
            labels.append("compared with the global box optimum")
    return Info(gain > 100 * tol, labels)


# --------------------------------------------------------------------------------------
# failing and misbehaving user solvers
# --------------------------------------------------------------------------------------


class Boom(Exception):
    pass


def run_user(spec):
    region, model, g, h, rng = build(spec)
    n = len(g)
    start = region.map_to_unit(region.center)
    seen = []
    kind = spec["behaviour"]

    def answer(model):
        if kind == "raise":
            raise Boom("solver failed")
        if kind == "start":
            x = start.copy()
        elif kind == "uphill":
            x = start + 0.5 * (g + h @ start)
        elif kind == "inside":
            x = gen.unit_points(np.random.default_rng(spec["seed"]), region.shape, 1, n)[0]
        else:
            x = 10.0 ** np.random.default_rng(spec["seed"]).uniform(-1, 3) * (
                np.random.default_rng(spec["seed"]).normal(size=n)
            )
        return {"x": x.copy(), "criterion": 0.0, "n_iterations": 7, "success": True}

    def sphere(model, x_candidate):
        seen.append(("sphere", x_candidate, None, None, model))
        return answer(model)

    def cube(model, x_candidate, lower_bounds, upper_bounds):
        seen.append(("cube", x_candidate, lower_bounds, upper_bounds, model))
        return answer(model)

    solver = get_subsolver(sphere, cube, spec["retry"], None)
    try:
        res = solver(model=model, trustregion=region)
    except Boom:
        require(kind == "raise" and not spec["retry"], "an exception escaped despite retrying")
        return Info(True, ["exception passed on", region.shape])
    require(not (kind == "raise" and not spec["retry"]), "the exception was swallowed")
    require(len(seen) == 1, "the solver was called %s times", len(seen))
    shape, x0, lo, up, m = seen[0]
    require(shape == region.shape, "the %s solver was called for a %s", shape, region.shape)
    require(np.allclose(x0, start, rtol=0, atol=1e-9), "the solver started at %s", x0)
    require(m is model or gen.same_snapshot(gen.snapshot(m), gen.snapshot(model)), "model")
    if shape == "cube":
        require(np.array_equal(lo, -np.ones(n)) and np.array_equal(up, np.ones(n)), "bounds")
    old, gain, tol = check_result(region, model, res, g, h, start, "user solver " + kind)
    if kind in ("inside", "outside", "uphill", "start"):
        x = answer(model)["x"]
        x = np.clip(x, -1, 1) if shape == "cube" else x / max(1.0, np.linalg.norm(x))
        change = old - c14.quad(g, h)(x)
        if change > tol:
            require(np.allclose(res.x_unit, x, rtol=0, atol=1e-9), "a good solution was altered")
        if change < -tol:
            require(
                res.expected_improvement == 0 and np.array_equal(res.x, region.center),
                "a point that is worse than the start was returned",
            )
            require(not res.success, "success without improvement")
        if change > tol:
            require(bool(res.success) and res.n_iterations == 7, "success and iterations")
    return Info(kind != "start", [kind, region.shape, "gain" if gain > tol else "no gain"])


# --------------------------------------------------------------------------------------
# linear models on the intersection of a box and a ball
# --------------------------------------------------------------------------------------


def linear_optimum(g, lower, upper, radius):
    """Smallest g'x over the box and the ball around zero; x = clip(-g / mult)."""
    far = np.where(g > 0, lower, np.where(g < 0, upper, 0.0))
    if np.linalg.norm(far) <= radius:
        return float(g @ far)
    lo, hi = 0.0, np.abs(g).sum() / radius * 2
    best = 0.0
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        x = np.clip(-g / max(mid, 1e-300), lower, upper)
        if np.linalg.norm(x) > radius:
            lo = mid
        else:
            hi = mid
            best = min(best, float(g @ x))
    return best


def run_linear(spec):
    rng = np.random.default_rng(spec["seed"])
    n, r = spec["dim"], spec["radius"]
    g = rng.normal(size=n)
    if spec["ties"]:
        g = rng.integers(-2, 3, size=n).astype(float)
    lower = -rng.uniform(0, 1.5, size=n) * r
    upper = rng.uniform(0, 1.5, size=n) * r
    if spec["ties"]:
        lower, upper = -r * rng.integers(0, 3, size=n) / 2.0, r * rng.integers(0, 3, size=n) / 2.0
    lower[rng.uniform(size=n) < spec["at_bound"]] = 0.0
    upper[rng.uniform(size=n) < spec["at_bound"]] = 0.0
    center = spec["shift"] * rng.normal(size=n)
    c = float(rng.normal()) * spec["intercept"]
    model = LinearModel(intercept=c, linear_terms=g)
    arrays = [g, lower, upper, center]
    copies = [a.copy() for a in arrays]
    x = minimize_trsbox_linear(model, lower, upper, r)
    lo, up = lower + center, upper + center
    y = improve_geomtery_trsbox_linear(center, model, lo, up, r)
    require(
        all(np.array_equal(a, b) for a, b in zip(arrays, copies)), "an argument was modified"
    )
    best = linear_optimum(g, lower, upper, r)
    worst = -linear_optimum(-g, lower, upper, r)
    terms = np.abs(g).sum() * r
    for name, z in (("minimize", x), ("improve", np.asarray(y) - center)):
        size = r + np.abs(center).max()
        require(np.shape(z) == (n,) and np.isfinite(z).all(), "%s: %s", name, z)
        require(
            (z >= lower - 1e-12 * size - 1e-13).all() and (z <= upper + 1e-12 * size + 1e-13).all(),
            "%s: %s is outside the bounds %s, %s",
            name,
            z,
            lower,
            upper,
        )
        require(np.linalg.norm(z) <= r * (1 + 1e-9) + 1e-12 * size, "%s: outside the ball", name)
    tol = 1e-8 * terms + 1e-12 * n
    require(float(g @ x) <= best + tol, "value %r, smallest value %r", float(g @ x), best)
    value = abs(c + float(g @ (np.asarray(y) - center)))
    target = max(abs(c + best), abs(c + worst))
    require(
        value >= target - tol - 1e-10 * np.abs(center).max() * np.abs(g).sum(),
        "absolute value %r, largest absolute value %r",
        value,
        target,
    )
    both = np.linalg.norm(x) > r * (1 - 1e-9)
    return Info(np.abs(g).max() > 0, [f"dim:{n}", "on the ball" if both else "corner"])


# --------------------------------------------------------------------------------------


def options():
    return st.fixed_dictionaries(
        {
            "conjugate_gradient_method": st.sampled_from(CG[:2] + CG),
            "k_easy": st.sampled_from([0.1, 0.1, 0.01, 0.3]),
            "k_hard": st.sampled_from([0.2, 0.2, 0.02, 0.4]),
        }
    )


@st.composite
def solves(draw):
    p = draw(c14.problems())
    p["dim"] = min(p["dim"], 5)
    region = draw(gen.region_specs(p["dim"], draw(st.sampled_from(["cube", "sphere"]))))
    return {
        **p,
        "region": region,
        "sphere": draw(st.sampled_from(SPHERE[:2] * 3 + SPHERE[2:])),
        "cube": draw(st.sampled_from(CUBE[:1] * 4 + CUBE[:2] * 2 + CUBE[2:3])),
        "retry": draw(st.booleans()),
        "options": draw(options()),
    }


@st.composite
def slow(draw):
    p = draw(solves())
    return {**p, "sphere": draw(st.sampled_from(SPHERE[2:])), "cube": "fallback_multistart"}


@st.composite
def users(draw):
    return {
        **draw(solves()),
        "behaviour": draw(st.sampled_from(["outside", "raise", "inside", "uphill", "start"])),
    }


@st.composite
def linears(draw):
    return {
        "dim": draw(st.sampled_from([2, 3, 1, 4, 5, 8])),
        "seed": draw(st.integers(0, 99999)),
        "radius": draw(st.sampled_from([1.0, 0.1, 10.0])),
        "ties": draw(st.sampled_from([False, False, True])),
        "at_bound": draw(st.sampled_from([0.0, 0.2, 0.5])),
        "shift": draw(st.sampled_from([0.0, 1.0, 5.0])),
        "intercept": draw(st.sampled_from([0.0, 1.0, 3.0])),
    }


def warmup():
    c14.warmup()


SUBS = [
    Sub(
        "solve",
        lambda tier: solves(),
        run_solve,
        8_000,
        400_000,
        "a random quadratic model on a random ball or box; non-trivial if the solution "
        "decreases the model measurably",
    ),
    Sub(
        "fallback",
        lambda tier: slow(),
        run_solve,
        320,
        6_000,
        "the slow fallback solvers on random models; same rule",
    ),
    Sub(
        "user",
        lambda tier: users(),
        run_user,
        3_000,
        100_000,
        "a user solver that raises, leaves the region or goes uphill; non-trivial unless it "
        "returns the start",
    ),
    Sub(
        "linear",
        lambda tier: linears(),
        run_linear,
        8_000,
        400_000,
        "a linear model over box and ball; non-trivial if the gradient is not zero",
    ),
]
