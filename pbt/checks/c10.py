"""C10: trust regions have the documented geometry."""
import math

import numpy as np
from hypothesis import strategies as st

from tranquilo import volume as vol
from tranquilo.bounds import Bounds
from tranquilo.region import Region

from pbt.core import Info, Sub, Violation, require

PROPERTY = "C10"


def arr(v):
    return None if v is None else np.array(v, dtype=float)


def near(a, b, rtol=1e-9, atol=0.0):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol))


def cube_radius(r, n):
    log = 0.5 * math.log(math.pi) + math.log(r) - math.log(2) - math.lgamma(n / 2 + 1) / n
    return math.exp(log)


def check_region(region, center, radius, lower, upper, units):
    n = len(center)
    size = radius + np.abs(center).max()
    tol = 1e-10 * size
    lo = np.full(n, -np.inf) if lower is None else lower
    up = np.full(n, np.inf) if upper is None else upper
    gap = float(min(np.min(center - lo), np.min(up - center)))
    shape = region.shape
    require(shape in ("sphere", "cube"), "shape %r", shape)
    if gap < radius * (1 - 1e-9) - tol:
        require(shape == "cube", "a bound is inside the radius but the shape is %s", shape)
    elif gap > radius * (1 + 1e-9) + tol:
        require(shape == "sphere", "no bound is near but the shape is %s", shape)
    if shape == "sphere":
        require(
            near(region.effective_center, center, 1e-14)
            and near(region.effective_radius, radius, 1e-14),
            "effective center %s and radius %s of a ball",
            region.effective_center,
            region.effective_radius,
        )
        for name in ("cube_bounds", "cube_center"):
            try:
                getattr(region, name)
            except AttributeError:
                pass
            else:
                raise Violation(f"a ball has {name}")
        expected = center + radius * units["ball"]
        inner = units["ball"]
        mid, half = center, np.full(n, radius)
    else:
        r = cube_radius(radius, n)
        clo, cup = np.maximum(center - r, lo), np.minimum(center + r, up)
        require(
            near(region.cube_bounds.lower, clo, 1e-10, tol)
            and near(region.cube_bounds.upper, cup, 1e-10, tol),
            "cube bounds %s and %s instead of %s and %s",
            region.cube_bounds.lower,
            region.cube_bounds.upper,
            clo,
            cup,
        )
        require(
            (region.cube_bounds.lower >= lo).all() and (region.cube_bounds.upper <= up).all(),
            "the cube leaves the bounds",
        )
        mid, half = (clo + cup) / 2, (cup - clo) / 2
        require(
            near(region.cube_center, mid, 1e-10, tol)
            and near(region.effective_center, mid, 1e-10, tol)
            and near(region.effective_radius, half, 1e-9, tol),
            "cube center %s, effective center %s and radius %s instead of %s and %s",
            region.cube_center,
            region.effective_center,
            region.effective_radius,
            mid,
            half,
        )
        expected = mid + half * units["cube"]
        inner = units["cube"]
    # to the parameter space
    got = region.map_from_unit(inner)
    require(
        near(got, expected, 1e-10, tol), "map_from_unit: %s instead of %s", got, expected
    )
    require(
        (got >= lo).all() and (got <= up).all(), "map_from_unit leaves the bounds: %s", got
    )
    if shape == "sphere":
        require(
            (np.linalg.norm(got - center, axis=1) <= radius * (1 + 1e-9) + tol).all(),
            "map_from_unit leaves the ball",
        )
    # back, and from the parameter space
    rel = tol / half.min()
    back = region.map_to_unit(got)
    require(near(back, inner, 1e-8, 1e-9 + 4 * rel), "round trip: %s -> %s", inner, back)
    free = units["free"]
    x = mid + half * free
    require(
        near(region.map_to_unit(x), free, 1e-8, 1e-9 + 4 * rel),
        "map_to_unit(%s) is %s instead of %s",
        x,
        region.map_to_unit(x),
        free,
    )
    require(
        near(region.map_to_unit(x[0]), free[0], 1e-8, 1e-9 + 4 * rel)
        and near(region.map_from_unit(inner[0]), expected[0], 1e-10, tol),
        "single points are mapped differently",
    )
    return shape


def run_region(spec):
    center, radius = arr(spec["center"]), spec["radius"]
    lower, upper = arr(spec["lower"]), arr(spec["upper"])
    n = len(center)
    rng = np.random.default_rng(spec["seed"])
    ball = rng.normal(size=(6, n))
    ball /= np.linalg.norm(ball, axis=1, keepdims=True)
    ball[1:] *= rng.uniform(size=(5, 1)) ** (1 / n)
    cube = rng.uniform(-1, 1, size=(8, n))
    cube[:3] = np.sign(cube[:3])
    units = {"ball": ball, "cube": cube, "free": rng.normal(size=(4, n))}
    bounds = Bounds(lower, upper) if spec["pass_bounds"] else None
    if bounds is None:
        lower = upper = None
    copies = [None if a is None else a.copy() for a in (center, lower, upper)]
    unit_copies = {k: v.copy() for k, v in units.items()}
    region = Region(center=center, radius=radius, bounds=bounds)
    shape = check_region(region, center, radius, lower, upper, units)
    # replacing parts gives the region of those parts
    new_center = center.copy()
    if spec["move"]:
        lo = np.full(n, -np.inf) if lower is None else lower
        up = np.full(n, np.inf) if upper is None else upper
        new_center = np.clip(center + 0.5 * radius * rng.normal(size=n), lo, up)
    new_radius = radius * spec["factor"]
    other = region._replace(center=new_center, radius=new_radius)
    second = check_region(other, new_center, new_radius, lower, upper, units)
    check_region(region, center, radius, lower, upper, units)
    only = region._replace(radius=new_radius)
    check_region(only, center, new_radius, lower, upper, units)
    for a, b in zip(copies, (center, lower, upper)):
        require(a is None or np.array_equal(a, b), "an argument was modified")
    for k, v in units.items():
        require(np.array_equal(v, unit_copies[k]), "mapped points were modified")
    cl = [
        f"{shape}",
        f"dim:{n}",
        "bounds:" + ("none" if lower is None and upper is None else "one" if lower is None or upper is None else "both"),
    ]
    if shape != second:
        cl.append("shape switched")
    return Info(True, cl)


@st.composite
def regions(draw):
    n = draw(st.integers(1, 6))
    scale = 10.0 ** draw(st.integers(-4, 4))
    shift = draw(st.sampled_from([0.0, 0.0, 1.0, 100.0]))
    coord = st.floats(-3, 3, width=32)
    center = [shift + scale * draw(coord) for _ in range(n)]
    size = scale + abs(shift)
    radius = size * 10.0 ** draw(st.integers(-4, 2)) * draw(st.floats(0.5, 2, width=32))
    gap = st.one_of(
        st.sampled_from([0.0, 1.0, 0.5, 1.0 - 2**-20, 1.0 + 2**-20, 3.0, math.inf]),
        st.floats(0.0, 3.0, width=32),
        st.just(math.inf),
    )
    lower, upper = [], []
    for c in center:
        a, b = draw(gap), draw(gap)
        if a + b < 0.02:
            b += 0.5
        lower.append(c - a * radius)
        upper.append(c + b * radius)
    sides = draw(st.sampled_from(["both", "both", "lower", "upper", "none"]))
    return {
        "center": center,
        "radius": radius,
        "lower": None if sides in ("upper", "none") else lower,
        "upper": None if sides in ("lower", "none") else upper,
        "pass_bounds": draw(st.integers(0, 7)) > 0,
        "seed": draw(st.integers(0, 9999)),
        "move": draw(st.booleans()),
        "factor": draw(st.sampled_from([0.5, 1.0, 2.0, 4.25, 5.0, 0.01])),
    }


# --------------------------------------------------------------------------------------


def log_volume(radius, n, shape):
    if shape == "cube":
        return n * math.log(2 * radius)
    return n / 2 * math.log(math.pi) + n * math.log(radius) - math.lgamma(n / 2 + 1)


def run_volume(spec):
    r, n, shape, factor = spec["radius"], spec["dim"], spec["shape"], spec["factor"]
    v = float(vol.get_volume(r, n, shape))
    want = math.exp(log_volume(r, n, shape))
    require(np.isclose(v, want, rtol=1e-9), "volume %r instead of %r", v, want)
    back = float(vol.get_radius(v, n, shape))
    require(np.isclose(back, r, rtol=1e-9), "radius %r -> volume -> %r", r, back)
    s = float(vol.get_radius_after_volume_scaling(r, n, factor))
    require(
        np.isclose(log_volume(s, n, shape), log_volume(r, n, shape) + math.log(factor)),
        "scaling the volume by %r changes the radius from %r to %r",
        factor,
        r,
        s,
    )
    for func, source, target in (
        (vol.get_radius_of_cube_with_volume_of_sphere, "sphere", "cube"),
        (vol.get_radius_of_sphere_with_volume_of_cube, "cube", "sphere"),
    ):
        plain, scaled = float(func(r, n)), float(func(r, n, scaling_factor=factor))
        base = log_volume(r, n, source)
        require(
            np.isclose(log_volume(plain, n, target), base, atol=1e-8),
            "%s: volumes differ (radius %r, dimension %d)",
            func.__name__,
            r,
            n,
        )
        require(
            np.isclose(log_volume(scaled, n, target), base + math.log(factor), atol=1e-8),
            "%s: the scaled volume is wrong",
            func.__name__,
        )
    return Info(True, [shape, f"dim:{n}"])


@st.composite
def volumes(draw):
    return {
        "radius": 10.0 ** draw(st.integers(-3, 3)) * draw(st.floats(1, 10, width=32)),
        "dim": draw(st.integers(1, 12)),
        "shape": draw(st.sampled_from(["sphere", "cube"])),
        "factor": draw(st.sampled_from([1.0, 0.25, 0.5, 2.0, 10.0])),
    }


SUBS = [
    Sub(
        "regions",
        lambda tier: regions(),
        run_region,
        30_000,
        1_500_000,
        "a region with generated center, radius and bounds, and regions derived from it, "
        "against the documented formulas; every case is non-trivial",
    ),
    Sub(
        "volumes",
        lambda tier: volumes(),
        run_volume,
        3_000,
        100_000,
        "radius, dimension and scaling against closed formulas; every case is non-trivial",
    ),
]
