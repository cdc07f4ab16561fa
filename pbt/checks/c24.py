"""C24: exploration samples cover the box that is explored; quality of samples."""
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt.core import Info, Sub, require

PROPERTY = "C24"


def draw_sample(spec, **changes):
    from tranquilo.exploration_sample import draw_exploration_sample

    s = {**spec, **changes}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return draw_exploration_sample(
            x=np.array(s["x"], dtype=float),
            lower=np.array(s["lower"], dtype=float),
            upper=np.array(s["upper"], dtype=float),
            n_samples=s["n"],
            sampling_distribution=s["distribution"],
            sampling_method=s["method"],
            seed=s["seed"],
        )


def to_uniform(sample, spec):
    """Positions in the unit interval, by the distribution function."""
    lo, up, x = (np.array(spec[k], dtype=float) for k in ("lower", "upper", "x"))
    z = np.clip((sample - lo) / (up - lo), 0, 1)
    if spec["distribution"] == "uniform":
        return z
    c = (x - lo) / (up - lo)
    left = z * z / np.where(c > 0, c, 1)
    right = 1 - (1 - z) ** 2 / np.where(c < 1, 1 - c, 1)
    return np.where(z < c, left, right)


def is_stratified(u, n, first=0):
    """Does every interval [k/n, (k+1)/n) contain one point (up to rounding)?"""
    u = np.sort(u)
    k = np.arange(first, first + len(u))
    return bool((u >= k / n - 1e-7).all() and (u <= (k + 1) / n + 1e-7).all())


def run_sample(spec):
    n, dim, method = spec["n"], len(spec["lower"]), spec["method"]
    lo, up = np.array(spec["lower"], dtype=float), np.array(spec["upper"], dtype=float)
    state = np.random.get_state()
    sample = draw_sample(spec)
    after = np.random.get_state()
    require(
        all(np.array_equal(a, b) for a, b in zip(state, after)), "global random state changed"
    )
    require(sample.shape == (n, dim), "shape %s", sample.shape)
    require(np.isfinite(sample).all(), "sample contains nan or inf")
    tol = 1e-12 * (np.abs(lo) + np.abs(up))
    require(
        (sample >= lo - tol).all() and (sample <= up + tol).all(),
        "points between %s and %s outside of %s and %s",
        sample.min(axis=0),
        sample.max(axis=0),
        lo,
        up,
    )
    require(np.array_equal(sample, draw_sample(spec)), "the same seed gives another sample")
    if method in ("random", "latin_hypercube"):
        other = draw_sample(spec, seed=spec["seed"] + 1)
        require(not np.array_equal(sample, other), "the seed has no influence")
    else:
        require(
            np.array_equal(sample, draw_sample(spec, seed=spec["seed"] + 1)),
            "a sequence without randomness depends on the seed",
        )
    # the sample of another box is the same sample in the units of that box
    a, b = np.array(spec["move"][:dim]), np.array(spec["scale"][:dim])
    x = np.array(spec["x"], dtype=float)
    moved = draw_sample(spec, lower=a + b * lo, upper=a + b * up, x=a + b * x)
    size = np.abs(a) + b * (np.abs(lo) + np.abs(up))
    require(
        (np.abs(moved - (a + b * sample)) <= 1e-7 * b * (up - lo) + 1e-7 * size).all(),
        "the sample depends on location and size of the box",
    )
    # longer samples start with the shorter ones
    if method != "latin_hypercube" and n > 1:
        require(
            np.array_equal(draw_sample(spec, n=n // 2), sample[: n // 2]),
            "a shorter sample is not the beginning of the longer one",
        )
    # every coordinate is covered evenly
    u = to_uniform(sample, spec)
    smooth = spec["distribution"] == "uniform" or ((x > lo) & (x < up)).all()
    for j in range(dim):
        if method == "latin_hypercube":
            require(is_stratified(u[:, j], n), "coordinate %s is not stratified", j)
        if method == "sobol" and n & (n + 1) == 0:
            # the first point of the sequence (the lower bounds) is skipped
            require(is_stratified(u[:, j], n + 1, 1), "coordinate %s is not stratified", j)
        if method == "halton":
            base = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29][j]
            if smooth and n == base ** round(np.log(n) / np.log(base)):
                require(is_stratified(u[:, j], n), "coordinate %s is not stratified", j)
        if n >= 40:
            # Kolmogorov-Smirnov distance to the distribution that was asked for
            s = np.sort(u[:, j])
            d = max((np.arange(1, n + 1) / n - s).max(), (s - np.arange(n) / n).max())
            limit = 3.0 / np.sqrt(n) if method == "random" else 1.5 / np.sqrt(n)
            require(d <= limit, "coordinate %s does not follow the %s distribution: %s", j,
                    spec["distribution"], d)
    # coordinates do not determine each other
    if dim > 1 and n >= 60:
        corr = np.corrcoef(u.T) - np.eye(dim)
        limit = 0.98 if method == "halton" else 0.8
        require(np.abs(corr).max() < limit, "coordinates move together: %s", corr)
    labels = [method, spec["distribution"], "dim %s" % dim]
    return Info(n > 1, labels)


@st.composite
def samples(draw):
    dim = draw(st.integers(1, 6))
    value = st.integers(-400, 400).map(lambda k: k / 20)
    lower = [draw(value) for _ in range(dim)]
    upper = [lo + draw(st.sampled_from([0.05, 0.5, 1.0, 2.0, 7.5, 40.0])) for lo in lower]
    share = st.sampled_from([0.0, 0.1, 0.25, 0.5, 0.7, 0.9, 1.0])
    x = [min(up, lo + draw(share) * (up - lo)) for lo, up in zip(lower, upper)]
    return {
        "lower": lower,
        "upper": upper,
        "x": x,
        "n": draw(
            st.one_of(st.integers(1, 130), st.sampled_from([1, 3, 7, 8, 9, 15, 16, 25, 27, 31, 63, 127]))
        ),
        "distribution": draw(st.sampled_from(["uniform", "triangular"])),
        "method": draw(st.sampled_from(["sobol", "halton", "latin_hypercube", "random"])),
        "seed": draw(st.integers(0, 10**6)),
        "move": draw(st.lists(st.integers(-50, 50), min_size=6, max_size=6)),
        "scale": draw(
            st.lists(st.sampled_from([0.125, 0.5, 1.0, 3.0, 16.0]), min_size=6, max_size=6)
        ),
    }


def run_reject(spec):
    try:
        draw_sample(spec)
    except ValueError:
        return Info(True, [spec["wrong"]])
    require(False, "accepted %s", spec["wrong"])


@st.composite
def rejects(draw):
    spec = draw(samples())
    wrong = draw(st.sampled_from(["method", "distribution", "lower", "upper"]))
    spec["wrong"] = wrong
    if wrong in ("method", "distribution"):
        spec[wrong] = draw(st.sampled_from(["", "Sobol", "normal", "uniforms", "lhs"]))
    else:
        k = draw(st.integers(0, len(spec[wrong]) - 1))
        spec[wrong][k] = draw(st.sampled_from([np.inf, -np.inf, np.nan]))
    return spec


# --------------------------------------------------------------------------------------


def run_quality(spec):
    from tranquilo.bounds import Bounds
    from tranquilo.geometry import log_d_quality_calculator
    from tranquilo.region import Region

    rng = np.random.default_rng(spec["seed"])
    dim, n = spec["dim"], spec["dim"] + spec["more"]
    center = rng.normal(size=dim) * spec["far"]
    radius = spec["radius"]
    bounds = None
    if spec["bounded"]:
        bounds = Bounds(
            center - radius * rng.uniform(0.2, 3, dim), center + radius * rng.uniform(0.2, 3, dim)
        )
    region = Region(center=center, radius=radius, bounds=bounds)
    u = rng.uniform(-1, 1, size=(n, dim))
    if spec["deficient"] and dim > 1:
        u = u * 0
        u[:, 0] = rng.choice([-1.0, -0.5, 0.5, 1.0], size=n)
    sample = region.map_from_unit(u)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = log_d_quality_calculator(sample, region)
    sv = np.linalg.svd(u, compute_uv=False)
    # rounding in mapping to the region and back
    rounding = 1e-15 * (spec["far"] / radius + 1) * 100
    if spec["deficient"] and dim > 1:
        require(not got > 2 * np.log(n) + 2 * (dim - 1) * np.log(1e-3), "quality %s of a line", got)
        return Info(True, ["line"])
    if sv[-1] < 1e-4 + 10 * rounding:
        return Info(False, ["nearly singular"])
    want = 2 * np.log(sv).sum()
    require(
        abs(got - want) <= 1e-6 + 100 * rounding / sv[-1] ** 2,
        "quality %s, log determinant %s",
        got,
        want,
    )
    return Info(True, ["dim %s" % dim, region.shape])


@st.composite
def qualities(draw):
    return {
        "seed": draw(st.integers(0, 10**6)),
        "dim": draw(st.integers(1, 6)),
        "more": draw(st.integers(0, 8)),
        "far": draw(st.sampled_from([0.0, 1.0, 100.0])),
        "radius": draw(st.sampled_from([0.01, 0.1, 1.0, 20.0])),
        "bounded": draw(st.booleans()),
        "deficient": draw(st.integers(0, 7)) == 0,
    }


SUBS = [
    Sub(
        "samples",
        lambda tier: samples(),
        run_sample,
        12_000,
        400_000,
        "a sample against the box, repeated, moved and shorter samples, strata and "
        "distribution functions; non-trivial with more than one point",
    ),
    Sub("rejects", lambda tier: rejects(), run_reject, 800, 20_000, "unusable requests"),
    Sub(
        "quality",
        lambda tier: qualities(),
        run_quality,
        6_000,
        200_000,
        "log determinant of a sample against its singular values; non-trivial unless the "
        "sample is nearly singular",
    ),
]
