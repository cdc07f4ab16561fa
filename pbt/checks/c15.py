"""C15: samples have the requested size, lie where promised and are reproducible."""
import numpy as np
from hypothesis import strategies as st

from tranquilo.exploration_sample import draw_exploration_sample
from tranquilo.sample_points import get_sampler

from pbt import gen
from pbt.core import Info, Sub, require

PROPERTY = "C15"

SAMPLERS = ["random_interior", "random_hull", "optimal_hull"]


def to_unit(region, x):
    mid, half = gen.expand(region)
    return (np.asarray(x) - mid) / half


def from_unit(region, u):
    mid, half = gen.expand(region)
    out = mid + half * u
    b = region.bounds
    return np.clip(
        out,
        -np.inf if b.lower is None else b.lower,
        np.inf if b.upper is None else b.upper,
    )


def existing_points(spec, region):
    """Existing points: some of them in the center, the others clearly away from it."""
    if spec["existing"] is None:
        return None
    rng = np.random.default_rng(spec["seed"] + 17)
    n = len(region.center)
    u = gen.unit_points(rng, region.shape, spec["existing"], n)
    norm = np.linalg.norm(u, axis=1, keepdims=True)
    u = np.where(norm < 0.2, u / norm, u)
    if spec["flat"] and n > 1:
        u[:, 0] = 0.0
    if spec["central"] and len(u):
        u[0] = 0.0
    norm = np.linalg.norm(u, axis=1)
    u = u[(norm >= 0.15) | (norm == 0)]
    if spec["flat"] == 2:
        u = np.repeat(u[:1], max(1, len(u)), axis=0)[: len(u)]
    return from_unit(region, u)


def draw(spec, region, existing, name=None, options=None, seed=None, n_points=None):
    rng = np.random.default_rng(spec["seed"] if seed is None else seed)
    func = get_sampler(name or spec["sampler"], spec["options"] if options is None else options)
    return func(
        trustregion=region,
        n_points=spec["n_points"] if n_points is None else n_points,
        existing_xs=existing,
        rng=rng,
    )


def distance_tolerance(region):
    """Rounding of points in parameter space, seen in unit space."""
    mid, half = gen.expand(region)
    return 1e-9 + 1e-14 * float(np.max((np.abs(mid) + half) / half))


def require_inside(region, x, where):
    n = len(region.center)
    require(x.ndim == 2 and x.shape[1] == n, "%s: shape %s", where, x.shape)
    require(np.isfinite(x).all(), "%s: points %s", where, x)
    for bound, sign in ((region.bounds.lower, 1), (region.bounds.upper, -1)):
        if bound is not None:
            require((sign * (x - bound) >= 0).all(), "%s: bounds are violated", where)
    size = region.radius + np.abs(region.center).max()
    if region.shape == "sphere":
        d = np.linalg.norm(x - region.center, axis=1)
        require(
            (d <= region.radius * (1 + 1e-9) + 1e-13 * size).all(),
            "%s: a point is %r radii away from the center",
            where,
            float(d.max() / region.radius),
        )
    else:
        cb = region.cube_bounds
        require(
            ((x >= cb.lower - 1e-12 * size) & (x <= cb.upper + 1e-12 * size)).all(),
            "%s: a point is outside the cube",
            where,
        )


def hull_norm(region, x):
    u = to_unit(region, x)
    return np.linalg.norm(u, axis=1) if region.shape == "sphere" else np.abs(u).max(axis=1)


def logdet(new, old):
    """Logarithm of the determinant criterion (up to the constant factor)."""
    pts = new if old is None else np.vstack([new, old])
    sign, value = np.linalg.slogdet(pts.T @ pts)
    return value if sign > 0 else -np.inf


def run_sample(spec):
    region = gen.build_region(spec["region"])
    n = len(region.center)
    name = spec["sampler"]
    existing = existing_points(spec, region)
    keep = None if existing is None else existing.copy()
    options = dict(spec["options"])
    state = np.random.get_state()[1].copy()
    spec_before = (region.center.copy(), region.radius)
    x = draw(spec, region, existing)
    require(np.array_equal(np.random.get_state()[1], state), "global random state was used")
    require(existing is None or np.array_equal(existing, keep), "existing points were modified")
    require(
        np.array_equal(region.center, spec_before[0]) and region.radius == spec_before[1],
        "the region was modified",
    )
    require(options == spec["options"], "options were modified")
    again = draw(spec, gen.build_region(spec["region"]), keep)
    require(np.array_equal(x, again), "the same call with the same generator state differs")
    require(len(x) == spec["n_points"], "%s points instead of %s", len(x), spec["n_points"])
    labels = [name, region.shape, f"dim:{n}"]
    if spec["n_points"] == 0:
        return Info(False, [*labels, "no points"])
    require_inside(region, x, name)
    tol = distance_tolerance(region)
    if name != "random_interior":
        h = hull_norm(region, x)
        require(np.abs(h - 1).max() <= tol, "%s: hull norm %r", name, h)
    if name != "optimal_hull":
        other = draw(spec, region, None)
        require(np.array_equal(x, other), "random points depend on existing points")
        require(
            spec["n_points"] == 1 or len(np.unique(x, axis=0)) > 1 or n == 1, "equal points"
        )
        new = draw(spec, region, existing, seed=spec["seed"] + 1)
        require(n == 1 or not np.array_equal(x, new), "the sample ignores the generator")
        return Info(True, labels)

    # optimal sampler: compare with the random points it started from
    k = spec["options"].get("n_points_randomsearch", 1)
    random = draw(
        spec,
        region,
        None,
        name="random_hull",
        options={"distribution": spec["options"].get("distribution")},
        n_points=k * spec["n_points"],
    )
    u = to_unit(region, x)
    old = None if existing is None else to_unit(region, existing)
    start = to_unit(region, random).reshape(k, spec["n_points"], n)
    values = [logdet(s, old) for s in start]
    best = max(values)
    final = logdet(u, old)
    # determinants of nearly dependent points are rounding noise
    first = start[int(np.argmax(values))]
    gram = first.T @ first if old is None else _gram(first, old)
    if best > -np.inf and np.linalg.cond(gram) < 1e6:
        require(
            final >= best - 1e-6 - 100 * tol,
            "log determinant %r is worse than %r at the random start",
            final,
            best,
        )
        labels.append("compared with start")
    labels.append("criterion: " + str(spec["options"].get("criterion")))
    labels.append("existing" if existing is not None else "no existing")
    moved = not np.allclose(u, start[int(np.argmax(values))], atol=1e-9, rtol=0)
    labels.append("improved" if moved else "start kept")
    if (
        region.shape == "sphere"
        and spec["n_points"] == 1
        and old is not None
        and len(old) >= n
        and n > 1
        and spec["options"].get("criterion") in (None, "determinant")
        and spec["options"].get("algorithm", "L-BFGS-B") == "L-BFGS-B"
        and not spec["options"].get("algo_options")
    ):
        ev = np.linalg.eigvalsh(old.T @ old)
        if ev[0] > 1e-3:
            inv = np.linalg.inv(old.T @ old)
            share = (1 + u[0] @ inv @ u[0]) / (1 + 1 / ev[0])
            require(share >= 0.8, "the new point reaches %r of the best determinant", share)
            labels.append("compared with the optimal point")
    if spec["info"]:
        pts, info = draw(spec, region, existing, options={**options, "return_info": True})
        require(np.array_equal(pts, x), "returning information changes the points")
        sp = np.asarray(info["start_params"]).reshape(-1, n)
        op = np.asarray(info["opt_params"]).reshape(-1, n)
        require(
            min(np.abs(sp - s).max() for s in start) <= 10 * tol,
            "start_params are not one of the random starts",
        )
        norm = np.linalg.norm(op, axis=1) if region.shape == "sphere" else np.abs(op).max(axis=1)
        require(
            np.allclose(op / norm[:, None], u, rtol=0, atol=10 * tol),
            "opt_params are not the returned points",
        )
        if existing is None or spec["options"].get("criterion") == "determinant" or not spec[
            "central"
        ]:
            want = np.exp(logdet(sp, old)) / spec["n_points"] ** n
            require(
                abs(info["start_fekete"] - want) <= 1e-6 * abs(want) + 1e-9,
                "start_fekete is %r, not %r",
                info["start_fekete"],
                want,
            )
        crit = spec["options"].get("criterion")
        if crit is None:
            crit = "determinant" if spec["n_points"] == 1 else "distance"
        if (
            crit == "distance"
            and spec["options"].get("algorithm", "L-BFGS-B") == "L-BFGS-B"
            and (old is None or (np.linalg.norm(old, axis=1) > 0.11).all())
        ):
            hardness = spec["options"].get("hardness", 1.0)
            a = soft_distance(sp, old, region.shape, hardness)
            b = soft_distance(op, old, region.shape, hardness)
            require(
                b >= a - 1e-7 * (1 + abs(a)) - 100 * tol,
                "optimizing the distance criterion lowered it from %r to %r",
                a,
                b,
            )
            labels.append("compared distances")
        labels.append("info")
    return Info(True, labels)


def soft_distance(new, old, shape, hardness):
    """Soft minimum of squared distances of all pairs with at least one new point."""
    norm = np.linalg.norm(new, axis=1) if shape == "sphere" else np.abs(new).max(axis=1)
    new = new / norm[:, None]
    pairs = []
    for i in range(len(new)):
        others = new[i + 1 :] if old is None else np.vstack([new[i + 1 :], old])
        pairs += list(((new[i] - others) ** 2).sum(axis=1))
    if not pairs:
        return 0.0
    pairs = -hardness * np.array(pairs)
    return float(-(pairs.max() + np.log(np.exp(pairs - pairs.max()).sum())))


def _gram(new, old):
    pts = np.vstack([new, old])
    return pts.T @ pts


# --------------------------------------------------------------------------------------
# distributions of the random samplers
# --------------------------------------------------------------------------------------


def uniform_statistic(v):
    """Kolmogorov-Smirnov distance from the uniform distribution on [0, 1], scaled."""
    v = np.sort(v)
    n = len(v)
    grid = np.arange(1, n + 1) / n
    return np.sqrt(n) * max(np.max(grid - v), np.max(v - grid + 1 / n))


KS_LIMIT = 3.4  # exceeded with probability below 2e-10


def run_distribution(spec):
    region = gen.build_region(spec["region"])
    n = len(region.center)
    x = draw(spec, region, None)
    require_inside(region, x, spec["sampler"])
    u = to_unit(region, x)
    name = spec["sampler"]
    angles = []
    if name == "random_interior" and region.shape == "cube":
        angles += [0.5 * (u[:, i] + 1) for i in range(n)]
        angles += [0.5 * (u[:, 0] + 1) * 0 + _corr_uniform(u[:, 0], u[:, i]) for i in range(1, n)]
    elif region.shape == "sphere":
        r = np.linalg.norm(u, axis=1)
        if name == "random_interior":
            angles.append(np.clip(r, 0, 1) ** n)
        direction = u / r[:, None]
        if n == 2:
            angles.append((np.arctan2(direction[:, 1], direction[:, 0]) / np.pi + 1) / 2)
        elif n == 3:
            angles += [0.5 * (direction[:, i] + 1) for i in range(3)]
        elif n > 3:
            from scipy.stats import beta

            a = (n - 1) / 2
            angles += [beta.cdf(0.5 * (direction[:, i] + 1), a, a) for i in range(n)]
        if n == 1:
            share = np.mean(u > 0)
            require(abs(share - 0.5) * np.sqrt(4 * len(u)) < 7, "sides are unbalanced: %r", share)
    else:
        # surface of the cube: faces are equally likely and uniformly filled
        face = np.argmax(np.abs(u), axis=1)
        side = np.sign(u[np.arange(len(u)), face])
        for i in range(n):
            for s in (-1, 1):
                share = np.mean((face == i) & (side == s))
                p = 1 / (2 * n)
                z = (share - p) * np.sqrt(len(u) / (p * (1 - p)))
                require(abs(z) < 7, "face %s of the cube has a share of %r", (i, s), share)
            rest = u[face != i]
            if len(rest) > 500:
                angles.append(0.5 * (rest[:, i] + 1))
    for a in angles:
        k = uniform_statistic(a)
        require(k < KS_LIMIT, "%s on a %s is not uniform (%r)", name, region.shape, k)
    return Info(True, [name, region.shape, f"dim:{n}"])


def _corr_uniform(a, b):
    """Uniform on [0, 1] for independent uniform a and b on [-1, 1]."""
    return np.mod(0.5 * (a + 1) + 0.5 * (b + 1), 1.0)


# --------------------------------------------------------------------------------------
# global exploration samples
# --------------------------------------------------------------------------------------

PRIMES = [2, 3, 5, 7, 11, 13]


def radical_inverse(i, base):
    out, f = 0.0, 1.0 / base
    while i:
        i, d = divmod(i, base)
        out += d * f
        f /= base
    return out


def triangular_cdf(x, lower, mode, upper):
    x = np.asarray(x, dtype=float)
    out = np.empty_like(x)
    width = upper - lower
    left = x <= mode
    with np.errstate(divide="ignore", invalid="ignore"):
        a = (x - lower) ** 2 / (width * (mode - lower))
        b = 1 - (upper - x) ** 2 / (width * (upper - mode))
    out = np.where(left & (mode > lower), a, b)
    return np.where(x >= upper, 1.0, np.where(x <= lower, 0.0, out))


def run_exploration(spec):
    n = len(spec["lower"])
    lower = np.array(spec["lower"])
    upper = lower + np.array(spec["width"])
    x = lower + np.array(spec["share"]) * (upper - lower)
    x = np.clip(x, lower, upper)
    inputs = [lower.copy(), upper.copy(), x.copy()]
    args = {
        "x": x,
        "lower": lower,
        "upper": upper,
        "n_samples": spec["n_samples"],
        "sampling_distribution": spec["distribution"],
        "sampling_method": spec["method"],
        "seed": spec["seed"],
    }
    bad = spec["bad"]
    if bad == "method":
        args["sampling_method"] = "grid"
    elif bad == "distribution":
        args["sampling_distribution"] = "normal"
    elif bad in ("lower", "upper"):
        args[bad] = args[bad].copy()
        args[bad][-1] = np.nan if spec["seed"] % 3 == 0 else np.inf * (-1) ** (bad == "lower")
    if bad:
        try:
            draw_exploration_sample(**args)
        except ValueError:
            return Info(True, ["rejected: " + bad])
        require(False, "invalid %s was accepted", bad)
    state = np.random.get_state()[1].copy()
    out = draw_exploration_sample(**args)
    again = draw_exploration_sample(**args)
    require(np.array_equal(np.random.get_state()[1], state), "global random state was used")
    require(np.array_equal(out, again), "not reproducible from the seed")
    require(
        all(np.array_equal(a, b) for a, b in zip(inputs, (lower, upper, x))), "inputs modified"
    )
    m = spec["n_samples"]
    require(out.shape == (m, n), "shape %s instead of %s", out.shape, (m, n))
    eps = 1e-12 * (np.abs(lower) + np.abs(upper))
    require((out >= lower - eps).all() and (out <= upper + eps).all(), "outside the bounds")
    if spec["distribution"] == "uniform":
        u = (out - lower) / (upper - lower)
    else:
        u = np.column_stack(
            [triangular_cdf(out[:, i], lower[i], x[i], upper[i]) for i in range(n)]
        )
    tol = 1e-7
    if spec["method"] == "halton":
        want = np.array([[radical_inverse(i, PRIMES[j]) for j in range(n)] for i in range(m)])
        require(np.abs(u - want).max() < tol, "not the Halton sequence")
    elif spec["method"] == "sobol":
        # the first 2^k - 1 points hit every multiple of 2^-k once in every coordinate
        k = int(np.log2(m + 1))
        first = np.sort(u[: 2**k - 1], axis=0)
        want = np.arange(1, 2**k)[:, None] / 2**k
        require(np.abs(first - want).max() < tol, "not the Sobol sequence")
        require(np.abs(u[0] - 0.5).max() < tol, "does not start in the middle")
        if n > 1 and m >= 3:
            # two different coordinates do not move together
            cells = {tuple(c) for c in np.floor(4 * u[:3, :2] + tol).astype(int)}
            require(len(cells) == 3, "points of the Sobol sequence share cells")
    elif spec["method"] == "latin_hypercube":
        for i in range(n):
            s = np.sort(u[:, i])
            j = np.arange(m)
            require(
                (s >= j / m - tol).all() and (s <= (j + 1) / m + tol).all(),
                "coordinate %s is not stratified",
                i,
            )
        if n > 1 and m >= 30:
            require(not np.array_equal(np.argsort(u[:, 0]), np.argsort(u[:, 1])), "dependent")
    elif m >= 200:
        for i in range(n):
            require(uniform_statistic(np.clip(u[:, i], 0, 1)) < KS_LIMIT, "wrong distribution")
    if spec["method"] in ("random", "latin_hypercube") and m > 1:
        args["seed"] = spec["seed"] + 1
        require(not np.array_equal(out, draw_exploration_sample(**args)), "the seed is ignored")
    return Info(m > 1, [spec["method"], spec["distribution"], f"dim:{n}"])


# --------------------------------------------------------------------------------------
# generators
# --------------------------------------------------------------------------------------


@st.composite
def samples(draw, tier):
    name = draw(st.sampled_from(["random_interior", "random_hull"] + ["optimal_hull"] * 4))
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 6] + ([8] if tier == "thorough" else [])))
    options = {}
    if name != "random_interior":
        dist = draw(st.sampled_from([None, None, "normal", "uniform"]))
        if dist:
            options["distribution"] = dist
    if name == "optimal_hull":
        for k, pool in {
            "hardness": [1.0, 1.0, 0.1, 10.0],
            "criterion": [None, None, "distance", "determinant"],
            "n_points_randomsearch": [1, 1, 2, 5, 20],
            "algorithm": ["L-BFGS-B", "L-BFGS-B", "L-BFGS-B", "SLSQP", "Powell", "TNC"],
            "algo_options": [None, None, None, {"maxiter": 1}, {"maxiter": 3}],
        }.items():
            v = draw(st.sampled_from(pool))
            if v is not None and v != pool[0]:
                options[k] = v
        if options.get("algorithm") == "TNC":
            options["algo_options"] = {"maxiter": 5, "maxfun": 200}
        if options.get("algorithm") == "Powell":
            options["algo_options"] = {"maxiter": 2, "maxfev": 300}
    if name == "optimal_hull" and draw(st.integers(0, 5)) == 0:
        # one additional point in a ball: the best possible point is known
        n = max(n, 2)
        return {
            "region": draw(gen.region_specs(n, shape="sphere")),
            "sampler": name,
            "n_points": 1,
            "existing": draw(st.sampled_from([n, n + 1, n + 3, 2 * n + 2])),
            "flat": 0,
            "central": draw(st.booleans()),
            "options": {},
            "info": False,
            "seed": draw(st.integers(0, 10**9)),
        }
    return {
        "region": draw(gen.region_specs(n)),
        "sampler": name,
        "n_points": draw(st.sampled_from([0, 1, 1, 2, 3, n, n + 1] + ([2 * n + 1] if n < 5 else []))),
        "existing": draw(st.sampled_from([None, 0, 1, 2, 3, n, n + 1, n + 3, 2 * n + 2])),
        "flat": draw(st.sampled_from([0, 0, 0, 1, 2])),
        "central": draw(st.sampled_from([True, False, False])),
        "options": options,
        "info": draw(st.booleans()),
        "seed": draw(st.integers(0, 10**9)),
    }


@st.composite
def distributions(draw, tier):
    n = draw(st.sampled_from([1, 2, 3, 4, 6]))
    region = draw(gen.region_specs(n))
    return {
        "region": region,
        "sampler": draw(st.sampled_from(["random_interior", "random_hull"])),
        "n_points": 4000 if tier == "thorough" else 2000,
        "options": {},
        "seed": draw(st.integers(0, 10**9)),
    }


@st.composite
def explorations(draw, tier):
    n = draw(st.sampled_from([1, 2, 3, 5]))
    size = 10.0 ** draw(st.sampled_from([-3, 0, 0, 0, 4]))
    return {
        "lower": [size * draw(st.floats(-5, 5, width=16)) for _ in range(n)],
        "width": [size * draw(st.sampled_from([0.5, 1.0, 7.0])) for _ in range(n)],
        "share": [draw(st.sampled_from([0.0, 0.3, 0.5, 0.9, 1.0])) for _ in range(n)],
        "n_samples": draw(st.sampled_from([1, 2, 3, 7, 10, 31, 64, 100, 400])),
        "distribution": draw(st.sampled_from(["uniform", "triangular"])),
        "method": draw(st.sampled_from(["sobol", "halton", "latin_hypercube", "random"])),
        "seed": draw(st.integers(0, 10**6)),
        "bad": draw(
            st.sampled_from([None] * 16 + ["method", "distribution", "lower", "upper"])
        ),
    }


SUBS = [
    Sub(
        "sample",
        samples,
        run_sample,
        quick=2600,
        thorough=150000,
        rule="at least one point was requested",
    ),
    Sub(
        "distribution",
        distributions,
        run_distribution,
        quick=400,
        thorough=4000,
        rule="every case (2000 points from one region, compared with the uniform distribution)",
    ),
    Sub(
        "exploration",
        explorations,
        run_exploration,
        quick=2500,
        thorough=40000,
        rule="more than one point was requested, or invalid input was given",
    ),
]
