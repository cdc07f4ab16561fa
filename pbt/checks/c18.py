"""C18: radius and noise adaptation respect their rules and limits."""
import numpy as np
from hypothesis import strategies as st

from tranquilo.acceptance_decision import get_acceptance_decider
from tranquilo.adjust_n_evals import adjust_n_evals
from tranquilo.adjust_radius import adjust_radius
from tranquilo.aggregate_models import get_aggregator
from tranquilo.estimate_variance import get_variance_estimator
from tranquilo.fit_models import get_fitter
from tranquilo.history import History
from tranquilo.options import NoiseAdaptationOptions, RadiusOptions
from tranquilo.rho_noise import simulate_rho_noise
from tranquilo.solve_subproblem import SubproblemResult, get_subsolver

from pbt import e2e, gen
from pbt.core import Info, Sub, require

PROPERTY = "C18"

INF = float("inf")
RADIUS = {
    "min_radius": 1e-6,
    "max_radius": 1e6,
    "rho_decrease": 0.1,
    "rho_increase": 0.1,
    "shrinking_factor": 0.5,
    "expansion_factor": 2.0,
    "large_step": 0.5,
    "max_radius_to_step_ratio": INF,
}
NOISE = {
    "rho_noise_n_draws": 100,
    "high_rho": 0.6,
    "low_rho": 0.1,
    "ignore_corelation": True,
    "min_share_high_rho": 0.7,
    "min_share_low_rho": 0.9,
    "min_n_evals": 1,
    "max_n_evals": 30,
    "good_rho_threshold": 0.1,
}
AGGREGATORS = {
    "scalar": "identity",
    "likelihood": "sum",
    "least_squares": "least_squares_linear",
}
VARIANCE = {"max_distance_factor": 3.0, "min_n_evals": 3}


def warmup():
    e2e.compile_all()


# --------------------------------------------------------------------------------------
# radius
# --------------------------------------------------------------------------------------


def allowed_radii(radius, rho, step, increased, o, exact):
    """The radii that the documented rules allow (two if decided by rounding)."""
    eps = 0.0 if exact else 1e-12
    out = []
    ratio = step / radius
    long = [ratio >= o["large_step"] * (1 - eps), ratio >= o["large_step"] * (1 + eps)]
    for is_long in set(long):
        if rho >= o["rho_increase"] and is_long:
            new = radius * o["expansion_factor"]
        elif rho >= o["rho_decrease"] or increased:
            new = radius
        else:
            new = radius * o["shrinking_factor"]
        top = o["max_radius"]
        if np.isfinite(o["max_radius_to_step_ratio"]) and step > 0:
            top = min(top, step * o["max_radius_to_step_ratio"])
        out.append(max(o["min_radius"], min(new, top)))
    return out


def run_radius(spec):
    o = {**RADIUS, **spec["options"]}
    options = RadiusOptions(initial_radius=1.0)._replace(**spec["options"])
    radius = spec["radius"]
    step = radius * spec["ratio"]
    new = adjust_radius(
        radius=radius,
        rho=spec["rho"],
        step_length=step,
        options=options,
        n_evals_is_increased=spec["increased"],
    )
    want = allowed_radii(radius, spec["rho"], step, spec["increased"], o, spec["exact"])
    require(
        any(abs(new - w) <= 1e-12 * w for w in want),
        "radius %r with rho %r and relative step %r became %r, not %s",
        radius,
        spec["rho"],
        spec["ratio"],
        new,
        want,
    )
    require(new >= o["min_radius"] and new <= max(o["max_radius"], o["min_radius"]), "limits")
    require(new > 0, "the radius became zero")
    if new == o["min_radius"]:
        label = "at the minimum"
    elif new == o["max_radius"]:
        label = "at the maximum"
    else:
        label = "longer" if new > radius else "shorter" if new < radius else "unchanged"
    return Info(new != radius, [label, "evaluations increased" if spec["increased"] else "plain"])


# --------------------------------------------------------------------------------------
# number of evaluations
# --------------------------------------------------------------------------------------


def next_n_evals(n, rho, rhos, o):
    high = sum(r > o["high_rho"] for r in rhos) / len(rhos)
    low = sum(r > o["low_rho"] for r in rhos) / len(rhos)
    if high > o["min_share_high_rho"]:
        return max(n - 1, o["min_n_evals"]), "high"
    if low > o["min_share_low_rho"]:
        return n, "low"
    if rho >= o["good_rho_threshold"]:
        return n, "good step"
    return min(n + 1, o["max_n_evals"]), "more"


def run_n_evals(spec):
    o = {**NOISE, **spec["options"]}
    options = NoiseAdaptationOptions(**spec["options"])
    rhos = np.array([float(r) for r in spec["rhos"]])
    n = min(max(spec["n_evals"], o["min_n_evals"]), o["max_n_evals"])
    before = rhos.copy()
    new, increased = adjust_n_evals(
        n_evals=n, rho=spec["rho"], rho_noise=rhos, options=options
    )
    require(np.array_equal(before, rhos), "the simulated values were modified")
    want, why = next_n_evals(n, spec["rho"], spec["rhos"], o)
    require(new == want, "%s evaluations became %s, not %s (%s)", n, new, want, why)
    require(bool(increased) == (new > n), "reported increase %s", increased)
    require(abs(new - n) <= 1 and o["min_n_evals"] <= new <= o["max_n_evals"], "limits")
    return Info(new != n, [why, "changed" if new != n else "kept"])


# --------------------------------------------------------------------------------------
# noise variance
# --------------------------------------------------------------------------------------


def nearby(region, x, factor):
    """True or False, None if decided by rounding."""
    # points are looked up in the ball around the center, whatever the shape
    slack = np.linalg.norm(x - region.center) / (region.radius * factor) - 1
    eps = 1e-9
    return None if abs(slack) <= eps else bool(slack < 0)


def variance_oracle(region, data, o, vector):
    """data: list of (x, values with one row per evaluation); None if ambiguous."""
    used = []
    for x, values in data:
        near = nearby(region, x, o["max_distance_factor"])
        if near is None:
            return None
        if near and len(values) > 1 and np.isfinite(values).all():
            used.append(np.asarray(values, dtype=float))
    if not used:
        return 0.0
    cutoff = min(max(len(v) for v in used), o["min_n_evals"])
    used = [v for v in used if len(v) >= cutoff]
    total = sum(len(v) for v in used)
    out = 0.0
    for v in used:
        dev = v - v.mean(axis=0)
        c = dev.T @ dev / (len(v) - 1) if vector else np.sum(dev**2) / (len(v) - 1)
        out = out + len(v) / total * c
    return out


def value(functype, rows):
    rows = np.asarray(rows, dtype=float)
    if functype == "scalar":
        return rows.reshape(-1)
    if functype == "likelihood":
        return rows.sum(axis=1)
    return (rows**2).sum(axis=1)


def close(a, b, size):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return (b.ndim == 0 or a.shape == b.shape) and np.allclose(a, b, rtol=1e-9, atol=1e-12 * size)


def run_variance(spec):
    region = gen.build_region(spec["region"])
    n = len(region.center)
    rng = np.random.default_rng(spec["seed"])
    functype = spec["functype"]
    n_res = 1 if functype == "scalar" else spec["n_res"]
    history = History(functype)
    counts = [1, *spec["counts"]] if spec["center_once"] else list(spec["counts"])
    xs = [region.center.copy()]
    for k in range(len(counts) - 1):
        u = gen.unit_points(rng, region.shape, 1, n)[0]
        far = spec["distances"][k % len(spec["distances"])]
        u = u / max(np.linalg.norm(u), 1e-3) * far
        xs.append(region.effective_center + region.effective_radius * u)
    xs = np.array(xs)
    history.add_xs(xs)
    rows = [spec["size"] * (rng.normal(size=(c, n_res)) + 3 * rng.normal(size=n_res))
            for c in counts]
    for k, c in enumerate(counts):
        if k and spec["failures"] and k % spec["failures"] == 0:
            rows[k][rng.integers(c)] = np.inf
    order = rng.permutation(np.repeat(np.arange(len(counts)), counts))
    used = [0] * len(counts)
    evals = []
    for i in order:
        r = rows[i][used[i]]
        evals.append(float(r[0]) if functype == "scalar" else r)
        used[i] += 1
    history.add_evals([int(i) for i in order], evals)
    o = {**VARIANCE, **spec["options"]}
    estimate = get_variance_estimator("classic", spec["options"] or None)
    labels = []
    nontrivial = False
    for kind in ("scalar", "vector"):
        got = estimate(trustregion=region, history=history, model_type=kind)
        vector = kind == "vector"
        data = [
            (x, r if vector else value(functype, r)) for x, r in zip(xs, rows)
        ]
        want = variance_oracle(region, data, o, vector)
        if want is None:
            return Info(False, ["decided by rounding"])
        finite = [d for _, d in data if np.isfinite(d).all()]
        size = max(np.max(np.abs(d)) for d in finite) ** 2 if finite else 1.0
        require(close(got, want, size), "%s variance is %s, not %s", kind, got, want)
        if vector:
            require(np.shape(got) == (n_res, n_res), "shape %s", np.shape(got))
        else:
            require(np.ndim(got) == 0 and got >= 0, "variance %r", got)
        nontrivial |= bool(np.any(np.asarray(want) > 0))
    labels += [functype, region.shape, "estimate" if nontrivial else "nothing to estimate"]
    near = [nearby(region, x, o["max_distance_factor"]) for x in xs]
    labels.append("far points" if not all(near) else "all near")
    return Info(nontrivial, labels)


# --------------------------------------------------------------------------------------
# simulated improvement ratios
# --------------------------------------------------------------------------------------


def run_simulation(spec):
    region = gen.build_region(spec["region"])
    n = len(region.center)
    rng = np.random.default_rng(spec["seed"])
    m, n_res = spec["n_points"], spec["n_res"]
    scalar = spec["functype"] == "scalar"
    if scalar:
        n_res = 1
    model = gen.build_model(rng, region, n_res, spec["functype"] != "least_squares", False)
    old = gen.build_model(rng, region, n_res, True, False)
    before = gen.snapshot(model)
    aggregate = get_aggregator(AGGREGATORS[spec["functype"]])
    truth = aggregate(vector_model=model)
    xs = region.map_from_unit(gen.unit_points(rng, region.shape, m, n))
    root = spec["noise"] * np.tril(rng.normal(size=(n_res, n_res)))
    cov = root @ root.T
    u_star = gen.unit_points(rng, region.shape, 1, n)[0]
    seen = []

    def fitter(x, y, **kw):
        require(np.array_equal(x, xs), "the model is fitted to other points")
        require(kw.get("old_model") is old and kw.get("region") == region, "old model or region")
        seen.append(np.array(y))
        return model

    def solver(model, trustregion, **kw):
        require(trustregion == region, "solved on another region")
        return SubproblemResult(
            x=region.map_from_unit(u_star[None])[0],
            expected_improvement=spec["expected"],
            n_iterations=1,
            success=True,
            x_unit=u_star,
            shape=region.shape,
        )

    options = NoiseAdaptationOptions(
        rho_noise_n_draws=spec["draws"], ignore_corelation=spec["ignore"]
    )

    def simulate(seed):
        return simulate_rho_noise(
            xs=xs.copy(),
            vector_model=model,
            old_vector_model=old,
            trustregion=region,
            noise_cov=cov.copy(),
            model_fitter=fitter,
            model_aggregator=aggregate,
            subsolver=solver,
            rng=np.random.default_rng(seed),
            options=options,
        )

    rhos = np.asarray(simulate(spec["seed"]))
    require(rhos.shape == (spec["draws"],), "%s ratios for %s draws", rhos.shape, spec["draws"])
    y = np.array(seen)
    require(y.shape == (spec["draws"], m, n_res), "simulated data %s", y.shape)
    seen.clear()
    again = simulate(spec["seed"])
    require(np.array_equal(again, rhos) and np.array_equal(seen, y), "not reproducible")
    require(gen.same_snapshot(before, gen.snapshot(model)), "the model was modified")
    x_star = region.map_from_unit(u_star[None])
    gain = gen.predict_at(truth, region.center[None]) - gen.predict_at(truth, x_star)
    size = max(gen.magnitude(truth, region.center), gen.magnitude(truth, x_star))
    if spec["expected"] == 0:
        if abs(gain[0, 0]) > 1e-9 * size:
            want = INF if gain[0, 0] > 0 else -INF
            require((rhos == want).all(), "ratios %s without expected improvement", rhos[:3])
    else:
        want = gain[0, 0] / spec["expected"]
        require(
            np.abs(rhos - want).max() <= 1e-9 * size / spec["expected"] + 1e-9 * abs(want),
            "ratios %s, the model gives %r",
            rhos[:3],
            want,
        )
    # noise around the predictions
    exact = gen.predict_at(model, xs)
    noise = (y - exact).reshape(-1, n_res)
    k = len(noise)
    scale = np.sqrt(np.diag(cov))
    slack = 1e-9 * gen.magnitude(model, xs)
    require(
        (np.abs(noise.mean(axis=0)) <= 7 * scale / np.sqrt(k) + slack).all(),
        "the simulated noise has mean %s",
        noise.mean(axis=0),
    )
    want = np.diag(np.diag(cov)) if spec["ignore"] else cov
    if k >= 200 and spec["noise"] > 0:
        got = noise.T @ noise / k
        se = np.sqrt((np.outer(scale**2, scale**2) + want**2) / k)
        require(
            (np.abs(got - want) <= 7.5 * se + slack * (1 + scale.max())).all(),
            "covariance of the noise %s, given %s",
            got,
            want,
        )
        require(len(np.unique(noise[:, 0])) > 0.9 * k, "draws are repeated")
    if spec["noise"] == 0:
        require(np.abs(noise).max() <= slack, "noise without variance")
    return Info(spec["noise"] > 0, [
        spec["functype"], region.shape, "ignore correlation" if spec["ignore"] else "correlated"])


def run_ideal(spec):
    """Without noise the simulation finds the predicted improvement: all ratios are one."""
    region = gen.build_region(spec["region"])
    n = len(region.center)
    rng = np.random.default_rng(spec["seed"])
    functype = spec["functype"]
    n_res = 1 if functype == "scalar" else n + 1
    quadratic = functype == "scalar"
    model = gen.build_model(rng, region, n_res, quadratic, False)
    k = 2 * (1 + n + n * (n + 1) // 2)
    xs = region.map_from_unit(gen.unit_points(rng, region.shape, k, n))
    fitter = get_fitter(
        "ols", None, "quadratic" if quadratic else "linear", False, "relative"
    )
    aggregate = get_aggregator(AGGREGATORS[functype])
    solver = get_subsolver("gqtpar_fast", "bntr_fast", True, None)
    rhos = simulate_rho_noise(
        xs=xs,
        vector_model=model,
        old_vector_model=model,
        trustregion=region,
        noise_cov=np.zeros((n_res, n_res)),
        model_fitter=fitter,
        model_aggregator=aggregate,
        subsolver=solver,
        rng=rng,
        options=NoiseAdaptationOptions(rho_noise_n_draws=3),
    )
    require(np.shape(rhos) == (3,), "shape %s", np.shape(rhos))
    sol = solver(model=aggregate(vector_model=model), trustregion=region)
    if sol.expected_improvement < 1e-4:
        return Info(False, ["no improvement"])
    require(np.abs(rhos - 1).max() < 1e-4, "ratios without noise are %s", rhos)
    return Info(True, [functype, region.shape])


# --------------------------------------------------------------------------------------
# adaptation during optimizations
# --------------------------------------------------------------------------------------


def run_inside(spec):
    o = {**RADIUS, **spec["options"].get("radius_options", {})}
    noise = {**NOISE, **spec["options"].get("noise_adaptation_options", {})}
    var = {**VARIANCE, **spec["options"].get("variance_estimator_options", {})}
    functype = spec["problem"]["functype"]
    extra, checked = {}, []
    if spec.get("noisy"):
        built_in = get_acceptance_decider(
            "noisy", spec["options"].get("acceptance_decider_options")
        )

        def decide(subproblem_solution, state, wrapped_criterion, noise_variance, history):
            data = []
            for i in range(history.get_n_xs()):
                rows = [history.fvecs[int(k)] for k in history.index_mapper[i]]
                data.append((history.get_xs(i), value(functype, np.array(rows))))
            want = variance_oracle(state.trustregion, data, var, False)
            if want is not None:
                size = max((np.abs(d[np.isfinite(d)]).max(initial=0) for _, d in data))
                require(
                    close(noise_variance, want, size**2),
                    "noise variance %r, the evaluations give %r",
                    noise_variance,
                    want,
                )
                checked.append(want > 0)
            return built_in(
                subproblem_solution=subproblem_solution, state=state,
                wrapped_criterion=wrapped_criterion, noise_variance=noise_variance,
                history=history,
            )

        extra["acceptance_decider"] = decide
    out = e2e.run(spec, **extra)
    states = out.states
    labels = set()
    radius0 = o.get("initial_radius") or (0.1 * np.abs(out.x0).max() or 0.1)
    require(
        abs(states[0].trustregion.radius - radius0) <= 1e-12 * radius0,
        "the first radius is %r, not %r",
        states[0].trustregion.radius,
        radius0,
    )
    for k in range(1, len(states)):
        now, prev = states[k], states[k - 1]
        r = now.trustregion.radius
        require(r > 0, "radius %r", r)
        if k == 1:
            require(r == states[0].trustregion.radius, "the radius of the first iteration")
        if spec.get("noisy"):
            n = now.n_evals_per_point
            require(noise["min_n_evals"] <= n <= noise["max_n_evals"], "%s evaluations", n)
        if k + 1 < len(states):
            after = states[k + 1]
            increased = False
            if spec.get("noisy"):
                change = after.n_evals_per_point - now.n_evals_per_point
                require(abs(change) <= 1, "evaluations per point changed by %s", change)
                increased = change > 0
                labels.add(f"evaluations: {change:+d}")
                if increased:
                    require(
                        now.rho < noise["good_rho_threshold"], "more evaluations after good step"
                    )
            else:
                require(after.n_evals_per_point == now.n_evals_per_point, "evaluations changed")
            step = float(np.linalg.norm(now.x - prev.x))
            want = allowed_radii(r, now.rho, step, increased, o, False)
            new = after.trustregion.radius
            require(
                any(abs(new - w) <= 1e-9 * w for w in want),
                "iteration %s: radius %r, rho %r, step %r: next radius %r, not %s",
                k,
                r,
                now.rho,
                step,
                new,
                want,
            )
            labels.add("longer" if new > r else "shorter" if new < r else "unchanged")
    labels = sorted(labels)
    if checked:
        labels.append("variance estimated" if any(checked) else "no variance")
    return Info(len(states) > 3, [functype, *labels])


# --------------------------------------------------------------------------------------
# generators
# --------------------------------------------------------------------------------------

RADIUS_VALUES = {
    "min_radius": [1e-3, 0.125, 0.5],
    "max_radius": [1.0, 2.0, 8.0],
    "rho_decrease": [0.0625, 0.25, 0.0, 0.5],
    "rho_increase": [0.25, 0.75, 0.5],
    "shrinking_factor": [0.25, 0.875],
    "expansion_factor": [1.5, 4.0],
    "large_step": [0.25, 0.75, 1.0],
    "max_radius_to_step_ratio": [1.0, 4.0, 10.0],
}


@st.composite
def radius_options(draw, keys=tuple(RADIUS_VALUES)):
    out = {}
    for k in draw(st.lists(st.sampled_from(keys), unique=True, max_size=5)):
        out[k] = draw(st.sampled_from(RADIUS_VALUES[k]))
    o = {**RADIUS, **out}
    # the other order is unusual, but each threshold keeps its meaning
    if o["rho_decrease"] > o["rho_increase"] and draw(st.integers(0, 2)):
        out["rho_increase"] = o["rho_decrease"]
    return out


@st.composite
def radii(draw, tier):
    exact = draw(st.booleans())
    opts = draw(radius_options())
    if exact:
        radius = 2.0 ** draw(st.integers(-20, 20))
        ratio = draw(st.sampled_from([0.0, 0.125, 0.25, 0.5, 0.75, 1.0, 1.5, 4.0]))
        rho = draw(st.sampled_from([-1.0, 0.0, 0.0625, 0.1, 0.25, 0.5, 0.75, 1.0, INF, -INF]))
    else:
        radius = 10.0 ** draw(st.floats(-7, 7))
        ratio = draw(st.floats(0, 4))
        rho = draw(st.floats(-3, 3))
    o = {**RADIUS, **opts}
    where = draw(st.integers(0, 3))
    if where == 0:
        rho = (o["rho_decrease"] + o["rho_increase"]) / 2
    elif where == 1 and exact:
        rho = draw(st.sampled_from([o["rho_decrease"], o["rho_increase"]]))
    return {
        "options": opts,
        "radius": radius,
        "ratio": ratio,
        "rho": rho,
        "exact": exact,
        "increased": draw(st.booleans()),
    }


@st.composite
def noise_options(draw):
    out = {}
    for k, pool in {
        "high_rho": [0.5, 0.8],
        "low_rho": [0.25, 0.05, -0.5],
        "min_share_high_rho": [0.5, 0.25, 0.75],
        "min_share_low_rho": [0.5, 0.75, 1.0],
        "min_n_evals": [2, 3],
        "max_n_evals": [3, 5],
        "good_rho_threshold": [0.5, -0.5],
    }.items():
        if draw(st.booleans()):
            out[k] = draw(st.sampled_from(pool))
    return out


@st.composite
def n_evals(draw, tier):
    pool = st.sampled_from(
        [-1.0, -0.5, 0.0, 0.05, 0.1, 0.2, 0.25, 0.5, 0.55, 0.6, 0.7, 0.8, 1.0, INF, -INF]
    )
    return {
        "options": draw(noise_options()),
        "n_evals": draw(st.sampled_from([1, 2, 3, 4, 5, 10, 29, 30])),
        "rho": draw(pool),
        "rhos": draw(st.lists(pool, min_size=1, max_size=12)),
    }


@st.composite
def variances(draw, tier):
    n = draw(st.sampled_from([1, 2, 3]))
    options = {}
    if draw(st.booleans()):
        options["max_distance_factor"] = draw(st.sampled_from([1.0, 2.0, 5.0]))
    if draw(st.booleans()):
        options["min_n_evals"] = draw(st.sampled_from([1, 2, 4, 10]))
    return {
        "region": draw(gen.region_specs(n)),
        "functype": draw(st.sampled_from(["scalar", "least_squares", "likelihood"])),
        "n_res": draw(st.sampled_from([1, 2, 4])),
        "counts": draw(st.lists(st.sampled_from([1, 1, 2, 3, 4, 7]), min_size=1, max_size=7)),
        "center_once": draw(st.booleans()),
        "distances": draw(
            st.lists(st.sampled_from([0.3, 0.9, 1.5, 2.5, 3.5, 6.0]), min_size=1, max_size=4)
        ),
        "size": 10.0 ** draw(st.sampled_from([-3, 0, 0, 2])),
        "failures": draw(st.sampled_from([0, 0, 1, 2])),
        "options": options,
        "seed": draw(st.integers(0, 10**9)),
    }


@st.composite
def simulations(draw, tier):
    n = draw(st.sampled_from([1, 2, 3]))
    return {
        "region": draw(gen.region_specs(n)),
        "functype": draw(st.sampled_from(["scalar", "least_squares", "likelihood"])),
        "n_res": draw(st.sampled_from([2, 2, 3, 1])),
        "n_points": draw(st.sampled_from([1, 4, 9])),
        "draws": draw(st.sampled_from([1, 3, 60, 200])),
        "ignore": draw(st.booleans()),
        "noise": draw(st.sampled_from([0.0, 0.1, 1.0, 1.0, 100.0])),
        "expected": draw(st.sampled_from([0.0, 0.1, 1.0, 30.0])),
        "seed": draw(st.integers(0, 10**9)),
    }


@st.composite
def ideals(draw, tier):
    n = draw(st.sampled_from([1, 2, 3]))
    return {
        "region": draw(gen.region_specs(n)),
        "functype": draw(st.sampled_from(["scalar", "least_squares"])),
        "seed": draw(st.integers(0, 10**9)),
    }


@st.composite
def inside(draw, tier):
    noisy = draw(st.booleans())
    p = draw(e2e.problems(functypes=("scalar", "least_squares"), dims=(1, 3)))
    opts = draw(radius_options())
    if draw(st.booleans()):
        opts["initial_radius"] = draw(st.sampled_from([0.3, 1.0, 5.0]))
    lo, up = opts.get("min_radius", 1e-6), opts.get("max_radius", 1e6)
    start = opts.get("initial_radius") or 0.1 * max(map(abs, p["x0"])) or 0.1
    if not lo <= start <= up or lo > up:
        opts["initial_radius"] = max(lo, 0.5)
        opts["max_radius"] = max(up, 1.0)
    options = {
        "stopping_max_iterations": 30 if tier == "thorough" else 14,
        "stopping_max_criterion_evaluations": 600,
        "disable_convergence": True,
        "seed": draw(st.integers(0, 10**6)),
        "sampler": "random_hull",
        "radius_options": opts,
    }
    if noisy:
        p["noise"] = draw(st.sampled_from([1e-3, 0.1, 1.0]))
        noise = draw(noise_options())
        noise["rho_noise_n_draws"] = draw(st.sampled_from([3, 8]))
        options["noise_adaptation_options"] = noise
        options["acceptance_decider_options"] = {"n_max": 8}
        if draw(st.booleans()):
            options["variance_estimator_options"] = {"min_n_evals": draw(st.sampled_from([2, 5]))}
    else:
        options["batch_size"] = draw(st.sampled_from([1, 1, 2, 4]))
    return {"problem": p, "options": options, "noisy": noisy, "evaluator": {"kind": "own"}}


SUBS = [
    Sub("radius", radii, run_radius, quick=10000, thorough=400000, rule="the radius changed"),
    Sub("n_evals", n_evals, run_n_evals, quick=8000, thorough=300000,
        rule="the number of evaluations changed"),
    Sub("variance", variances, run_variance, quick=4000, thorough=150000,
        rule="the estimated variance is positive"),
    Sub("simulation", simulations, run_simulation, quick=1500, thorough=40000,
        rule="there is noise"),
    Sub("ideal", ideals, run_ideal, quick=500, thorough=10000, rule="improvement is possible"),
    Sub("inside", inside, run_inside, quick=320, thorough=8000, rule="at least three iterations"),
]
