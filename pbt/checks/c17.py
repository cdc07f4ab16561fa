"""C17: acceptance decisions follow the data."""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.special import ndtri

from tranquilo.acceptance_decision import get_acceptance_decider
from tranquilo.acceptance_sample_size import get_acceptance_sample_sizes
from tranquilo.history import History
from tranquilo.models import ScalarModel
from tranquilo.sample_points import get_sampler
from tranquilo.solve_subproblem import SubproblemResult
from tranquilo.tranquilo import State
from tranquilo.wrap_criterion import get_wrapped_criterion

from pbt import e2e, gen
from pbt.core import Info, Sub, require

PROPERTY = "C17"

DEFAULTS = {
    "confidence_level": 0.95,
    "power_level": 0.95,
    "n_initial": 5,
    "n_min": 4,
    "n_max": 50,
    "min_improvement": 0.0,
    "speculative_sampling_radius_factor": 0.75,
}


def warmup():
    e2e.compile_all()


def value(functype, raw):
    return e2e.value_of(functype, raw)


# --------------------------------------------------------------------------------------
# oracles
# --------------------------------------------------------------------------------------


def expected_sizes(sigma, existing, effect, power, confidence, n_min, n_max):
    """Raw sample sizes of the power analysis and their limits (lowest, highest)."""
    effect = max(effect, 1e-8)
    z = ndtri(confidence) + ndtri(power)
    need = (z / effect) ** 2  # 1 / admissible variance of the difference
    optimal = 2 * sigma**2 * need
    if existing <= optimal:
        raw1, raw2 = optimal - existing, optimal
    else:
        raw1 = 0.0
        raw2 = sigma**2 / (1 / need - sigma**2 / existing) if need > 0 else 0.0

    def clip(raw, lo, hi):
        raw = np.clip(raw * (1 + np.array([-1e-7, 1e-7])), lo, hi)
        return int(np.ceil(raw[0] - 1e-9)), int(np.ceil(raw[1] + 1e-9))

    return (clip(raw1, 0, max(0, n_max - existing)), clip(raw2, n_min, n_max), optimal)


def check_sizes(n1, n2, sigma, existing, effect, opts):
    (lo1, hi1), (lo2, hi2), _ = expected_sizes(
        sigma, existing, effect, opts["power_level"], opts["confidence_level"],
        opts["n_min"], opts["n_max"],
    )
    require(lo1 <= n1 <= hi1, "%s more evaluations at the current point, not %s", n1, lo1)
    require(lo2 <= n2 <= hi2, "%s evaluations of the candidate, not %s", n2, lo2)
    require(opts["n_min"] <= n2 <= opts["n_max"], "%s evaluations exceed the limits", n2)
    require(n1 >= 0 and (n1 == 0 or existing + n1 <= opts["n_max"]), "n1 = %s", n1)
    if 0 < n2 < opts["n_max"] and existing + n1 < opts["n_max"]:
        # requested power: the critical value plus the quantile of the power
        sd = sigma * np.sqrt(1 / (existing + n1) + 1 / n2)
        z = ndtri(opts["confidence_level"]) + ndtri(opts["power_level"])
        require(
            max(effect, 1e-8) >= z * sd * (1 - 1e-7),
            "%s and %s evaluations do not reach the requested power",
            existing + n1,
            n2,
        )
        return True
    return False


def check_decision(res, old, value_now, best_value, best_index, best_x, trial_value, expected,
                   min_improvement, where, exact=True):
    """res against the measured values; old is the state before."""
    scale = abs(value_now) + (abs(best_value) if np.isfinite(best_value) else 0)
    tol = 0.0 if exact else 1e-12 * scale
    gain = value_now - best_value
    finite = np.isfinite(best_value)
    unsure = finite and not exact and abs(gain - min_improvement) <= tol
    accepted = bool(finite and gain >= min_improvement)
    if not unsure:
        require(
            bool(res.accepted) == accepted,
            "%s: accepted is %s with improvement %r (required %r)",
            where,
            res.accepted,
            gain,
            min_improvement,
        )
    accepted = bool(res.accepted)
    if accepted:
        require(int(res.index) == best_index, "%s: accepted index %s, not %s", where, res.index,
                best_index)
        require(np.array_equal(res.x, best_x), "%s: accepted point %s, not %s", where, res.x, best_x)
        require(
            abs(res.fval - best_value) <= 1e-12 * abs(best_value),
            "%s: reported value %r, measured %r",
            where,
            res.fval,
            best_value,
        )
    else:
        require(res.index == old.index, "%s: index changed after a rejection", where)
        require(np.array_equal(res.x, old.x), "%s: point changed after a rejection", where)
        require(res.fval == old.fval, "%s: value changed after a rejection", where)
    length = float(np.linalg.norm(np.asarray(res.x) - old.x))
    require(abs(res.step_length - length) <= 1e-12 * length, "%s: step length %r, not %r", where,
            res.step_length, length)
    rel = length / old.trustregion.radius
    require(abs(res.relative_step_length - rel) <= 1e-12 * rel, "%s: relative step length", where)
    if not finite:
        require(res.rho == -np.inf, "%s: rho %r for a failed candidate", where, res.rho)
        return accepted
    improvement = value_now - trial_value
    if expected == 0:
        want = np.inf if improvement > 0 else -np.inf
    else:
        want = improvement / expected
    if np.isfinite(want):
        require(
            abs(res.rho - want) <= 1e-9 * abs(want) + (0 if exact else 10 * tol / abs(expected)),
            "%s: rho is %r, not %r",
            where,
            res.rho,
            want,
        )
    elif exact:
        require(res.rho == want, "%s: rho is %r, not %r", where, res.rho, want)
    return accepted


def near_border(region, x):
    """True or False if clear, None within the tolerance around the threshold."""
    if region.shape == "sphere":
        share = np.linalg.norm(x - region.center) / region.radius
    else:
        mid, half = gen.expand(region)
        share = np.max(np.abs(x - mid) / half)
    if 0.902 <= share <= 1.05:
        return True
    if share <= 0.898:
        return False
    return None


def check_line_search(points, old, candidate, batch, factor):
    """points: the new points besides the candidate, in the order of the history."""
    region = old.trustregion
    require(len(points) == batch - 1, "%s new points for batches of %s", len(points) + 1, batch)
    b = region.bounds
    lo = -np.inf if b.lower is None else b.lower
    up = np.inf if b.upper is None else b.upper
    for p in points:
        require((p >= lo).all() and (p <= up).all(), "a point violates the bounds: %s", p)
    border = near_border(region, candidate)
    k = min(batch, 4) - 1
    size = np.abs(region.center).max() + region.radius
    label = "threshold"
    n_line = 0
    if border is not False:
        line = [
            np.clip(old.x + 2.0**j * (candidate - old.x), lo, up) for j in range(1, k + 1)
        ]
        found = [any(np.allclose(p, q, rtol=0, atol=1e-12 * size) for p in points) for q in line]
        if border:
            require(all(found), "no line search although the candidate is on the border")
        if all(found):
            n_line, label = k, "line search"
            rest = [
                p for p in points
                if not any(np.allclose(p, q, rtol=0, atol=1e-12 * size) for q in line)
            ]
        else:
            rest = points
    else:
        rest, label = points, "speculative only"
    around = region._replace(center=np.asarray(candidate), radius=factor * region.radius)
    for p in rest:
        if around.shape == "sphere":
            d = np.linalg.norm(p - around.center)
            ok = d <= around.radius * (1 + 1e-9) + 1e-12 * size
        else:
            cb = around.cube_bounds
            ok = (p >= cb.lower - 1e-12 * size).all() and (p <= cb.upper + 1e-12 * size).all()
        require(ok, "speculative point %s is not around the candidate %s", p, candidate)
    require(len(rest) <= batch - 1 - n_line, "too many speculative points")
    return label


# --------------------------------------------------------------------------------------
# deciders with scripted values
# --------------------------------------------------------------------------------------


class Script:
    """Criterion with prescribed values on a grid, so that differences are exact."""

    def __init__(self, spec, x0):
        self.spec, self.x0 = spec, x0
        self.calls, self.raw = [], []

    def __call__(self, x):
        s = self.spec
        k = len(self.calls)
        self.calls.append(np.array(x))
        what = s["script"][k % len(s["script"])]
        if k < s["n_start"]:
            what = abs(what) if isinstance(what, int) else 3
        if s["functype"] == "scalar":
            out = 0.25 * what if isinstance(what, int) else 0.0
        else:
            # sums of squares are integer multiples of 0.25 too
            out = np.array([0.5 * (what if isinstance(what, int) else 1), 0.5, -1.0])
        if what == "raise":
            self.raw.append(None)
            raise e2e.Fault
        if what in ("inf", "nan"):
            out = out + {"inf": np.inf, "nan": np.nan}[what]
        self.raw.append(np.array(out))
        return out


def run_decider(spec):
    region = gen.build_region(spec["region"])
    n = len(region.center)
    rng = np.random.default_rng(spec["seed"])
    history = History(spec["functype"])
    x0 = region.center.copy()
    crit = Script(spec, x0)
    evaluator = e2e.BatchEvaluator()
    wrapped = get_wrapped_criterion(crit, evaluator, spec["n_cores"], history)
    others = region.map_from_unit(gen.unit_points(rng, region.shape, 3, n))
    history.add_xs(np.vstack([x0[None], others]))
    start = spec["n_start"]
    wrapped({0: start, 1: 1, 2: 1, 3: 1})
    crit.spec = {**spec, "n_start": 0}
    fval = float(np.mean([value(spec["functype"], r) for r in crit.raw[:start]]))
    u = gen.unit_points(rng, region.shape, 1, n)[0]
    norm = np.linalg.norm(u) if region.shape == "sphere" else np.abs(u).max()
    if spec["where"] is not None:
        u = u / norm * spec["where"]
    candidate = region.map_from_unit(u[None])[0]
    solution = SubproblemResult(
        x=candidate.copy(),
        expected_improvement=spec["expected"],
        n_iterations=3,
        success=True,
        x_unit=u,
        shape=region.shape,
    )
    model = ScalarModel(fval, np.zeros(n), np.zeros((n, n)), shift=x0, scale=region.radius)
    state = State(
        trustregion=region,
        model_indices=np.arange(4),
        model=model,
        vector_model=None,
        index=0,
        x=x0.copy(),
        fval=fval,
        rho=np.nan,
        accepted=True,
        new_indices=[0],
        old_indices_discarded=[],
        old_indices_used=[],
        candidate_index=0,
        candidate_x=x0.copy(),
    )
    options = {k: v for k, v in spec["options"].items()}
    opts = {**DEFAULTS, **options}
    name = spec["decider"]
    decide = get_acceptance_decider(name, options or None)
    calls, n_xs = len(crit.calls), history.get_n_xs()
    sigma2 = spec["variance"]
    batch = spec["batch"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = decide(
            subproblem_solution=solution,
            state=state,
            wrapped_criterion=wrapped,
            noise_variance=sigma2,
            history=history,
            search_radius_factor=4.25,
            batch_size=batch,
            sample_points=get_sampler("random_hull"),
            rng=np.random.default_rng(spec["seed"] + 1),
        )
    labels = judge(
        name, res, state, crit.calls[calls:], crit.raw[calls:], crit.raw[:start], history, n_xs,
        solution, sigma2, batch, opts, spec["functype"], exact=True,
    )
    require(np.array_equal(state.x, x0) and np.array_equal(candidate, solution.x), "modified")
    return Info(True, [name, spec["functype"], region.shape, *labels])


def judge(name, res, state, calls, raws, old_raws, history, n_xs, solution, variance, batch, opts,
          functype, exact):
    """Everything that follows from the documented rules of the decider."""
    candidate = solution.x
    values = [value(functype, r) for r in raws]
    labels = []

    def count(x):
        return [i for i, c in enumerate(calls) if np.array_equal(c, x)]

    new = history.get_n_xs() - n_xs
    value_now = state.fval
    line = name == "classic_line_search" and batch > 1
    require(
        np.array_equal(history.get_xs(n_xs), candidate), "the candidate was not recorded first"
    )
    if line:
        require(len(calls) == batch, "%s evaluations for a batch of %s", len(calls), batch)
        require(new == batch, "%s new points in the history", new)
        points = [history.get_xs(n_xs + i) for i in range(batch)]
        for p, c in zip(points, calls):
            require(np.array_equal(p, c), "evaluated %s instead of %s", c, p)
        labels.append(
            check_line_search(points[1:], state, candidate, batch,
                              opts["speculative_sampling_radius_factor"])
        )
        best_value = min(values)
        best = [i for i, v in enumerate(values) if v == best_value]
        pos = int(res.index) - n_xs
        if res.accepted:
            require(pos in best, "accepted value %r, best value %r", res.fval, best_value)
            if 0 in best:
                require(pos == 0, "another point with the same value replaced the candidate")
        else:
            pos = best[0]
        best_index, best_x, trial = n_xs + pos, points[pos], values[0]
        labels.append("best: candidate" if pos == 0 else "best: other point")
        require(res.n_evals_acceptance == 1, "n_evals_acceptance")
    else:
        require(new == 1, "%s new points in the history", new)
        if name == "noisy":
            at_old = [i for i, c in enumerate(calls) if np.array_equal(c, state.x)]
            at_new = count(candidate)
            if not np.array_equal(state.x, candidate):
                require(len(at_old) + len(at_new) == len(calls), "evaluated other points")
                tight = check_sizes(len(at_old), len(at_new), np.sqrt(variance), len(old_raws),
                                    solution.expected_improvement, opts)
                labels.append("power reached" if tight else "limited")
                labels.append("more at current" if at_old else "no more at current")
            else:
                at_old, at_new = at_old[:0], at_new
                return [*labels, "no step"]
            old_values = [value(functype, r) for r in old_raws] + [values[i] for i in at_old]
            value_now = float(np.mean(old_values))
            new_values = [values[i] for i in at_new]
        else:
            k = 10 if name == "naive_noisy" else 1
            require(len(calls) == k, "%s evaluations instead of %s", len(calls), k)
            require(len(count(candidate)) == k, "evaluated other points than the candidate")
            new_values = values
        require(res.n_evals_acceptance == len(new_values), "n_evals_acceptance")
        best_value = trial = float(np.mean(new_values))
        best_index, best_x = n_xs, candidate
    exact = exact and name in ("classic", "classic_line_search")
    ok = check_decision(res, state, value_now, best_value, best_index, best_x, trial,
                        solution.expected_improvement, opts["min_improvement"], name, exact)
    require(
        np.array_equal(history.get_xs(int(res.candidate_index)), res.candidate_x),
        "candidate index and point do not match",
    )
    if np.isfinite(best_value):
        require(int(res.candidate_index) == best_index, "candidate index %s", res.candidate_index)
        labels.append("accepted" if ok else "rejected")
        if best_value == value_now - opts["min_improvement"]:
            labels.append("tie")
    else:
        labels.append("failed")
    return labels


# --------------------------------------------------------------------------------------
# sample sizes
# --------------------------------------------------------------------------------------


def run_sizes(spec):
    opts = {**DEFAULTS, **spec["options"]}
    keys = ("power_level", "confidence_level", "n_min", "n_max")
    n1, n2 = get_acceptance_sample_sizes(
        sigma=spec["sigma"],
        existing_n1=spec["existing"],
        expected_improvement=spec["expected"],
        **{k: opts[k] for k in keys},
    )
    require(int(n1) == n1 and int(n2) == n2, "sizes %r and %r", n1, n2)
    tight = check_sizes(n1, n2, spec["sigma"], spec["existing"], spec["expected"], opts)
    label = "limit" if n2 in (opts["n_min"], opts["n_max"]) else "inside"
    return Info(n2 > opts["n_min"], [label, "more at current" if n1 else "enough at current",
                                     "power reached" if tight else "limited"])


# --------------------------------------------------------------------------------------
# decisions inside of optimizations
# --------------------------------------------------------------------------------------


def run_inside(spec):
    functype = spec["problem"]["functype"]
    name = spec["decider"]
    opts = {**DEFAULTS, **spec["options"].get("acceptance_decider_options", {})}
    built_in = get_acceptance_decider(name, spec["options"].get("acceptance_decider_options"))
    log, box = [], {}

    def decide(subproblem_solution, state, wrapped_criterion, noise_variance, history,
               search_radius_factor, batch_size, sample_points, rng):
        crit = box["crit"]
        k, n_xs = len(crit.calls), history.get_n_xs()
        old = [crit.raw[int(i)] for i in history.index_mapper[int(state.index)]]
        res = built_in(
            subproblem_solution=subproblem_solution, state=state,
            wrapped_criterion=wrapped_criterion, noise_variance=noise_variance, history=history,
            search_radius_factor=search_radius_factor, batch_size=batch_size,
            sample_points=sample_points, rng=rng,
        )
        log.append(
            judge(name, res, state, crit.calls[k:], crit.raw[k:], old, history, n_xs,
                  subproblem_solution, noise_variance, batch_size, opts, functype, exact=False)
        )
        return res

    def catch(crit):
        box["crit"] = crit
        return crit

    e2e.run(spec, wrap_criterion=catch, acceptance_decider=decide)
    labels = sorted({"inside: " + x for entry in log for x in entry})
    return Info(len(log) > 1, [name, functype, *labels])


# --------------------------------------------------------------------------------------
# generators
# --------------------------------------------------------------------------------------

LEVELS = [0.6, 0.8, 0.9, 0.95, 0.99]


@st.composite
def decider_options(draw):
    out = {}
    if draw(st.booleans()):
        out["min_improvement"] = draw(st.sampled_from([0.0, 0.25, 0.5, 1.0, 2.5]))
    if draw(st.sampled_from([True, False, False])):
        out["speculative_sampling_radius_factor"] = draw(st.sampled_from([0.5, 1.0, 0.1]))
    for k in ("power_level", "confidence_level"):
        if draw(st.sampled_from([True, False, False])):
            out[k] = draw(st.sampled_from(LEVELS))
    if draw(st.sampled_from([True, False, False])):
        out["n_min"] = draw(st.sampled_from([1, 2, 6]))
    if draw(st.sampled_from([True, False, False])):
        out["n_max"] = draw(st.sampled_from([6, 10, 200]))
    return out


@st.composite
def deciders(draw, tier):
    n = draw(st.sampled_from([1, 2, 3, 5]))
    name = draw(
        st.sampled_from(["classic", "naive_noisy"] + ["noisy"] * 2 + ["classic_line_search"] * 4)
    )
    what = st.one_of(
        st.integers(-6, 12), st.integers(-6, 12), st.integers(-6, 12),
        st.integers(-2, 2),
        st.sampled_from(["inf", "nan", "raise"]) if draw(st.booleans()) else st.integers(0, 3),
    )
    return {
        "region": draw(gen.region_specs(n)),
        "functype": draw(st.sampled_from(["scalar", "least_squares"])),
        "decider": name,
        "options": draw(decider_options()),
        "script": draw(st.lists(what, min_size=2, max_size=14)),
        "n_start": draw(st.sampled_from([1, 1, 2, 5, 20])) if name == "noisy" else 1,
        "expected": draw(st.sampled_from([0.0, 1e-12, 1e-3, 0.1, 0.5, 1.0, 1.0, 4.0, 1e3])),
        "variance": draw(st.sampled_from([0.0, 1e-8, 0.01, 0.1, 0.5, 1.0, 10.0])),
        "batch": draw(st.sampled_from([1, 2, 2, 3, 4, 4, 5, 6, 9])),
        "n_cores": draw(st.sampled_from([1, 2])),
        "where": draw(st.sampled_from([1.0, 1.0, None, 0.95, 0.92, 0.88, 0.7, 0.3, 1e-3])),
        "seed": draw(st.integers(0, 10**9)),
    }


@st.composite
def sizes(draw, tier):
    opts = draw(decider_options())
    return {
        "options": opts,
        "sigma": 10.0 ** draw(st.floats(-6, 4)) if draw(st.integers(0, 9)) else 0.0,
        "expected": draw(st.one_of(
            st.floats(-1, 10), st.floats(-12, 4).map(lambda e: 10.0**e), st.just(0.0))),
        "existing": draw(st.sampled_from([1, 2, 3, 5, 8, 20, 50, 120])),
    }


@st.composite
def matched_sizes(draw, tier):
    """Noise and effect chosen so that the sizes lie between the limits."""
    out = draw(sizes(tier))
    if out["sigma"] and draw(st.sampled_from([True, True, False])):
        opts = {**DEFAULTS, **out["options"]}
        z = ndtri(opts["power_level"]) + ndtri(opts["confidence_level"])
        share = draw(st.floats(0.3, 60))
        out["expected"] = float(z * out["sigma"] * np.sqrt(2 / share))
    return out


@st.composite
def inside(draw, tier):
    noisy = draw(st.sampled_from([False, False, True]))
    p = draw(e2e.problems(functypes=("scalar", "least_squares"), dims=(1, 3)))
    batch = 1 if noisy else draw(st.sampled_from([1, 2, 3, 4, 6]))
    name = "noisy" if noisy else draw(st.sampled_from(["classic_line_search"] * 2 + ["classic"]))
    if noisy and draw(st.integers(0, 3)) == 0:
        name = "naive_noisy"
    options = {
        "stopping_max_iterations": 20 if tier == "thorough" else 8,
        "stopping_max_criterion_evaluations": 400,
        "disable_convergence": True,
        "seed": draw(st.integers(0, 10**6)),
        "batch_size": batch,
        "sampler": "random_hull",
    }
    opts = draw(decider_options())
    if name in ("noisy", "naive_noisy"):
        p["noise"] = draw(st.sampled_from([1e-3, 0.1, 1.0]))
        options["noise_adaptation_options"] = {"rho_noise_n_draws": 2, "max_n_evals": 3}
    if opts:
        options["acceptance_decider_options"] = opts
    return {
        "problem": p,
        "options": options,
        "noisy": noisy,
        "decider": name,
        "evaluator": {"kind": "own"},
    }


SUBS = [
    Sub("decider", deciders, run_decider, quick=8000, thorough=250000, rule="every case"),
    Sub("sizes", matched_sizes, run_sizes, quick=8000, thorough=300000,
        rule="more than the minimum number of evaluations"),
    Sub("inside", inside, run_inside, quick=320, thorough=8000,
        rule="at least two decisions were made"),
]
