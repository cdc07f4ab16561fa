"""C04: runs are reproducible and isolated."""
import copy
import random

import numpy as np
from hypothesis import strategies as st

from pbt import e2e
from pbt.core import Info, Sub, require

PROPERTY = "C04"


def warmup():
    e2e.compile_all()


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=True))


def compare(a, b, what):
    require(
        len(a.crit.calls) == len(b.crit.calls),
        "%s: %d evaluations in one run and %d in the other",
        what,
        len(a.crit.calls),
        len(b.crit.calls),
    )
    for k, (x, y) in enumerate(zip(a.crit.calls, b.crit.calls)):
        require(same(x, y), "%s: evaluation %d differs", what, k)
    for key in ("solution_x", "solution_criterion", "message"):
        x, y = a.res[key], b.res[key]
        ok = x == y if key == "message" else same(x, y)
        require(ok, "%s: %s differs (%s and %s)", what, key, x, y)
    require(len(a.states) == len(b.states), "%s: number of iterations differs", what)
    for i, (s, t) in enumerate(zip(a.states, b.states)):
        ok = (
            same(s.x, t.x)
            and same(s.fval, t.fval)
            and same(s.rho, t.rho)
            and same(s.trustregion.radius, t.trustregion.radius)
            and same(s.model_indices, t.model_indices)
            and same(s.model.linear_terms, t.model.linear_terms)
        )
        require(ok, "%s: iteration %d differs", what, i)


def freeze(value):
    """A comparable copy of nested options."""
    if isinstance(value, dict):
        return {k: freeze(v) for k, v in value.items()}
    if isinstance(value, np.ndarray):
        return ("array", value.tolist())
    if isinstance(value, tuple) and hasattr(value, "_asdict"):
        return (type(value).__name__, freeze(value._asdict()))
    if isinstance(value, (list, tuple)):
        return [freeze(v) for v in value]
    return copy.deepcopy(value)


def global_state():
    name, keys, pos, has_gauss, cached = np.random.get_state()
    return (name, keys.tolist(), pos, has_gauss, cached, random.getstate())


BUNDLES = {
    "radius_options": "RadiusOptions",
    "stagnation_options": "StagnationOptions",
    "noise_adaptation_options": "NoiseAdaptationOptions",
    "sampler_options": "SamplerOptions",
    "subsolver_options": "SubsolverOptions",
    "acceptance_decider_options": "AcceptanceOptions",
    "model_fitter_options": "FitterOptions",
    "sample_filter_options": "FilterOptions",
    "variance_estimator_options": "VarianceEstimatorOptions",
}


def caller_objects(spec, readonly):
    p = spec["problem"]
    kw = e2e.kwargs_of(spec)
    if spec.get("as_bundle"):
        import tranquilo.options as opt

        for name, cls in BUNDLES.items():
            cls = getattr(opt, cls)
            required = [f for f in cls._fields if f not in cls._field_defaults]
            if name in kw and all(f in kw[name] for f in required):
                kw[name] = cls(**kw[name])
    x0 = e2e.arr(p["x0"])
    lo, up = e2e.arr(p.get("lower")), e2e.arr(p.get("upper"))
    if readonly:
        for a in (x0, lo, up):
            if a is not None:
                a.setflags(write=False)
    return kw, x0, lo, up


def run_with(spec, kw, x0, lo, up):
    """Like e2e.run, with objects of the caller that are used several times."""
    kw = dict(kw)
    out = e2e.Outcome()
    crit = e2e.Criterion(spec)
    ev = None
    if spec.get("evaluator"):
        ev = e2e.BatchEvaluator(spec["evaluator"].get("order", "forward"), 3)
        ev.criterion = crit
        kw["batch_evaluator"] = ev
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out.res = e2e._tranquilo(
            spec["problem"]["functype"], crit, x0, lower_bounds=lo, upper_bounds=up, **kw
        )
    out.crit, out.states = crit, out.res["states"]
    out.history = out.res["tranquilo_history"]
    return out


def run_twice(spec):
    before = spec["before"]
    np.random.seed(before["seeds"][0])
    random.seed(before["seeds"][0])
    kw, x0, lo, up = caller_objects(spec, spec["readonly"])
    frozen = freeze([kw, x0, lo, up])
    state = global_state()
    first = run_with(spec, kw, x0, lo, up)
    require(global_state() == state, "a run changed the global random state")
    require(freeze([kw, x0, lo, up]) == frozen, "a run modified objects of the caller")
    calls = [c.copy() for c in first.crit.calls]
    summary = (
        np.array(first.res["solution_x"]),
        [np.array(s.x) for s in first.states],
        np.array(first.history.get_xs()),
    )
    # something else happens in between
    np.random.seed(before["seeds"][1])
    random.seed(before["seeds"][1])
    np.random.normal(size=3)
    for other in before["runs"]:
        e2e.run(other)
    if before["same_objects"]:
        # the same option objects are used for another problem
        other = copy.deepcopy(spec)
        other["problem"]["seed"] += 1
        run_with(other, kw, x0, lo, up)
    else:
        kw, x0, lo, up = caller_objects(spec, spec["readonly"])
    state = global_state()
    second = run_with(spec, kw, x0, lo, up)
    require(global_state() == state, "a run changed the global random state")
    require(freeze([kw, x0, lo, up]) == frozen, "a run modified objects of the caller")
    compare(first, second, "repeated run")
    for k, (a, b) in enumerate(zip(calls, first.crit.calls)):
        require(same(a, b), "a later run changed the record of evaluation %d", k)
    now = (
        np.array(first.res["solution_x"]),
        [np.array(s.x) for s in first.states],
        np.array(first.history.get_xs()),
    )
    require(
        same(summary[0], now[0])
        and all(same(a, b) for a, b in zip(summary[1], now[1]))
        and same(summary[2], now[2]),
        "a later run changed the result of an earlier one",
    )
    nontrivial = len(first.states) > 2
    return Info(nontrivial, e2e.classes(spec, first) + [f"runs between:{len(before['runs'])}"])


def extras(draw, spec):
    """Options that the general generator leaves out."""
    o = spec["options"]
    if o.get("sampler") == "optimal_hull" and draw(st.booleans()):
        opts = o.setdefault("sampler_options", {})
        opts["algorithm"] = draw(st.sampled_from(["L-BFGS-B", "SLSQP", "Nelder-Mead"]))
        opts["algo_options"] = {"maxiter": draw(st.integers(1, 3))}
    if spec["problem"].get("lower") is not None and draw(st.integers(0, 2)) == 0:
        o["cube_subsolver"] = draw(
            st.sampled_from(["fallback_multistart", "fallback_cube", "bntr_fast"])
        )
    if draw(st.integers(0, 3)) == 0:
        o["model_fitter_options"] = {"l2_penalty_square": draw(e2e.nice(0.01, 2.0))}
    if draw(st.integers(0, 3)) == 0:
        o.setdefault("subsolver_options", {})["maxiter"] = draw(st.integers(3, 20))


@st.composite
def twice(draw, tier, noisy=(False, False, True), faults=False):
    big = {"max_iter": (3, 25), "dims": (1, 5)} if tier == "thorough" else {}
    spec = draw(e2e.specs(noisy=noisy, faults=faults, **big))
    extras(draw, spec)
    spec["readonly"] = draw(st.booleans())
    spec["as_bundle"] = draw(st.booleans())
    others = draw(st.lists(e2e.specs(max_iter=(1, 4), dims=(1, 3)), max_size=2))
    spec["before"] = {
        "seeds": [draw(st.integers(0, 2**32 - 1)), draw(st.integers(0, 2**32 - 1))],
        "runs": others,
        "same_objects": draw(st.booleans()),
    }
    return spec


# --------------------------------------------------------------------------------------
# interleaving: another optimization runs inside a call of the criterion
# --------------------------------------------------------------------------------------


def run_nested(spec):
    base = e2e.run(spec)
    inner = spec["inner"]
    count = [0]

    def wrap(func):
        def wrapped(x):
            count[0] += 1
            if count[0] in spec["at"]:
                e2e.run(inner)
            return func(x)

        return wrapped

    out = e2e.run(spec, wrap_criterion=wrap)
    compare(base, out, "run with another run inside")
    hit = any(k <= count[0] for k in spec["at"])
    return Info(hit and len(base.states) > 2, e2e.classes(spec, base))


@st.composite
def nested(draw):
    spec = draw(e2e.specs(noisy=(False, False, True)))
    spec["inner"] = draw(e2e.specs(max_iter=(1, 5), dims=(1, 3)))
    spec["at"] = draw(st.lists(st.integers(1, 30), min_size=1, max_size=3, unique=True))
    return spec


# --------------------------------------------------------------------------------------
# criterion functions that use the vector that they are given as a work space
# --------------------------------------------------------------------------------------


def run_scribble(spec):
    base = e2e.run(spec)
    values = {"nan": np.nan, "zero": 0.0, "huge": 1e30}

    def wrap(func):
        def wrapped(x):
            value = copy.deepcopy(func(x))
            if x.flags.writeable:
                if spec["scribble"] == "shift":
                    x -= x.mean() - 1
                else:
                    x[:] = values[spec["scribble"]]
            return value

        return wrapped

    out = e2e.run(spec, wrap_criterion=wrap)
    compare(base, out, "run with a criterion that overwrites its argument")
    require(
        same(base.history.get_xs(), out.history.get_xs()),
        "a criterion that overwrites its argument changes the history",
    )
    return Info(len(base.states) > 2, e2e.classes(spec, base))


@st.composite
def scribble(draw):
    spec = draw(e2e.specs(noisy=(False, False, True)))
    spec["scribble"] = draw(st.sampled_from(["nan", "zero", "huge", "shift"]))
    return spec


# --------------------------------------------------------------------------------------
# seeds
# --------------------------------------------------------------------------------------


def run_seeds(spec):
    """The seed really seeds: explicit default = no seed; other seeds sample elsewhere."""
    o = spec["options"]
    o.pop("seed", None)
    base = e2e.run(spec)
    explicit = copy.deepcopy(spec)
    explicit["options"]["seed"] = 925408
    compare(base, e2e.run(explicit), "default seed given explicitly")
    other = copy.deepcopy(spec)
    other["options"]["seed"] = spec["other_seed"]
    a = e2e.run(other)
    compare(a, e2e.run(other), "other seed")
    require(same(a.crit.calls[0], base.crit.calls[0]), "the seed changes the start point")
    n = spec["problem"]["dim"]
    random_points = n >= 2 and o["sampler"] != "optimal_hull"
    if random_points and len(base.crit.calls) > 1:
        require(
            not all(same(x, y) for x, y in zip(a.crit.calls, base.crit.calls)),
            "the seed has no influence",
        )
    return Info(random_points, e2e.classes(spec, base))


@st.composite
def seeds(draw):
    spec = draw(
        e2e.specs(bounds=("none",), dims=(1, 4), max_iter=(2, 6), noisy=(False, True))
    )
    spec["other_seed"] = draw(st.integers(0, 900_000))
    return spec


RULE = (
    "one optimization is executed twice with other runs, other global random states and "
    "shared option objects in between; non-trivial if it made at least two iterations"
)
SUBS = [
    Sub("twice", twice, run_twice, 1000, 30_000, RULE),
    Sub(
        "twice_faults",
        lambda tier: twice(tier, faults=True),
        run_twice,
        200,
        6_000,
        RULE + " (failing evaluations)",
    ),
    Sub(
        "nested",
        lambda tier: nested(),
        run_nested,
        300,
        10_000,
        "the optimization once alone and once with other optimizations executed inside "
        "calls of its criterion; non-trivial if one was executed",
    ),
    Sub(
        "scribble",
        lambda tier: scribble(),
        run_scribble,
        200,
        8_000,
        "the optimization with a criterion that leaves its argument alone and with one "
        "that overwrites it; non-trivial if it made at least two iterations",
    ),
    Sub(
        "seeds",
        lambda tier: seeds(),
        run_seeds,
        150,
        4_000,
        "default, explicit default and other seeds; non-trivial if the samples are random",
    ),
]
