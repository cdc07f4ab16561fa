"""C08: every option reaches its component unchanged, defaults fill the rest."""
import functools
import warnings

import numpy as np
from hypothesis import strategies as st

from tranquilo.get_component import get_component
from tranquilo.options import (
    AcceptanceOptions,
    FilterOptions,
    FitterOptions,
    NoiseAdaptationOptions,
    RadiusOptions,
    SamplerOptions,
    StagnationOptions,
    SubsolverOptions,
    VarianceEstimatorOptions,
    update_option_bundle,
)
from tranquilo.process_arguments import process_arguments
from tranquilo.models import ScalarModel
from tranquilo.tranquilo import _tranquilo

from pbt.core import Info, Sub, Violation, require

PROPERTY = "C08"

INF = float("inf")

# The documented options of every component with their defaults.
DEFAULTS = {
    "sampler": {
        "distribution": None,
        "hardness": 1.0,
        "algorithm": "L-BFGS-B",
        "algo_options": None,
        "criterion": None,
        "n_points_randomsearch": 1,
        "return_info": False,
    },
    "filter": {"strictness": 1e-10, "shape": "sphere", "n_max_factor": 3},
    "fitter": {
        "l2_penalty_linear": 0.0,
        "l2_penalty_square": 0.1,
        "p_intercept": 0.05,
        "p_linear": 0.4,
        "p_square": 1.0,
    },
    "subsolver": {
        "maxiter": 20,
        "maxiter_gradient_descent": 5,
        "conjugate_gradient_method": "cg",
        "gtol_abs": 1e-8,
        "gtol_rel": 1e-8,
        "gtol_scaled": 0.0,
        "gtol_abs_conjugate_gradient": 1e-8,
        "gtol_rel_conjugate_gradient": 1e-6,
        "k_easy": 0.1,
        "k_hard": 0.2,
    },
    "decider": {
        "confidence_level": 0.95,
        "power_level": 0.95,
        "n_initial": 5,
        "n_min": 4,
        "n_max": 50,
        "min_improvement": 0.0,
        "speculative_sampling_radius_factor": 0.75,
    },
    "variance": {"max_distance_factor": 3.0, "min_n_evals": 3},
}
BUNDLES = {
    "sampler": SamplerOptions,
    "filter": FilterOptions,
    "fitter": FitterOptions,
    "subsolver": SubsolverOptions,
    "decider": AcceptanceOptions,
    "variance": VarianceEstimatorOptions,
}
NOISE = {
    "rho_noise_n_draws": 100,
    "high_rho": 0.6,
    "low_rho": 0.1,
    "ignore_corelation": True,
    "min_share_high_rho": 0.7,
    "min_share_low_rho": 0.9,
    "min_n_evals": 1,
    "max_n_evals": 30,
    "good_rho_threshold": 0.1,
}
RADIUS = {
    "min_radius": 1e-6,
    "max_radius": 1e6,
    "rho_decrease": 0.1,
    "rho_increase": 0.1,
    "shrinking_factor": 0.5,
    "expansion_factor": 2.0,
    "large_step": 0.5,
    "max_radius_to_step_ratio": INF,
}
STAGNATION = {"min_relative_step": 0.05, "sample_increment": 1, "max_trials": 1}

# Components: keyword in the interface, option keyword, arguments passed at run time.
COMPONENTS = {
    "sampler": (
        "sampler",
        "sampler_options",
        ["trustregion", "n_points", "existing_xs", "rng"],
        ["trustregion", "n_points", "existing_xs", "rng"],
    ),
    "filter": (
        "sample_filter",
        "sample_filter_options",
        ["xs", "indices", "state", "target_size", "history", "n_evals_per_point"],
        [],
    ),
    "fitter": (
        "model_fitter",
        "model_fitter_options",
        ["x", "y", "model_type", "weights"],
        ["x", "y", "model_type"],
    ),
    "cube": (
        "cube_subsolver",
        "subsolver_options",
        ["model", "x_candidate", "lower_bounds", "upper_bounds"],
        ["model", "x_candidate", "lower_bounds", "upper_bounds"],
    ),
    "sphere": (
        "sphere_subsolver",
        "subsolver_options",
        ["model", "x_candidate"],
        ["model", "x_candidate"],
    ),
    "decider": (
        "acceptance_decider",
        "acceptance_decider_options",
        [
            "subproblem_solution",
            "state",
            "wrapped_criterion",
            "noise_variance",
            "history",
            "search_radius_factor",
            "batch_size",
            "sample_points",
            "rng",
        ],
        [],
    ),
    "variance": (
        "variance_estimator",
        "variance_estimator_options",
        ["trustregion", "history", "model_type"],
        [],
    ),
}


def bundle_of(comp):
    return "subsolver" if comp in ("cube", "sphere") else comp


def same(a, b):
    """Equal values of compatible type."""
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    if isinstance(a, dict):
        return a == b
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
        return bool(a) == bool(b)
    return float(a) == float(b)


def cast(value, how):
    """The generated value in another representation with the same meaning."""
    if isinstance(value, bool) or value is None or isinstance(value, (str, dict)):
        return np.bool_(value) if isinstance(value, bool) and how == "numpy" else value
    if how == "numpy":
        return np.float64(value) if isinstance(value, float) else np.int64(value)
    if how == "other" and isinstance(value, int):
        return float(value)
    if how == "other" and float(value).is_integer():
        return int(value)
    return value


def of_type(value, default):
    """The value has the declared type of the option (or was of it already)."""
    if default is None or isinstance(default, (str, dict)):
        return True
    if isinstance(default, bool):
        return isinstance(value, (bool, np.bool_, int))
    if isinstance(default, int):
        return isinstance(value, (int, np.integer))
    return isinstance(value, (float, np.floating))


def as_input(options, form, bundle=None, base=None):
    """Options in the form in which a user gives them."""
    if form == "none" or (form == "dict" and options is None):
        return None
    if form == "bundle":
        return bundle(**{**(base or {}), **options})
    return dict(options)


def make_spy(name, params, log, answer):
    """A function with exactly the given parameters that records what it receives."""
    scope = {"log": log, "answer": answer}
    items = ", ".join(f"{p!r}: {p}" for p in params)
    exec(  # noqa: S102
        f"def {name}({', '.join(params)}):\n"
        f"    received = {{{items}}}\n"
        "    log.append(received)\n"
        "    return answer(received)\n",
        scope,
    )
    return scope[name]


# --------------------------------------------------------------------------------------
# option bundles
# --------------------------------------------------------------------------------------


def run_bundle(spec):
    comp = spec["bundle"]
    defaults = DEFAULTS[comp]
    cls = BUNDLES[comp]
    given = {k: cast(v, spec["cast"]) for k, v in spec["options"].items()}
    for k, v in defaults.items():
        require(same(getattr(cls(), k), v), "%s: default of %s is %r", comp, k, getattr(cls(), k))
    require(set(cls._fields) == set(defaults), "%s: options are %s", comp, cls._fields)
    base = cls(**spec["base"])
    args = dict(given)
    if spec["unknown"]:
        args[spec["unknown"]] = 1
    if spec["unknown"] and spec["form"] == "bundle":
        spec = {**spec, "form": "dict"}
    user = as_input(args, spec["form"], cls, base._asdict())
    try:
        out = update_option_bundle(base, user)
    except (ValueError, TypeError) as e:
        require(spec["unknown"] and spec["form"] != "none", "valid options rejected: %r", e)
        return Info(True, ["rejected", comp])
    require(not (spec["unknown"] and spec["form"] != "none"), "unknown option was accepted")
    require(type(out) is cls, "result is %s", type(out))
    expected = base._asdict()
    if spec["form"] != "none":
        expected.update(given)
    for k, v in expected.items():
        require(same(getattr(out, k), v), "%s.%s is %r, not %r", comp, k, getattr(out, k), v)
        if k in given and spec["form"] != "none":
            require(of_type(getattr(out, k), getattr(base, k)), "%s.%s has type %s", comp, k,
                    type(getattr(out, k)))
    require(args == {**given, **({spec["unknown"]: 1} if spec["unknown"] else {})}, "modified")
    return Info(bool(given), [spec["form"], comp])


# --------------------------------------------------------------------------------------
# generic component wrapper
# --------------------------------------------------------------------------------------


def run_component(spec):
    comp = spec["bundle"]
    cls = BUNDLES[comp]
    options = list(DEFAULTS[comp])
    log = []
    params = [p for p in spec["params"]] + [options[i % len(options)] for i in spec["opts"]]
    params = list(dict.fromkeys(params))
    order = sorted(range(len(params)), key=lambda i: (spec["order"] * (i + 7)) % 101)
    params = [params[i] for i in order]
    marker = object()
    func = make_spy("my_component", params, log, lambda r: marker)
    given = {k: cast(v, spec["cast"]) for k, v in spec["options"].items()}
    user = as_input(given, spec["form"], cls)
    builtin = {"first": make_spy("other", ["a"], [], lambda r: None), "mine": func}
    how = spec["how"]
    target = {
        "callable": func,
        "partial": functools.partial(func),
        "name": "mine",
        "typo": "mime",
        "object": 3,
    }[how]
    expected = {**DEFAULTS[comp], **(given if spec["form"] != "none" else {})}
    redundant = [k for k in expected if k not in params]
    missing = [m for m in spec["mandatory"] if m not in params]
    fails = (
        how in ("typo", "object") or bool(missing) or (spec["options_mode"] == "raise" and redundant)
    )
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        try:
            wrapped = get_component(
                name_or_func=target,
                component_name="thing",
                func_dict=builtin if spec["dict"] or how == "name" else None,
                default_options=cls(),
                user_options=user,
                redundant_option_handling=spec["options_mode"],
                redundant_argument_handling=spec["arguments_mode"],
                mandatory_signature=spec["mandatory"] or None,
            )
        except (ValueError, TypeError) as e:
            require(fails, "a valid component was rejected: %r", e)
            return Info(True, ["rejected: " + how])
        require(not fails, "an invalid component was accepted (%s, missing %s)", how, missing)
        warned = len(caught) > 0
    require(
        warned == (spec["options_mode"] == "warn" and bool(redundant)), "warned: %s", warned
    )
    names = [p for p in params if p not in expected]
    values = {p: object() for p in names}
    extra = {e: object() for e in spec["extra"] if e not in params}
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        try:
            out = wrapped(**values, **extra)
        except TypeError:
            require(spec["arguments_mode"] == "raise" and extra, "the call failed")
            return Info(True, ["call rejected"])
        require(not (spec["arguments_mode"] == "raise" and extra), "redundant arguments passed")
        warned = len(caught) > 0
    require(warned == (spec["arguments_mode"] == "warn" and bool(extra)), "warned: %s", warned)
    require(out is marker and len(log) == 1, "result or number of calls")
    got = log[0]
    require(set(got) == set(params), "received %s", sorted(got))
    for p in params:
        if p in expected:
            require(same(got[p], expected[p]), "option %s is %r, not %r", p, got[p], expected[p])
        else:
            require(got[p] is values[p], "argument %s was replaced", p)
    return Info(bool(given) or bool(extra), [how, spec["form"], "extra" if extra else "no extra"])


# --------------------------------------------------------------------------------------
# argument processing with user-supplied components
# --------------------------------------------------------------------------------------


class Counter:
    def __init__(self, functype):
        self.n = 0
        self.functype = functype

    def __call__(self, x):
        self.n += 1
        r = np.asarray(x, dtype=float) - 0.3
        return float(r @ r) if self.functype == "scalar" else r


def base_arguments(spec, crit):
    n = len(spec["x"])
    kw = {"functype": spec["functype"], "criterion": crit, "x": np.array(spec["x"])}
    if spec["bounds"]:
        kw["lower_bounds"] = np.array(spec["x"]) - spec["bounds"]
        kw["upper_bounds"] = np.array(spec["x"]) + spec["bounds"]
    kw.update(spec["plain"])
    return kw, n


CONV = {
    "disable_convergence": ("disable", False),
    "convergence_absolute_criterion_tolerance": ("ftol_abs", 0.0),
    "convergence_absolute_gradient_tolerance": ("gtol_abs", 0.0),
    "convergence_absolute_params_tolerance": ("xtol_abs", 0.0),
    "convergence_relative_criterion_tolerance": ("ftol_rel", 2e-9),
    "convergence_relative_gradient_tolerance": ("gtol_rel", 1e-8),
    "convergence_relative_params_tolerance": ("xtol_rel", 1e-8),
    "convergence_min_trust_region_radius": ("min_radius", 0.0),
}
STOP = {
    "stopping_max_criterion_evaluations": ("max_eval", 2000),
    "stopping_max_iterations": ("max_iter", 200),
    "stopping_max_time": ("max_time", INF),
}


def expect_bundle(out, expected, what):
    require(set(out._fields) == set(expected), "%s: fields %s", what, out._fields)
    for k, v in expected.items():
        require(same(getattr(out, k), v), "%s.%s is %r, not %r", what, k, getattr(out, k), v)


def run_arguments(spec):
    crit = Counter(spec["functype"])
    kw, n = base_arguments(spec, crit)
    plain = spec["plain"]
    logs, sigs = {}, {}
    for comp, which in spec["components"].items():
        key, optkey, runtime, mandatory = COMPONENTS[comp]
        opts = list(DEFAULTS[bundle_of(comp)])
        params = mandatory + [p for i, p in enumerate(runtime) if (which >> i) & 1]
        params += [p for i, p in enumerate(opts) if (which >> (i + 9)) & 1]
        params = list(dict.fromkeys(params))
        logs[comp], sigs[comp] = [], params
        answers = {
            "fitter": lambda r: np.zeros((np.shape(r["y"])[1], 400)),
            "cube": lambda r: {"x": np.zeros(n), "n_iterations": 0, "success": True},
            "sphere": lambda r: {"x": np.zeros(n), "n_iterations": 0, "success": True},
        }
        kw[key] = make_spy("user_" + comp, params, logs[comp], answers.get(comp, lambda r: 5))
    groups = {}
    for name, (form, options) in spec["options"].items():
        groups[name] = options if form != "none" else {}
        key = {"radius": "radius_options", "stagnation": "stagnation_options",
               "noise": "noise_adaptation_options"}.get(name) or next(
            c[1] for k, c in COMPONENTS.items() if bundle_of(k) == name
        )
        kw[key] = as_input({k: cast(v, spec["cast"]) for k, v in options.items()}, form,
                           BUNDLES.get(name), {})
    if spec["seed"] is not None:
        kw["seed"] = spec["seed"]
    out = process_arguments(**kw)
    require(crit.n == 0, "the criterion was evaluated while processing arguments")

    # simple options
    x = np.array(spec["x"], dtype=float)
    noisy = bool(plain.get("noisy", False))
    n_cores = plain.get("n_cores", 1)
    batch = plain.get("batch_size", n_cores)
    functype = spec["functype"]
    quad = functype == "scalar"
    require(out["x"].dtype == np.float64 and np.array_equal(out["x"], x), "x is %r", out["x"])
    require(out["noisy"] is noisy, "noisy is %r", out["noisy"])
    require(out["batch_size"] == batch, "batch_size is %r", out["batch_size"])
    expect_bundle(
        out["conv_options"], {f: plain.get(k, d) for k, (f, d) in CONV.items()}, "conv_options"
    )
    expect_bundle(
        out["stop_options"], {f: plain.get(k, d) for k, (f, d) in STOP.items()}, "stop_options"
    )
    biggest = np.abs(x).max()
    radius = {"initial_radius": 0.1 * biggest if biggest > 0 else 0.1, **RADIUS,
              **groups.get("radius", {})}
    expect_bundle(out["radius_options"], radius, "radius_options")
    keep = 0.125 if not noisy and batch == 1 else 0.0
    stag = {"min_relative_step_keep": keep, "drop": not noisy, **STAGNATION,
            **groups.get("stagnation", {})}
    expect_bundle(out["stagnation_options"], stag, "stagnation_options")
    noise = {**NOISE, **groups.get("noise", {})}
    expect_bundle(out["noise_adaptation_options"], noise, "noise_adaptation_options")
    require(
        out["search_radius_factor"] == plain.get("search_radius_factor", 4.25 if quad else 5.0),
        "search_radius_factor is %r",
        out["search_radius_factor"],
    )
    size = 2 * n + 1 if quad else n + 1 if noisy or batch > 1 else n + 2
    require(
        out["target_sample_size"] == plain.get("sample_size", size),
        "target_sample_size is %r",
        out["target_sample_size"],
    )
    require(
        out["n_evals_at_start"] == plain.get("n_evals_at_start", 5 if noisy else 1),
        "n_evals_at_start is %r",
        out["n_evals_at_start"],
    )
    default = noise["min_n_evals"] if noisy else 1
    require(
        out["n_evals_per_point"] == plain.get("n_evals_per_point", default),
        "n_evals_per_point is %r",
        out["n_evals_per_point"],
    )
    seed = 925408 if spec["seed"] is None else spec["seed"]
    require(
        out["sampling_rng"].integers(1 << 40) == np.random.default_rng(seed).integers(1 << 40),
        "sampling does not start from the seed",
    )
    r = out["trustregion"]
    require(np.array_equal(r.center, x) and r.radius == radius["initial_radius"], "first region")
    for name in ("lower", "upper"):
        value, given = getattr(r.bounds, name), kw.get(name + "_bounds")
        require(
            (given is None and value is None)
            or (given is not None and np.array_equal(value, given)),
            "%s bounds are %r",
            name,
            value,
        )

    # components
    for comp, params in sigs.items():
        runtime = COMPONENTS[comp][2]
        values = {p: object() for p in runtime}
        expected = {**DEFAULTS[bundle_of(comp)], **groups.get(bundle_of(comp), {})}
        call_component(comp, out, values, x, functype, quad, r, n)
        require(len(logs[comp]) == 1, "%s was called %s times", comp, len(logs[comp]))
        got = logs[comp][0]
        require(set(got) == set(params), "%s received %s", comp, sorted(got))
        for p in params:
            if p in expected:
                require(
                    same(got[p], expected[p]),
                    "%s received %s=%r instead of %r",
                    comp,
                    p,
                    got[p],
                    expected[p],
                )
            elif p in values and values[p] is not None:
                v = values[p]
                require(
                    got[p] is v or (isinstance(v, np.ndarray) and np.array_equal(got[p], v)),
                    "%s received a different %s",
                    comp,
                    p,
                )
    labels = ["component: " + c for c in sigs] + ["options: " + g for g in groups]
    labels += [functype, "noisy" if noisy else "deterministic", f"batch: {batch}"]
    return Info(bool(groups) and bool(sigs), labels)


def call_component(comp, out, values, x, functype, quad, region, n):
    """Calls the processed component as the optimizer does; updates the expected values."""
    if comp == "sampler":
        res = out["sample_points"](**values)
        require(res == 5, "the sampler's result was changed")
    elif comp == "filter":
        require(out["filter_points"](**values) == 5, "the filter's result was changed")
    elif comp == "decider":
        require(out["accept_candidate"](**values) == 5, "the decider's result was changed")
    elif comp == "variance":
        require(out["estimate_variance"](**values) == 5, "the estimator's result was changed")
    elif comp == "fitter":
        xs = x + region.radius * 0.1 * np.arange(3 * n).reshape(3, n) / n
        y = np.arange(6.0).reshape(3, 2) ** 2
        from tranquilo.models import VectorModel

        old = VectorModel(np.zeros(2), np.zeros((2, n)), np.zeros((2, n, n)),
                          shift=region.effective_center, scale=region.effective_radius)
        k = 1 + n + (n * (n + 1) // 2 if quad else 0)
        inner = out["fit_model"]
        weights = np.arange(3.0)
        try:
            inner(xs, y, region=region, old_model=old, weights=weights)
        except Exception:  # the stub returns a model of the wrong size
            pass
        del k
        values.update(
            x=(xs - region.effective_center) / region.effective_radius,
            y=y,
            model_type="quadratic" if quad else "linear",
            weights=weights,
        )
        # the unit map rounds differently; only its name is checked here
        values["x"] = None
    else:
        center = x.copy()
        from tranquilo.bounds import Bounds
        from tranquilo.region import Region

        bounds = Bounds(center - 0.5, center + 0.5) if comp == "cube" else Bounds(None, None)
        reg = Region(center=center, radius=1.0, bounds=bounds)
        model = ScalarModel(0.0, np.ones(n), np.eye(n), shift=reg.effective_center,
                            scale=reg.effective_radius)
        out["solve_subproblem"](model=model, trustregion=reg)
        values.update(
            model=model,
            x_candidate=np.zeros(n),
            lower_bounds=-np.ones(n),
            upper_bounds=np.ones(n),
        )


# --------------------------------------------------------------------------------------
# invalid input
# --------------------------------------------------------------------------------------

BAD = {
    "unknown keyword": {"no_such_argument": 1},
    "misspelled keyword": {"sampler_option": {}},
    "model type": {"model_type": "cubic"},
    "radius factor zero": {"search_radius_factor": 0.0},
    "radius factor negative": {"search_radius_factor": -1},
    "batch smaller than cores": {"batch_size": 1, "n_cores": 2},
    "evals at start": {"n_evals_at_start": 0},
    "negative evals at start": {"n_evals_at_start": -3},
    "evals per point": {"n_evals_per_point": 0},
    "residualize string": {"residualize": "yes"},
    "residualize int": {"residualize": 1},
}
for _k in ("radius", "stagnation", "noise_adaptation", "sampler", "sample_filter",
           "model_fitter", "subsolver", "acceptance_decider", "variance_estimator"):
    BAD["unknown option in " + _k] = {_k + "_options": {"no_such_option": 1}}
for _k in ("sampler", "sample_filter", "model_fitter", "cube_subsolver", "sphere_subsolver",
           "acceptance_decider", "variance_estimator", "infinity_handler", "batch_evaluator"):
    BAD["unknown " + _k] = {_k: "no_such_component"}
    BAD["number as " + _k] = {_k: 3}
BAD["swapped subsolvers"] = {"cube_subsolver": "gqtpar_fast"}
BAD["swapped subsolvers 2"] = {"sphere_subsolver": "bntr_fast"}


def lacking(comp, drop):
    """A user component without one of the arguments it must accept."""
    mandatory = COMPONENTS[comp][3]
    params = [p for p in mandatory if p != drop]
    return {COMPONENTS[comp][0]: make_spy("incomplete", params, [], lambda r: None)}


for _c, _v in COMPONENTS.items():
    for _p in _v[3]:
        BAD[f"{_c} without {_p}"] = (_c, _p)


def run_reject(spec):
    crit = Counter(spec["functype"])
    kw, n = base_arguments(spec, crit)
    for name, (form, options) in spec["options"].items():
        if form == "dict" and name in BUNDLES:
            kw[next(c[1] for k, c in COMPONENTS.items() if bundle_of(k) == name)] = dict(options)
    bad = spec["bad"]
    if bad == "functype and model type":
        kw["model_type"] = "linear" if spec["functype"] == "scalar" else "quadratic"
    elif bad == "several unknown options":
        kw["radius_options"] = {"initial_radius": 0.1, "shrink": 1, "grow": 2}
    else:
        value = BAD[bad]
        value = lacking(*value) if isinstance(value, tuple) else value
        for k, v in value.items():
            if isinstance(v, dict) and isinstance(kw.get(k), dict):
                v = {**kw[k], **v}
            kw[k] = v
    try:
        _tranquilo(**{**kw, "stopping_max_iterations": 2})
    except Exception as e:
        require(
            isinstance(e, (ValueError, TypeError, NotImplementedError, KeyError, AttributeError)),
            "%s: %s",
            bad,
            type(e).__name__,
        )
    else:
        raise Violation(f"invalid input was accepted: {bad}")
    require(crit.n == 0, "%s: rejected only after %s evaluations", bad, crit.n)
    return Info(True, [bad])


# --------------------------------------------------------------------------------------
# options inside of real optimizations
# --------------------------------------------------------------------------------------


def raw_components():
    from tranquilo.acceptance_decision import get_acceptance_decider
    from tranquilo.estimate_variance import get_variance_estimator
    from tranquilo.filter_points import get_sample_filter
    from tranquilo.sample_points import get_sampler
    from tranquilo.solve_subproblem import get_subsolver

    return {
        "sampler": lambda kw: get_sampler("random_hull")(**kw),
        "filter": lambda kw: get_sample_filter("drop_excess")(**kw),
        "decider": lambda kw: get_acceptance_decider("classic", None)(**kw),
        "noisy decider": lambda kw: get_acceptance_decider("noisy", {"n_max": 6})(**kw),
        "variance": lambda kw: get_variance_estimator("classic", {"min_n_evals": 2})(**kw),
        "subsolver": get_subsolver,
    }


def run_run(spec):
    """All components are user functions with the full signature that delegate."""
    from tranquilo.fit_models import fit_ols
    from tranquilo.subsolvers.bntr_fast import bntr_fast
    from tranquilo.subsolvers.gqtpar_fast import gqtpar_fast

    functype = spec["functype"]
    noisy = spec["noisy"]
    rng = np.random.default_rng(spec["x_seed"])

    def crit(x):
        r = np.append(x - 0.3, 0.1 * x.sum())
        if noisy:
            r = r + 1e-3 * rng.normal(size=len(r))
        return float(r @ r) if functype == "scalar" else r

    raw = raw_components()
    logs, kw = {}, {}
    for comp in spec["components"]:
        key, optkey, runtime, _ = COMPONENTS[comp]
        opts = list(DEFAULTS[bundle_of(comp)])
        logs[comp] = []

        def answer(received, comp=comp, runtime=runtime, opts=opts):
            args = {k: received[k] for k in runtime}
            own = {k: received[k] for k in opts}
            if comp == "fitter":
                return fit_ols(args["x"], args["y"], args["weights"], args["model_type"])
            if comp == "cube":
                own = {k: v for k, v in own.items() if k not in ("k_easy", "k_hard")}
                return bntr_fast(**args, **own)
            if comp == "sphere":
                return gqtpar_fast(**args, k_easy=own["k_easy"], k_hard=own["k_hard"],
                                   maxiter=own["maxiter"])
            return raw["noisy decider" if comp == "decider" and noisy else comp](args)

        kw[key] = make_spy("user_" + comp, runtime + opts, logs[comp], answer)
    given = {}
    for name, (form, options) in spec["options"].items():
        if name not in BUNDLES:
            continue
        given[name] = options if form != "none" else {}
        key = next(c[1] for k, c in COMPONENTS.items() if bundle_of(k) == name)
        kw[key] = as_input(options, form, BUNDLES[name], {})
    x = np.array(spec["x"])
    if spec["bounds"]:
        kw.update(lower_bounds=x - spec["bounds"], upper_bounds=x + spec["bounds"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _tranquilo(
            functype=functype,
            criterion=crit,
            x=x,
            noisy=noisy,
            stopping_max_iterations=spec["iters"],
            disable_convergence=True,
            seed=spec["x_seed"],
            batch_size=spec["batch"],
            search_radius_factor=spec["factor"],
            sample_size=spec["sample_size"],
            noise_adaptation_options={"rho_noise_n_draws": 2, "max_n_evals": 3},
            **kw,
        )
    facts = {
        "batch_size": spec["batch"],
        "search_radius_factor": spec["factor"],
        "target_size": spec["sample_size"],
    }
    total = 0
    for comp, log in logs.items():
        expected = {**DEFAULTS[bundle_of(comp)], **given.get(bundle_of(comp), {})}
        for got in log:
            total += 1
            for k, v in {**expected, **facts}.items():
                if k in got:
                    require(same(got[k], v), "%s received %s=%r, not %r", comp, k, got[k], v)
            if "rng" in got:
                require(isinstance(got["rng"], np.random.Generator), "%s: rng", comp)
            if comp == "fitter":
                kind = "quadratic" if functype == "scalar" else "linear"
                require(got["model_type"] == kind, "fitter: model type %r", got["model_type"])
    used = [c for c in logs if logs[c]]
    require(
        set(logs) - set(used) <= {"variance", "cube", "sphere"}, "never called: %s",
        sorted(set(logs) - set(used)),
    )
    return Info(total > 0, ["called: " + c for c in used] + [functype])


# --------------------------------------------------------------------------------------
# generators
# --------------------------------------------------------------------------------------

VALUES = {
    "distribution": ["normal", "uniform", None],
    "hardness": [2.0, 5.5],
    "algorithm": ["L-BFGS-B"],
    "algo_options": [{"maxiter": 1}, None],
    "criterion": [None, "determinant", "distance"],
    "n_points_randomsearch": [2, 7],
    "return_info": [False],
    "strictness": [1e-8, 0.0, 2.0],
    "shape": ["cube", "sphere"],
    "n_max_factor": [5, 2],
    "conjugate_gradient_method": ["trsbox", "steihaug_toint"],
    "maxiter": [30, 11],
    "maxiter_gradient_descent": [3, 8],
    "n_initial": [6, 9],
    "n_min": [2, 5],
    "n_max": [40, 12],
    "min_n_evals": [4, 2],
    "rho_noise_n_draws": [7, 150],
    "max_n_evals": [12, 40],
    "ignore_corelation": [False, True],
    "drop": [True, False],
    "sample_increment": [2, 3],
    "max_trials": [2, 4],
    "min_radius": [1e-4, 1e-8],
    "max_radius": [10.0, 1e3],
    "initial_radius": [0.5, 0.07, 2.0],
    "expansion_factor": [1.5, 4.0],
    "min_relative_step_keep": [0.3, 0.01],
    "min_improvement": [0.0, 1e-3, 1.0],
}
DRAWABLE = {
    **DEFAULTS,
    "noise": NOISE,
    "radius": {"initial_radius": 0.1, **RADIUS},
    "stagnation": {"min_relative_step_keep": 0.1, "drop": True, **STAGNATION},
}


@st.composite
def option_values(draw, bundle):
    names = list(DRAWABLE[bundle])
    chosen = draw(st.lists(st.sampled_from(names), unique=True, max_size=len(names)))
    out = {}
    for k in chosen:
        pool = VALUES.get(k) or [0.15, 0.37, 0.83, 1e-3, 1.0]
        out[k] = draw(st.sampled_from(pool))
    return out


CASTS = ["plain", "plain", "numpy", "other"]
FORMS = ["dict", "dict", "bundle", "none"]


@st.composite
def bundles(draw):
    b = draw(st.sampled_from(list(DEFAULTS)))
    return {
        "bundle": b,
        "options": draw(option_values(b)),
        "base": {
            k: v
            for k, v in (draw(option_values(b)) if draw(st.booleans()) else {}).items()
            if DEFAULTS[b][k] is not None
        },
        "form": draw(st.sampled_from(FORMS)),
        "cast": draw(st.sampled_from(CASTS)),
        "unknown": draw(st.sampled_from([None, None, None, "maxitr", "_fields", "Hardness"])),
    }


@st.composite
def components(draw):
    b = draw(st.sampled_from(list(DEFAULTS)))
    names = ["aa", "bb", "cc", "dd"]
    return {
        "bundle": b,
        "options": draw(option_values(b)),
        "form": draw(st.sampled_from(FORMS)),
        "cast": draw(st.sampled_from(CASTS)),
        "params": draw(st.lists(st.sampled_from(names), unique=True)),
        "opts": draw(st.lists(st.integers(0, 9), max_size=5)),
        "order": draw(st.integers(1, 100)),
        "how": draw(st.sampled_from(["callable"] * 2 + ["partial"] + ["name"] * 3 + ["typo", "object"])),
        "dict": draw(st.booleans()),
        "mandatory": draw(st.lists(st.sampled_from(names), unique=True, max_size=2))
        if draw(st.booleans())
        else [],
        "extra": draw(st.lists(st.sampled_from(["ee", "ff", "aa", "zz"]), unique=True)),
        "options_mode": draw(st.sampled_from(["ignore"] * 4 + ["warn", "raise"])),
        "arguments_mode": draw(st.sampled_from(["ignore"] * 4 + ["warn", "raise"])),
    }


@st.composite
def problems(draw):
    n = draw(st.sampled_from([2, 3, 1, 4]))
    return {
        "functype": draw(st.sampled_from(["scalar", "least_squares"])),
        "x": draw(
            st.one_of(
                st.just([0.0] * n),
                st.lists(st.sampled_from([0.5, -1.25, 3.0, 0.0, -20.0]), min_size=n, max_size=n),
            )
        ),
        "bounds": draw(st.sampled_from([0.0, 0.5, 5.0])),
    }


@st.composite
def grouped(draw, names):
    chosen = draw(st.lists(st.sampled_from(names), unique=True, max_size=5))
    out = {}
    for c in chosen:
        form = draw(st.sampled_from(FORMS if c in BUNDLES else ["dict", "dict", "none"]))
        out[c] = [form, draw(option_values(c))]
    return out


PLAIN = {
    "noisy": st.booleans(),
    "disable_convergence": st.booleans(),
    "convergence_absolute_criterion_tolerance": st.sampled_from([1e-4, 1]),
    "convergence_absolute_gradient_tolerance": st.sampled_from([1e-5, 0.5]),
    "convergence_absolute_params_tolerance": st.sampled_from([1e-6, 0.25]),
    "convergence_relative_criterion_tolerance": st.sampled_from([1e-7, 0.125]),
    "convergence_relative_gradient_tolerance": st.sampled_from([1e-3, 0.0]),
    "convergence_relative_params_tolerance": st.sampled_from([1e-2, 0.0]),
    "convergence_min_trust_region_radius": st.sampled_from([1e-3, 0.75]),
    "stopping_max_criterion_evaluations": st.sampled_from([17, 333]),
    "stopping_max_iterations": st.sampled_from([3, 41]),
    "stopping_max_time": st.sampled_from([2.5, 10]),
    "sample_size": st.sampled_from([4, 9, 20]),
    "search_radius_factor": st.sampled_from([1.5, 3.0, 7]),
    "n_evals_per_point": st.sampled_from([1, 3]),
    "n_evals_at_start": st.sampled_from([1, 4]),
}


@st.composite
def plains(draw):
    names = draw(st.lists(st.sampled_from(list(PLAIN)), unique=True, max_size=8))
    out = {k: draw(PLAIN[k]) for k in names}
    cores = draw(st.sampled_from([None, None, 1, 2, 4]))
    if cores:
        out["n_cores"] = cores
    if draw(st.booleans()):
        out["batch_size"] = (cores or 1) * draw(st.sampled_from([1, 2, 3]))
    return out


@st.composite
def arguments(draw):
    comps = draw(st.lists(st.sampled_from(list(COMPONENTS)), unique=True))
    return {
        **draw(problems()),
        "plain": draw(plains()),
        "options": draw(grouped(list(DRAWABLE))),
        "components": {c: draw(st.integers(0, 2**20 - 1)) for c in comps},
        "seed": draw(st.sampled_from([None, 0, 1234])),
        "cast": draw(st.sampled_from(CASTS)),
    }


@st.composite
def rejections(draw):
    return {
        **draw(problems()),
        "plain": draw(plains()),
        "options": draw(grouped(list(BUNDLES))),
        "bad": draw(
            st.sampled_from(list(BAD) + ["functype and model type", "several unknown options"])
        ),
    }


@st.composite
def runs(draw):
    p = draw(problems())
    n = len(p["x"])
    scalar = p["functype"] == "scalar"
    if p["bounds"] == 0.5:
        p["bounds"] = 0.05
    opts = draw(grouped(list(BUNDLES)))
    if "sampler" in opts:
        opts["sampler"][1].pop("criterion", None)
    return {
        **p,
        "options": opts,
        "components": draw(
            st.lists(st.sampled_from(list(COMPONENTS)), unique=True, min_size=2)
        ),
        "noisy": draw(st.sampled_from([False, False, True])),
        "x_seed": draw(st.integers(0, 9999)),
        "batch": draw(st.sampled_from([1, 1, 2, 4])),
        "factor": draw(st.sampled_from([2.5, 4.25, 6.0])),
        "sample_size": (2 * n + 1 if scalar else n + 2) + draw(st.sampled_from([0, 1, 3])),
        "iters": draw(st.sampled_from([2, 3, 5])),
    }


def warmup():
    from pbt import e2e

    e2e.compile_all()


SUBS = [
    Sub(
        "bundle",
        lambda tier: bundles(),
        run_bundle,
        6_000,
        200_000,
        "an option bundle updated from a dict, bundle or nothing; non-trivial if options given",
    ),
    Sub(
        "component",
        lambda tier: components(),
        run_component,
        6_000,
        200_000,
        "a generated function wrapped as component; non-trivial if it has options or "
        "redundant arguments, or must be rejected",
    ),
    Sub(
        "arguments",
        lambda tier: arguments(),
        run_arguments,
        4_000,
        150_000,
        "processed arguments with user components of random signature compared with the "
        "documented defaults; non-trivial with options and components",
    ),
    Sub(
        "reject",
        lambda tier: rejections(),
        run_reject,
        2_000,
        60_000,
        "one invalid name or value among valid ones; all non-trivial",
    ),
    Sub(
        "run",
        lambda tier: runs(),
        run_run,
        200,
        8_000,
        "a short optimization in which user components record their arguments; non-trivial "
        "if one was called",
    ),
]
