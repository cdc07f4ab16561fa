"""Whole optimizations: problems, evaluators, a recording criterion and generators.

A case ("spec") is a JSON value that fully describes one optimization; run() executes it
against the real optimizer and returns everything that was observed from outside (calls
of the criterion, batches handed to the evaluator) together with the returned result.
"""
import hashlib
import time
import traceback
import warnings

import numpy as np
from hypothesis import strategies as st

from tranquilo.filter_points import get_sample_filter
from tranquilo.tranquilo import _tranquilo

from pbt.core import Violation

MAX_CALLS = 60_000


class Runaway(BaseException):
    """The optimizer evaluates without end."""


class Fault(Exception):
    """Raised by the criterion on purpose."""


def arr(value):
    return None if value is None else np.array(value, dtype=np.float64)


# --------------------------------------------------------------------------------------
# criterion functions
# --------------------------------------------------------------------------------------

SCALAR_KINDS = ("quad", "rosen", "abs", "step", "flat", "linear", "cos", "exp", "illq")
LS_KINDS = ("linls", "rosenls", "expls", "sinls", "absls", "constls", "underls")


def make_function(functype, kind, n, seed, scale=1.0):
    rng = np.random.default_rng(seed)
    center = np.round(rng.normal(size=n), 3)
    if functype == "scalar":
        a = rng.normal(size=(n, n))
        h = a @ a.T / n + np.eye(n)
        if kind == "illq":
            h = np.diag(10.0 ** np.linspace(-3, 3, n))
        g = rng.normal(size=n)
        funcs = {
            "quad": lambda x: (x - center) @ h @ (x - center),
            "illq": lambda x: (x - center) @ h @ (x - center),
            "rosen": lambda x: np.sum(100 * (x[1:] - x[:-1] ** 2) ** 2)
            + np.sum((1 - x) ** 2),
            "abs": lambda x: np.abs(x - center).sum(),
            "step": lambda x: np.floor(2 * np.abs(x - center)).sum(),
            "flat": lambda x: 3.0,
            "linear": lambda x: g @ x,
            "cos": lambda x: np.cos(3 * x).sum() + 0.1 * (x @ x),
            "exp": lambda x: np.exp(np.clip(x - center, -50, 50)).sum() - x.sum(),
        }
        func = funcs[kind]
        return lambda x: scale * float(func(x))
    m = n + int(rng.integers(0, 4))
    if kind == "underls":
        m = max(1, n - 1)
    a = rng.normal(size=(m, n)) + np.eye(m, n)
    t = np.linspace(0.1, 2, m)
    b = rng.normal(size=m) * (seed % 2)
    funcs = {
        "linls": lambda x: a @ (x - center) + 0.1 * b,
        "underls": lambda x: a @ (x - center),
        "rosenls": lambda x: np.concatenate([10 * (x[1:] - x[:-1] ** 2), 1 - x]),
        "expls": lambda x: np.exp(np.clip(-np.outer(t, x).sum(1) / n, -30, 30))
        - np.exp(-t)
        + 0.1 * (a @ (x - center)),
        "sinls": lambda x: np.sin(a @ x) + 0.2 * (a @ (x - center)),
        "absls": lambda x: np.sqrt(np.abs(a @ (x - center))),
        "constls": lambda x: np.arange(1.0, m + 1),
    }
    func = funcs[kind]
    return lambda x: scale * np.asarray(func(x), dtype=float)


def x_hash(x):
    raw = np.ascontiguousarray(x, dtype=np.float64).tobytes()
    return int.from_bytes(hashlib.blake2b(raw, digest_size=4).digest(), "big")


class Criterion:
    """The user's function: records all calls, optionally noisy and failing."""

    def __init__(self, spec):
        self.spec = spec
        p = spec["problem"]
        self.functype = p["functype"]
        self.func = make_function(
            p["functype"], p["kind"], p["dim"], p["seed"], p.get("scale", 1.0)
        )
        self.x0 = arr(p["x0"])
        self.noise = p.get("noise", 0.0)
        self.faults = spec.get("faults")
        self.returns = p.get("returns", "plain")
        self.calls = []  # parameter vectors in the order of execution
        self.raw = []  # what was returned (or the exception)
        self.n_failed = 0
        self.slot = None  # set by evaluators that permute the order of execution
        self.noise_seed = p["seed"] + 77

    def is_fault(self, x, k):
        f = self.faults
        if f is None or np.array_equal(x, self.x0):
            return False
        if f["rule"] == "hash":
            return (x_hash(x) % 1000) < 10 * f["rate"]
        if f["rule"] == "calls":
            return k in f["calls"]
        if f["rule"] == "after":
            return k >= f["after"]
        if f["rule"] == "half":
            j = f["coord"] % len(x)
            return f["sign"] * (x[j] - self.x0[j]) > f["gap"]
        raise AssertionError(f)

    def __call__(self, x):
        k = len(self.calls)
        if k >= MAX_CALLS:
            raise Runaway
        arg, x = x, np.array(x, dtype=np.float64)
        self.calls.append(x)
        if self.spec["problem"].get("mutates"):
            arg[...] = -77.0  # a user's function may work on its argument in place
        slot = k if self.slot is None else self.slot
        if self.is_fault(x, slot):
            self.n_failed += 1
            mode = self.faults["mode"]
            if mode == "mixed":
                mode = ("exception", "nan", "inf")[x_hash(x) % 3]
            if mode == "exception":
                self.raw.append(None)
                raise Fault("planned failure")
            bad = {"nan": np.nan, "inf": np.inf}[mode]
            out = self.func(x)
            if np.ndim(out) == 1 and self.faults.get("partial"):
                out[x_hash(x) % len(out)] = bad
            else:
                out = out * 0 + bad
            self.raw.append(np.array(out))
            return out
        out = self.func(x)
        if self.noise:
            rng = np.random.default_rng([self.noise_seed, slot])
            out = out + self.noise * rng.normal(size=np.shape(out))
        self.raw.append(np.array(out))
        if np.ndim(out) == 0:
            if self.returns == "np":
                out = np.float64(out)
            elif self.returns == "0d":
                out = np.array(out)
            else:
                out = float(out)
        return out


class BatchEvaluator:
    """Executes batches in a chosen order and records what it was asked to do."""

    def __init__(self, order="forward", seed=0):
        self.order = order
        self.rng = np.random.default_rng(seed)
        self.batches = []
        self.perms = []

    def __call__(self, func, arguments, n_cores=1, error_handling="continue", **kwargs):
        args = list(arguments)
        pos = list(range(len(args)))
        if self.order == "reverse":
            pos = pos[::-1]
        elif self.order == "random":
            pos = [int(i) for i in self.rng.permutation(len(args))]
        self.perms.append(pos)
        crit = getattr(self, "criterion", None)
        base = len(crit.calls) if crit is not None else 0
        out = [None] * len(args)
        self.batches.append(
            {"xs": [np.array(a) for a in args], "n_cores": n_cores, "eh": error_handling}
        )
        for i in pos:
            if crit is not None:
                crit.slot = base + i
            try:
                out[i] = func(args[i])
            except Exception:
                if error_handling == "raise":
                    raise
                out[i] = traceback.format_exc()
        if crit is not None:
            crit.slot = None
        return out


# --------------------------------------------------------------------------------------
# running
# --------------------------------------------------------------------------------------


class Outcome:
    pass


def kwargs_of(spec):
    kw = {}
    for k, v in spec.get("options", {}).items():
        kw[k] = dict(v) if isinstance(v, dict) else v
    if spec.get("noisy"):
        kw["noisy"] = True
    return kw


def run(spec, wrap_criterion=None, **extra):
    """Run the optimization described by spec."""
    p = spec["problem"]
    crit = Criterion(spec)
    func = crit if wrap_criterion is None else wrap_criterion(crit)
    kw = kwargs_of(spec)
    lower, upper = arr(p.get("lower")), arr(p.get("upper"))
    ev = None
    how = spec.get("evaluator")
    if how and how["kind"] == "own":
        ev = BatchEvaluator(how.get("order", "forward"), how.get("seed", 0))
        ev.criterion = crit
        kw["batch_evaluator"] = ev
    elif how:
        kw["batch_evaluator"] = how["kind"]
    kw.update(extra)
    x0 = arr(p["x0"])
    out = Outcome()
    out.iteration_starts = out.points_at_start = None
    out.search_factor = spec["options"].get(
        "search_radius_factor", 4.25 if p["functype"] == "scalar" else 5.0
    )
    if spec.get("spy"):
        out.iteration_starts, out.points_at_start = [], []
        out.clock = []
        kw["sample_filter"] = spy_filter(kw, out)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            out.res = _tranquilo(
                p["functype"],
                func,
                x0,
                lower_bounds=lower,
                upper_bounds=upper,
                **kw,
            )
        except Runaway:
            raise Violation(
                "does not terminate: more than %d criterion evaluations" % MAX_CALLS
            ) from None
    out.crit, out.evaluator, out.kwargs = crit, ev, kw
    out.x0, out.lower, out.upper = x0, lower, upper
    out.history = out.res["tranquilo_history"]
    out.states = out.res["states"]
    return out


def spy_filter(kw, out):
    """A user-supplied filter that records the beginning of every iteration."""
    name = kw.get("sample_filter")
    if name is None:
        batch = kw.get("batch_size") or kw.get("n_cores") or 1
        name = "drop_excess" if batch > 1 else "keep_all"
    real = get_sample_filter(name, kw.get("sample_filter_options"))

    def spy(xs, indices, state, target_size, history):
        out.iteration_starts.append(history.get_n_fun())
        out.points_at_start.append(history.get_n_xs())
        out.clock.append(time.perf_counter())
        return real(xs=xs, indices=indices, state=state, target_size=target_size)

    return spy


def value_of(functype, raw):
    """The criterion value that belongs to what the criterion returned."""
    if raw is None:
        return np.inf
    raw = np.nan_to_num(
        np.asarray(raw, dtype=float), nan=np.inf, posinf=np.inf, neginf=-np.inf
    )
    if functype == "scalar":
        return float(raw.reshape(-1)[0])
    if functype == "likelihood":
        return float(raw.sum())
    return float((raw**2).sum())


def recorded(history):
    """All evaluations of the history in the order in which they were made."""
    order = {}
    for i in range(history.get_n_xs()):
        for f in history.index_mapper[i]:
            order[int(f)] = i
    return [order[k] for k in range(len(order))]


# --------------------------------------------------------------------------------------
# generators
# --------------------------------------------------------------------------------------


def nice(lo, hi, digits=2):
    k = 10**digits
    return st.integers(int(np.ceil(lo * k)), int(np.floor(hi * k))).map(lambda i: i / k)


@st.composite
def problems(
    draw,
    functypes=("scalar", "least_squares", "likelihood"),
    dims=(1, 4),
    bounds=("none", "some"),
    kinds=None,
    scales=(1.0,),
):
    functype = draw(st.sampled_from(functypes))
    n = draw(st.integers(*dims))
    if kinds is None:
        pool = SCALAR_KINDS if functype == "scalar" else LS_KINDS
    else:
        pool = kinds[functype]
    kind = draw(st.sampled_from(pool))
    seed = draw(st.integers(0, 9999))
    x0 = [draw(nice(-3, 3)) for _ in range(n)]
    p = {"functype": functype, "kind": kind, "dim": n, "seed": seed, "x0": x0}
    scale = draw(st.sampled_from(scales))
    if scale != 1.0:
        p["scale"] = scale
    if functype == "scalar":
        p["returns"] = draw(st.sampled_from(["plain", "plain", "np", "0d"]))
    if draw(st.sampled_from(bounds)) == "some":
        add_bounds(draw, p)
    return p


def add_bounds(draw, p):
    """Bounds of all sorts: one-sided, partly or completely infinite, active."""
    n = p["dim"]
    sides = draw(st.sampled_from(["both", "both", "lower", "upper"]))
    gap = st.one_of(
        st.just(0.0), nice(0.0, 0.3), nice(0.05, 3.0), st.sampled_from([np.inf, 50.0])
    )
    lower, upper = [], []
    for j in range(n):
        gl, gu = draw(gap), draw(gap)
        if gl + gu < 0.05:
            gl += 0.1
        lower.append(p["x0"][j] - gl if np.isfinite(gl) else -np.inf)
        upper.append(p["x0"][j] + gu if np.isfinite(gu) else np.inf)
    # one-sided cases: a start on a bound stays possible
    p["lower"] = lower if sides != "upper" else None
    p["upper"] = upper if sides != "lower" else None


def bound_class(p):
    lo, up = p.get("lower"), p.get("upper")
    if lo is None and up is None:
        return "bounds:none"
    if lo is None or up is None:
        return "bounds:one-sided"
    finite = np.isfinite(lo).any() or np.isfinite(up).any()
    if not finite:
        return "bounds:infinite"
    active = any(a == b for a, b in zip(lo, p["x0"])) or any(
        a == b for a, b in zip(up, p["x0"])
    )
    return "bounds:active-at-start" if active else "bounds:both"


def sampler_options(draw, heavy=False):
    out = {}
    sampler = draw(
        st.sampled_from(["random_hull", "random_hull", "random_interior", "optimal_hull"])
    )
    out["sampler"] = sampler
    opts = {}
    if sampler == "optimal_hull":
        opts["algo_options"] = {"maxiter": draw(st.integers(1, 3))}
        if draw(st.booleans()):
            opts["n_points_randomsearch"] = draw(st.integers(2, 20))
        if draw(st.booleans()):
            opts["criterion"] = draw(st.sampled_from(["distance", "determinant"]))
        if draw(st.booleans()):
            opts["hardness"] = draw(st.sampled_from([0.5, 2.0, 5.0]))
    elif sampler == "random_hull" and draw(st.integers(0, 3)) == 0:
        opts["distribution"] = draw(st.sampled_from(["normal", "uniform"]))
    if opts:
        out["sampler_options"] = opts
    return out


@st.composite
def specs(
    draw,
    functypes=("scalar", "least_squares", "least_squares", "likelihood"),
    dims=(1, 4),
    bounds=("none", "some"),
    kinds=None,
    noisy=(False,),
    faults=False,
    max_iter=(3, 12),
    batch=True,
    subsolvers=True,
    line_search=True,
    fitters=True,
    own_evaluator=True,
    filters=True,
    tolerances=True,
    min_improvement=True,
    scales=(1.0,),
):
    p = draw(problems(functypes, dims, bounds, kinds, scales))
    n, functype = p["dim"], p["functype"]
    spec = {"problem": p, "options": {}}
    o = spec["options"]
    is_noisy = draw(st.sampled_from(noisy))
    if is_noisy:
        spec["noisy"] = True
        p["noise"] = draw(st.sampled_from([0.0, 0.01, 0.1, 0.5, 2.0]))
        o["noise_adaptation_options"] = {
            "rho_noise_n_draws": draw(st.integers(2, 6)),
            "min_n_evals": draw(st.integers(1, 3)),
        }
        if draw(st.booleans()):
            o["noise_adaptation_options"]["max_n_evals"] = draw(st.integers(3, 6))
        o["n_evals_per_point"] = draw(st.integers(3, 5))
        if draw(st.booleans()):
            del o["n_evals_per_point"]
        if draw(st.booleans()):
            o["n_evals_at_start"] = draw(st.integers(1, 8))
        if draw(st.booleans()):
            o["acceptance_decider"] = draw(
                st.sampled_from(["naive_noisy", "noisy", "classic"])
            )
        o["acceptance_decider_options"] = {"n_max": draw(st.integers(4, 20))}
    elif draw(st.integers(0, 9)) == 0:
        o["n_evals_per_point"] = draw(st.integers(1, 3))
    o.update(sampler_options(draw))
    o["stopping_max_iterations"] = draw(st.integers(*max_iter))
    if draw(st.integers(0, 3)) == 0:
        o["stopping_max_criterion_evaluations"] = draw(st.integers(1, 120))
    if draw(st.booleans()):
        o["disable_convergence"] = True
    elif tolerances and draw(st.booleans()):
        o.update(draw(tolerance_options()))
    if draw(st.booleans()):
        o["seed"] = draw(st.integers(0, 10**6))
    if batch and not is_noisy and draw(st.integers(0, 2)) == 0:
        o["batch_size"] = draw(st.integers(1, 8))
        if line_search and draw(st.booleans()):
            o["acceptance_decider"] = "classic_line_search"
    if own_evaluator and draw(st.booleans()):
        spec["evaluator"] = {
            "kind": "own",
            "order": draw(st.sampled_from(["forward", "reverse", "random"])),
        }
        if draw(st.booleans()):
            o["n_cores"] = draw(st.integers(1, max(1, o.get("batch_size", 4))))
    if filters and draw(st.integers(0, 2)) == 0:
        o["sample_filter"] = draw(
            st.sampled_from(["keep_all", "drop_excess", "clustering", "discard_all"])
        )
    if draw(st.integers(0, 2)) == 0:
        o["search_radius_factor"] = draw(st.sampled_from([1.0, 2.0, 4.25, 8.0]))
    if draw(st.integers(0, 3)) == 0:
        lo = n + 1
        o["sample_size"] = draw(st.integers(lo, 2 * n + 4))
    if fitters and draw(st.integers(0, 2)) == 0:
        o["model_fitter"] = draw(
            st.sampled_from(["ols", "ridge", "powell", "tranquilo"])
        )
        if o["model_fitter"] == "powell":
            # documented for scalar problems; does not take weights
            pass
        if draw(st.booleans()):
            o["residualize"] = draw(st.booleans())
    if draw(st.integers(0, 2)) == 0:
        ro = {}
        if draw(st.booleans()):
            ro["initial_radius"] = draw(st.sampled_from([0.01, 0.1, 0.5, 1.0, 3.0]))
        if draw(st.booleans()):
            ro["shrinking_factor"] = draw(st.sampled_from([0.25, 0.5, 0.8]))
        if draw(st.booleans()):
            ro["expansion_factor"] = draw(st.sampled_from([1.5, 2.0, 4.0]))
        if draw(st.integers(0, 3)) == 0:
            ro["max_radius"] = draw(st.sampled_from([3.0, 5.0]))
        if draw(st.integers(0, 3)) == 0:
            ro["max_radius_to_step_ratio"] = draw(st.sampled_from([1.0, 5.0]))
        o["radius_options"] = ro
    if draw(st.integers(0, 3)) == 0:
        o["stagnation_options"] = {
            "min_relative_step_keep": draw(st.sampled_from([0.0, 0.125, 0.5])),
            "drop": draw(st.booleans()),
            "min_relative_step": draw(st.sampled_from([0.0, 0.05, 0.5])),
            "max_trials": draw(st.integers(1, 3)),
            "sample_increment": draw(st.integers(1, 2)),
        }
    if min_improvement and not is_noisy and draw(st.integers(0, 3)) == 0:
        o["acceptance_decider_options"] = {
            "min_improvement": draw(st.sampled_from([1e-6, 1e-3, 0.1]))
        }
    has_bounds = p.get("lower") is not None or p.get("upper") is not None
    if subsolvers and draw(st.integers(0, 2)) == 0:
        o["sphere_subsolver"] = draw(
            st.sampled_from(
                [
                    "gqtpar",
                    "fallback_reparametrized",
                    "fallback_inscribed_cube",
                    "fallback_norm_constraint",
                ]
            )
        )
        if has_bounds:
            o["cube_subsolver"] = draw(st.sampled_from(["bntr", "fallback_cube"]))
    if has_bounds and draw(st.integers(0, 3)) == 0:
        o["subsolver_options"] = {
            "conjugate_gradient_method": draw(st.sampled_from(["cg", "steihaug_toint"]))
        }
    if faults:
        spec["faults"] = draw(fault_rules())
    return spec


@st.composite
def tolerance_options(draw):
    names = {
        "convergence_absolute_criterion_tolerance": [0.0, 1e-6, 1e-2, 1.0],
        "convergence_absolute_gradient_tolerance": [0.0, 1e-6, 1e-2, 1.0],
        "convergence_absolute_params_tolerance": [0.0, 1e-6, 1e-2, 1.0],
        "convergence_relative_criterion_tolerance": [0.0, 1e-6, 1e-2, 0.5],
        "convergence_relative_gradient_tolerance": [0.0, 1e-6, 1e-2, 0.5],
        "convergence_relative_params_tolerance": [0.0, 1e-6, 1e-2, 0.5],
    }
    out = {k: 0.0 for k in names}
    for name in draw(
        st.lists(st.sampled_from(sorted(names)), min_size=1, max_size=3, unique=True)
    ):
        out[name] = draw(st.sampled_from(names[name]))
    return out


@st.composite
def fault_rules(draw):
    rule = draw(st.sampled_from(["hash", "calls", "half", "hash", "after"]))
    f = {
        "rule": rule,
        "mode": draw(st.sampled_from(["exception", "nan", "inf", "mixed"])),
        "partial": draw(st.booleans()),
    }
    if rule == "hash":
        f["rate"] = draw(st.sampled_from([5, 20, 50, 90, 100]))
    elif rule == "calls":
        f["calls"] = sorted(
            draw(st.lists(st.integers(1, 40), min_size=1, max_size=8, unique=True))
        )
    elif rule == "after":
        f["after"] = draw(st.integers(2, 40))
    else:
        f["coord"] = draw(st.integers(0, 3))
        f["sign"] = draw(st.sampled_from([-1, 1]))
        f["gap"] = draw(st.sampled_from([0.0, 0.01, 0.1, 0.5]))
    return f


def classes(spec, out=None):
    p, o = spec["problem"], spec["options"]
    res = [
        p["functype"],
        f"kind:{p['kind']}",
        bound_class(p),
        "sampler:" + o.get("sampler", "default"),
        "accept:" + str(o.get("acceptance_decider", "default")),
        "fitter:" + str(o.get("model_fitter", "default")),
        "filter:" + str(o.get("sample_filter", "default")),
        "sphere:" + str(o.get("sphere_subsolver", "default")),
    ]
    if "cube_subsolver" in o:
        res.append("cube:" + o["cube_subsolver"])
    if o.get("batch_size", 1) > 1:
        res.append("batch>1")
    if spec.get("noisy"):
        res.append("noisy")
    if out is not None:
        n_acc = sum(bool(s.accepted) for s in out.states[1:])
        res.append("accepted-steps:" + ("0" if n_acc == 0 else "1+"))
        res.append("msg:" + str(out.res["message"])[:24])
        if any(s.trustregion.shape == "cube" for s in out.states):
            res.append("cube-region")
    return res


def compile_all(bounded=True, scalar=True, noisy=False):
    """Run a few optimizations so that all compiled code is there before forking."""
    cases = [
        {
            "problem": {
                "functype": "least_squares",
                "kind": "linls",
                "dim": 2,
                "seed": 1,
                "x0": [1.0, 2.0],
            },
            "options": {"stopping_max_iterations": 4},
        }
    ]
    if scalar:
        q = {"functype": "scalar", "kind": "quad", "dim": 2, "seed": 1, "x0": [1.0, 2.0]}
        cases.append(
            {
                "problem": q,
                "options": {
                    "stopping_max_iterations": 5,
                    "sample_filter": "clustering",
                    "sampler": "random_hull",
                },
            }
        )
    if bounded:
        q = {
            "functype": "scalar",
            "kind": "quad",
            "dim": 2,
            "seed": 1,
            "x0": [1.0, 2.0],
            "lower": [0.9, 1.9],
            "upper": [3.0, 3.0],
        }
        for cg in ("cg", "steihaug_toint"):
            cases.append(
                {
                    "problem": q,
                    "options": {
                        "stopping_max_iterations": 4,
                        "sampler": "random_hull",
                        "subsolver_options": {"conjugate_gradient_method": cg},
                    },
                }
            )
    for c in cases:
        run(c)
