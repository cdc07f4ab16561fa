"""C05: parallel evaluation does not change the result."""
import copy
import random
import time
import warnings
from concurrent.futures import ThreadPoolExecutor

import numpy as np
from hypothesis import strategies as st

from pbt import e2e
from pbt.core import Info, Sub, require
from pbt.oracles import check_batches

PROPERTY = "C05"


def warmup():
    e2e.compile_all()


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=True))


def compare_results(base, res, what):
    h, g = base["tranquilo_history"], res["tranquilo_history"]
    require(
        h.get_n_xs() == g.get_n_xs() and h.get_n_fun() == g.get_n_fun(),
        "%s: %d points and %d evaluations instead of %d and %d",
        what,
        g.get_n_xs(),
        g.get_n_fun(),
        h.get_n_xs(),
        h.get_n_fun(),
    )
    require(same(h.get_xs(), g.get_xs()), "%s: other points were evaluated", what)
    for i in range(h.get_n_xs()):
        if h.index_mapper[i] or g.index_mapper[i]:
            require(
                same(h.get_fvecs(i), g.get_fvecs(i))
                and same(h.get_fvals(i), g.get_fvals(i)),
                "%s: other values were recorded for point %d",
                what,
                i,
            )
    for key in ("solution_x", "solution_criterion"):
        require(
            same(base[key], res[key]),
            "%s: %s is %s instead of %s",
            what,
            key,
            res[key],
            base[key],
        )
    require(base["message"] == res["message"], "%s: the message differs", what)
    require(
        len(base["states"]) == len(res["states"]), "%s: other number of iterations", what
    )
    for i, (s, t) in enumerate(zip(base["states"], res["states"])):
        require(
            s.index == t.index
            and same(s.trustregion.radius, t.trustregion.radius)
            and same(s.model_indices, t.model_indices),
            "%s: iteration %d differs",
            what,
            i,
        )


def variant(spec, how):
    s = copy.deepcopy(spec)
    o = s["options"]
    if how["n_cores"] is None:
        o.pop("n_cores", None)
    else:
        o["n_cores"] = min(how["n_cores"], spec["batch_size"])
    if how.get("no_batch_size"):
        del o["batch_size"]
    if how["kind"] == "own":
        s["evaluator"] = {"kind": "own", "order": how["order"], "seed": how["seed"]}
    else:
        s["evaluator"] = {"kind": how["kind"]}
        o["n_cores"] = 1
        if how.get("none"):
            s.pop("evaluator")
    return s


def run_orders(spec):
    spec = copy.deepcopy(spec)
    spec["options"]["batch_size"] = spec["batch_size"]
    base = e2e.run(variant(spec, {"kind": "own", "order": "forward", "seed": 0, "n_cores": 1}))
    check_batches(base)
    for how in spec["variants"]:
        out = e2e.run(variant(spec, how))
        what = f"evaluator {how}"
        check_batches(out)
        if out.evaluator is not None:
            a, b = base.evaluator.batches, out.evaluator.batches
            require(len(a) == len(b), "%s: other number of batches", what)
            for k, (u, v) in enumerate(zip(a, b)):
                require(
                    len(u["xs"]) == len(v["xs"])
                    and all(same(x, y) for x, y in zip(u["xs"], v["xs"])),
                    "%s: batch %d differs",
                    what,
                    k,
                )
        compare_results(base.res, out.res, what)
    big = max(len(b["xs"]) for b in base.evaluator.batches)
    return Info(
        big > 1 and len(base.states) > 2,
        e2e.classes(spec, base) + [f"batch_size:{spec['batch_size']}"],
    )


@st.composite
def order_specs(draw, tier, noisy=(False, False, False, True), faults=False):
    big = {"max_iter": (3, 25), "dims": (1, 6)} if tier == "thorough" else {}
    spec = draw(
        e2e.specs(noisy=noisy, faults=faults, batch=False, own_evaluator=False, **big)
    )
    spec["batch_size"] = draw(st.integers(1, 8))
    if not spec.get("noisy") and draw(st.booleans()):
        spec["options"]["acceptance_decider"] = "classic_line_search"
    hows = []
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(["own", "own", "own", "joblib", "default"]))
        if kind == "own":
            hows.append(
                {
                    "kind": "own",
                    "order": draw(st.sampled_from(["forward", "reverse", "random"])),
                    "seed": draw(st.integers(0, 999)),
                    "n_cores": draw(st.sampled_from([None, 1, 2, 3, 5, 8])),
                }
            )
        else:
            hows.append(
                {"kind": "joblib", "n_cores": 1, "none": kind == "default"}
            )
    # n_cores alone also sets the batch size
    if draw(st.booleans()):
        hows.append(
            {
                "kind": "own",
                "order": "reverse",
                "seed": 0,
                "n_cores": spec["batch_size"],
                "no_batch_size": True,
            }
        )
    spec["variants"] = hows
    return spec


# --------------------------------------------------------------------------------------
# real concurrency
# --------------------------------------------------------------------------------------


class Threads:
    """A batch evaluator that really works concurrently and completes out of order."""

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.used = 1

    def __call__(self, func, arguments, n_cores=1, error_handling="continue"):
        delays = [self.rng.choice([0, 0, 0.001, 0.003]) for _ in arguments]

        def one(item):
            arg, delay = item
            time.sleep(delay)
            try:
                return func(arg)
            except Exception as e:
                return repr(e)

        self.used = max(self.used, min(n_cores, len(delays)))
        with ThreadPoolExecutor(max(1, n_cores)) as pool:
            return list(pool.map(one, zip(arguments, delays)))


def pure_function(p, fail):
    f = e2e.make_function(p["functype"], p["kind"], p["dim"], p["seed"])
    if not fail:
        return f
    x0 = np.array(p["x0"])

    def failing(x):
        if fail * (x[0] - x0[0]) > 0.01:
            raise RuntimeError("planned failure")
        return f(x)

    return failing


def run_pure(spec, evaluator, n_cores):
    p = spec["problem"]
    kw = e2e.kwargs_of(spec)
    if evaluator is not None:
        kw["batch_evaluator"] = evaluator
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return e2e._tranquilo(
            p["functype"],
            pure_function(p, spec["fail"]),
            e2e.arr(p["x0"]),
            lower_bounds=e2e.arr(p.get("lower")),
            upper_bounds=e2e.arr(p.get("upper")),
            n_cores=n_cores,
            **kw,
        )


def run_real(spec):
    base = run_pure(spec, None, 1)
    b = spec["options"]["batch_size"]
    n = min(spec["n_cores"], b)
    if spec["how"] == "threads":
        ev = Threads(spec["seed"])
        res = run_pure(spec, ev, n)
        parallel = ev.used > 1
    else:
        res = run_pure(spec, spec["how"], n)
        parallel = n > 1
    compare_results(base, res, f"{spec['how']} with {n} cores")
    return Info(
        parallel and len(res["states"]) > 2, [spec["how"], spec["problem"]["functype"]]
    )


@st.composite
def real_specs(draw, hows):
    spec = draw(
        e2e.specs(batch=False, own_evaluator=False, max_iter=(3, 6), dims=(1, 3))
    )
    o = spec["options"]
    o["batch_size"] = draw(st.integers(2, 6))
    if draw(st.booleans()):
        o["acceptance_decider"] = "classic_line_search"
    spec["fail"] = draw(st.sampled_from([0, 0, 1, -1]))
    spec["n_cores"] = draw(st.integers(2, 4))
    spec["how"] = draw(st.sampled_from(hows))
    spec["seed"] = draw(st.integers(0, 999))
    return spec


def process_evaluators():
    hows = ["joblib"]
    try:
        import pathos  # noqa: F401

        hows.append("pathos")
    except ImportError:
        pass
    return hows


RULE = (
    "one optimization executed with a serial evaluator and with evaluators that execute "
    "the evaluations of each batch in other orders and with other numbers of cores; "
    "non-trivial if a batch had several evaluations and there were several iterations"
)
SUBS = [
    Sub("orders", order_specs, run_orders, 900, 30_000, RULE),
    Sub(
        "orders_faults",
        lambda tier: order_specs(tier, faults=True),
        run_orders,
        300,
        10_000,
        RULE + " (failing evaluations)",
    ),
    Sub(
        "threads",
        lambda tier: real_specs(["threads"]),
        run_real,
        120,
        4_000,
        "serial evaluation against real threads with random delays; non-trivial if "
        "several threads were used",
    ),
    Sub(
        "processes",
        lambda tier: real_specs(process_evaluators()),
        run_real,
        16,
        200,
        "serial evaluation against worker processes (joblib); non-trivial if several "
        "processes were used",
    ),
]
