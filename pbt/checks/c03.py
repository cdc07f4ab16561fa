"""C03: every run terminates within its limits and says truthfully why."""
import time

import numpy as np
from hypothesis import strategies as st

from pbt import e2e
from pbt.core import Info, Sub, require
from pbt.oracles import TIME_MSG, check_stop

PROPERTY = "C03"


def warmup():
    e2e.compile_all()


@st.composite
def stop_specs(draw, tier, noisy=(False,), faults=False):
    big = tier == "thorough"
    spec = draw(
        e2e.specs(
            noisy=noisy,
            faults=faults,
            max_iter=(0, 60) if big else (0, 25),
            dims=(1, 6) if big else (1, 4),
            scales=(1.0, 1.0, 1e-4, 1e4),
        )
    )
    o = spec["options"]
    spec["spy"] = True
    if draw(st.integers(0, 2)) == 0:
        o["stopping_max_criterion_evaluations"] = draw(st.integers(1, 60))
    if draw(st.integers(0, 2)) == 0:
        o["convergence_min_trust_region_radius"] = draw(
            st.sampled_from([1e-4, 1e-2, 0.1, 0.5])
        )
    if draw(st.booleans()):
        o.pop("disable_convergence", None)
        o.update(draw(e2e.tolerance_options()))
        if draw(st.booleans()):
            # no other convergence criterion interferes
            kept = draw(st.sampled_from(sorted(k for k in o if k.endswith("tolerance"))))
            for k in [k for k in o if k.endswith("tolerance")]:
                if k != kept:
                    o[k] = 0.0
    return spec


def run_stop(spec):
    out = e2e.run(spec)
    check_stop(spec, out)
    return Info(len(out.states) > 1, e2e.classes(spec, out))


@st.composite
def long_specs(draw, tier):
    """Few limits: the run has to end by convergence or by the default limits."""
    functype = draw(st.sampled_from(["least_squares", "scalar", "likelihood"]))
    spec = draw(
        e2e.specs(
            functypes=(functype,),
            max_iter=(100, 200),
            dims=(1, 3),
            subsolvers=False,
            min_improvement=False,
            scales=(1.0, 1e-8, 1e8),
        )
    )
    spec["spy"] = True
    o = spec["options"]
    for k in ("disable_convergence", "stopping_max_criterion_evaluations"):
        o.pop(k, None)
    if o.get("sampler") == "optimal_hull" and draw(st.booleans()):
        o["sampler"] = "random_hull"
        o.pop("sampler_options", None)
    if draw(st.booleans()):
        del o["stopping_max_iterations"]
    return spec


@st.composite
def clock_specs(draw):
    spec = draw(e2e.specs(max_iter=(5, 12), line_search=False))
    spec["spy"] = True
    o = spec["options"]
    o["disable_convergence"] = True
    for k in (
        "stopping_max_criterion_evaluations",
        "convergence_min_trust_region_radius",
    ):
        o.pop(k, None)
    o["stopping_max_time"] = draw(st.sampled_from([0.0, 0.0, -1.0, 1e6, np.inf, 1e-9]))
    return spec


def run_clock(spec):
    """A limit that is over at once, or never."""
    out = e2e.run(spec)
    check_stop(spec, out)
    n_iter, msg = len(out.states) - 1, out.res["message"]
    if spec["options"]["stopping_max_time"] < 1:
        require(
            n_iter == 1 and msg == TIME_MSG,
            "the time limit was over at once but %d iterations were made (message %r)",
            n_iter,
            msg,
        )
    else:
        require(
            n_iter == spec["options"]["stopping_max_iterations"] and msg != TIME_MSG,
            "the time limit was not reached but the run ended with %r",
            msg,
        )
    return Info(True, e2e.classes(spec, out))


@st.composite
def sleep_specs(draw):
    n = draw(st.integers(1, 3))
    return {
        "problem": {
            "functype": "least_squares",
            "kind": draw(st.sampled_from(["rosenls", "sinls", "linls"])),
            "dim": n,
            "seed": draw(st.integers(0, 99)),
            "x0": [draw(e2e.nice(-2, 2)) for _ in range(n)],
        },
        "options": {
            "stopping_max_time": draw(st.sampled_from([0.15, 0.3])),
            "disable_convergence": True,
            "sampler": "random_hull",
            "stopping_max_iterations": 10_000,
            "stopping_max_criterion_evaluations": 10**9,
        },
        "spy": True,
        "sleep": draw(st.sampled_from([0.01, 0.03])),
    }


def run_sleep(spec):
    """A slow criterion: no iteration starts after the time is over.

    The limit is only known to be exceeded relative to the moment of the first
    evaluation, which is after the optimizer started its clock, so no generous margin
    is needed for this direction; the other direction uses the time of the caller,
    which is before that moment.
    """
    first = []

    def slow(func):
        def wrapped(x):
            first.append(time.perf_counter())
            time.sleep(spec["sleep"])
            return func(x)

        return wrapped

    t0 = time.perf_counter()
    out = e2e.run(spec, wrap_criterion=slow)
    total = time.perf_counter() - t0
    limit = spec["options"]["stopping_max_time"]
    msg, n_iter = out.res["message"], len(out.states) - 1
    require(msg == TIME_MSG, "ended with %r although only time was limited", msg)
    require(total >= limit, "ended after %.3f s, the limit is %.3f s", total, limit)
    late = [t for t in out.clock[1:] if t - first[0] >= limit]
    require(not late, "%d iterations started after the time was over", len(late))
    return Info(n_iter > 1, [f"iterations:{min(n_iter, 9)}"])


RULE = (
    "one optimization with generated tolerances and limits; the message is checked against "
    "states, limits and the number of calls of the criterion; non-trivial if at least one "
    "iteration was made"
)
SUBS = [
    Sub("runs", stop_specs, run_stop, 2200, 70_000, RULE),
    Sub(
        "noisy",
        lambda tier: stop_specs(tier, noisy=(True,)),
        run_stop,
        400,
        12_000,
        RULE + " (noisy)",
    ),
    Sub(
        "faults",
        lambda tier: stop_specs(tier, faults=True),
        run_stop,
        400,
        12_000,
        RULE + " (failing evaluations)",
    ),
    Sub("long", long_specs, run_stop, 100, 3_000, RULE + " (long runs)", cpu_limit=300.0),
    Sub("clock", lambda tier: clock_specs(), run_clock, 120, 2_000, RULE),
    Sub(
        "sleep",
        lambda tier: sleep_specs(),
        run_sleep,
        24,
        200,
        "a criterion that sleeps, with a limit on the run time; non-trivial if several "
        "iterations were made",
    ),
]
