"""C06: failing criterion evaluations are survived and never selected."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import e2e
from pbt.core import Info, Sub, require
from pbt.oracles import (
    CONVERGENCE,
    check_bounds,
    check_faults,
    check_recording,
    check_solution,
    check_stop,
)

PROPERTY = "C06"


def warmup():
    e2e.compile_all()


def run_faults(spec):
    out = e2e.run(spec)
    check_faults(spec, out)
    check_recording(out)
    check_solution(spec, out)
    check_bounds(out)
    check_stop(spec, out)
    # the optimization continues: it only stops early for a stated reason
    if out.res["message"] in CONVERGENCE:
        require(bool(out.states[-1].accepted), "stopped by a failed evaluation")
    n = out.crit.n_failed
    share = n / max(1, len(out.crit.calls))
    cl = e2e.classes(spec, out) + [
        "mode:" + spec["faults"]["mode"],
        "rule:" + spec["faults"]["rule"],
        "failed:" + ("none" if n == 0 else "<50%" if share < 0.5 else ">=50%"),
    ]
    return Info(n > 0, cl)


def faults(tier, **kw):
    big = {"max_iter": (3, 40), "dims": (1, 6)} if tier == "thorough" else {}
    return e2e.specs(faults=True, **{**big, **kw})


def run_all_fail(spec):
    """Everything after the start fails: the start is the solution."""
    out = e2e.run(spec)
    check_faults(spec, out)
    check_recording(out)
    require(
        np.array_equal(out.res["solution_x"], out.x0),
        "only the start could be evaluated but %s is returned",
        list(out.res["solution_x"]),
    )
    require(
        all(np.array_equal(s.x, out.x0) for s in out.states), "a failed step was accepted"
    )
    return Info(out.crit.n_failed > 0, e2e.classes(spec, out))


@st.composite
def all_fail(draw):
    spec = draw(e2e.specs(noisy=(False, False, True), max_iter=(2, 10)))
    spec["problem"]["noise"] = 0.0
    spec["options"].pop("n_evals_at_start", None)
    spec["faults"] = {
        "rule": "after",
        "after": 1,
        "mode": draw(st.sampled_from(["exception", "nan", "inf", "mixed"])),
        "partial": draw(st.booleans()),
    }
    return spec


def run_modes(spec):
    """Exceptions, NaN and infinity are the same failure."""
    results = []
    for mode in ("exception", "nan", "inf"):
        s = copy.deepcopy(spec)
        s["faults"]["mode"] = mode
        s["faults"]["partial"] = False
        results.append(e2e.run(s))
    base = results[0]
    for other, mode in zip(results[1:], ("nan", "inf")):
        require(
            len(base.crit.calls) == len(other.crit.calls)
            and all(
                np.array_equal(a, b) for a, b in zip(base.crit.calls, other.crit.calls)
            ),
            "failures by exception and by %s lead to different evaluations",
            mode,
        )
        require(
            np.array_equal(base.res["solution_x"], other.res["solution_x"])
            and base.res["solution_criterion"] == other.res["solution_criterion"],
            "failures by exception and by %s lead to different solutions",
            mode,
        )
    return Info(base.crit.n_failed > 0, e2e.classes(spec, base))


RULE = (
    "one optimization whose criterion raises exceptions or returns NaN or inf at "
    "generated points or calls; non-trivial if at least one evaluation failed"
)
SUBS = [
    Sub("faults", faults, run_faults, 2200, 70_000, RULE),
    Sub(
        "noisy",
        lambda tier: faults(tier, noisy=(True,)),
        run_faults,
        800,
        25_000,
        RULE + " (noisy)",
    ),
    Sub("all_fail", lambda tier: all_fail(), run_all_fail, 250, 8_000, RULE),
    Sub(
        "modes",
        lambda tier: e2e.specs(faults=True, max_iter=(2, 8)),
        run_modes,
        250,
        8_000,
        "the same optimization with the same failures in three forms; non-trivial if "
        "an evaluation failed",
    ),
]
