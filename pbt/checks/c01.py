"""C01: parameter bounds are never violated; bounds that never bind do nothing."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import e2e
from pbt.core import Info, Sub, require
from pbt.oracles import check_bounds, close

PROPERTY = "C01"


def warmup():
    e2e.compile_all()


def touches(out):
    """How close the run came to its bounds."""
    xs = np.array(out.crit.calls)
    hit = False
    for b in (out.lower, out.upper):
        if b is not None:
            hit |= bool((np.abs(xs[1:] - b) <= 1e-9).any())
    return hit


def run_bounded(spec):
    out = e2e.run(spec)
    check_bounds(out)
    hit = touches(out)
    cl = e2e.classes(spec, out) + (["evaluated on a bound"] if hit else [])
    return Info(hit or any(s.trustregion.shape == "cube" for s in out.states), cl)


@st.composite
def wide_specs(draw):
    spec = draw(e2e.specs(bounds=("none",), faults=False, max_iter=(3, 10)))
    n = spec["problem"]["dim"]
    how = draw(st.sampled_from(["infinite", "lower", "upper", "huge", "mixed"]))
    inf, big = np.inf, 1e7
    lo = [-inf] * n
    up = [inf] * n
    if how == "lower":
        up = None
    elif how == "upper":
        lo = None
    elif how == "huge":
        lo, up = [-big] * n, [big] * n
    elif how == "mixed":
        lo = [draw(st.sampled_from([-inf, -big])) for _ in range(n)]
        up = [draw(st.sampled_from([inf, big])) for _ in range(n)]
    spec["wide"] = {"lower": lo, "upper": up}
    return spec


def run_wide(spec):
    """Bounds that never come near the search do not change the evaluations."""
    base = e2e.run(spec)
    xs = np.array(base.crit.calls)
    if np.abs(xs).max() > 1e5 or max(s.trustregion.radius for s in base.states) > 1e5:
        return Info(False, ["left the harmless area"])
    bounded = copy.deepcopy(spec)
    bounded["problem"].update(spec["wide"])
    out = e2e.run(bounded)
    check_bounds(out)
    ys = np.array(out.crit.calls)
    require(
        len(xs) == len(ys),
        "%d evaluations without bounds but %d with bounds that cannot bind",
        len(xs),
        len(ys),
    )
    require(
        close(xs, ys, 1e-7, 1e-9),
        "bounds that cannot bind change the evaluated points",
    )
    require(
        close(base.res["solution_x"], out.res["solution_x"], 1e-7, 1e-9),
        "bounds that cannot bind change the solution",
    )
    finite = any(
        v is not None and np.isfinite(v).any()
        for v in (spec["wide"]["lower"], spec["wide"]["upper"])
    )
    return Info(True, e2e.classes(spec, out) + [f"finite:{finite}"])


def bounded_specs(tier):
    big = {"max_iter": (3, 40), "dims": (1, 6)} if tier == "thorough" else {}
    return e2e.specs(bounds=("some",), scales=(1.0, 1.0, 1e-3, 1e3), **big)


def hard_specs(tier):
    big = {"max_iter": (3, 40), "dims": (1, 6)} if tier == "thorough" else {}
    return st.booleans().flatmap(
        lambda noisy: e2e.specs(
            bounds=("some",), noisy=(noisy,), faults=True, **big
        )
        if noisy
        else e2e.specs(bounds=("some",), faults=True, **big)
    )


@st.composite
def line_search_specs(draw, tier):
    spec = draw(e2e.specs(bounds=("some",), functypes=("least_squares", "scalar")))
    o = spec["options"]
    spec.pop("noisy", None)
    o["batch_size"] = draw(st.integers(2, 10))
    o["acceptance_decider"] = "classic_line_search"
    if "n_cores" in o:
        o["n_cores"] = min(o["n_cores"], o["batch_size"])
    o["radius_options"] = {"initial_radius": draw(st.sampled_from([0.1, 1.0, 3.0]))}
    return spec


RULE = (
    "an optimization with generated bounds, start, criterion and components; non-trivial "
    "if a point on a bound was evaluated or a region met the bounds"
)
SUBS = [
    Sub("runs", bounded_specs, run_bounded, 2000, 60_000, RULE),
    Sub(
        "hard",
        hard_specs,
        run_bounded,
        1200,
        40_000,
        RULE + " (with failing or noisy evaluations)",
    ),
    Sub(
        "line_search",
        line_search_specs,
        run_bounded,
        700,
        25_000,
        RULE + " (large batches with line search)",
    ),
    Sub(
        "wide",
        lambda tier: wide_specs(),
        run_wide,
        600,
        20_000,
        "the same optimization without bounds and with infinite or far away bounds; "
        "non-trivial if the search stayed in the area where they cannot bind",
    ),
]
