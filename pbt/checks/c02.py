"""C02: the reported solution is the best accepted point, truthfully reported."""
import numpy as np
from hypothesis import strategies as st

from pbt import e2e
from pbt.core import Info, Sub, require
from pbt.oracles import check_solution, min_improvement, ordered_values

PROPERTY = "C02"


def warmup():
    e2e.compile_all()


def counts(out):
    acc = sum(bool(s.accepted) for s in out.states[1:])
    return acc, len(out.states) - 1 - acc


def run_plain(spec):
    out = e2e.run(spec)
    check_solution(spec, out)
    acc, rej = counts(out)
    return Info(
        acc >= 1,
        e2e.classes(spec, out) + (["accepted and rejected steps"] if acc and rej else []),
    )


def run_line_search(spec):
    """With a line search the whole last batch of an iteration competes."""
    out = e2e.run(spec)
    check_solution(spec, out)
    starts = out.iteration_starts + [out.history.get_n_fun()]
    values = ordered_values(out)
    sizes, ends, pos = [], [], 0
    for b in out.evaluator.batches:
        pos += len(b["xs"])
        sizes.append(len(b["xs"]))
        ends.append(pos)
    mi = min_improvement(spec)
    eps = 0.0
    if spec["options"].get("n_evals_per_point", 1) > 1:
        eps = 1e-13 * max(abs(v) for v in values if np.isfinite(v))
    f = float(out.res["solution_criterion"])
    several = False
    for i in range(1, len(out.states)):
        end = starts[i]
        if end not in ends:
            continue
        size = sizes[ends.index(end)]
        batch = [v for v in values[end - size : end] if np.isfinite(v)]
        several |= size > 1
        s, prev = out.states[i], out.states[i - 1]
        if batch and prev.fval - min(batch) >= mi + eps:
            require(
                s.fval <= min(batch) + eps and f <= min(batch) + eps,
                "iteration %d: the line search found %r but %r was kept",
                i,
                min(batch),
                s.fval,
            )
    acc, _ = counts(out)
    return Info(acc >= 1 and several, e2e.classes(spec, out))


def plain(tier):
    big = {"max_iter": (3, 40), "dims": (1, 6)} if tier == "thorough" else {}
    return e2e.specs(scales=(1.0, 1.0, 1e-6, 1e6), **big)


def noisy(tier):
    big = {"max_iter": (3, 30), "dims": (1, 6)} if tier == "thorough" else {}
    return e2e.specs(noisy=(True,), **big)


@st.composite
def line_search(draw, tier):
    spec = draw(e2e.specs(scales=(1.0, 1e-6, 1e6), faults=draw(st.booleans())))
    o = spec["options"]
    spec["spy"] = True
    o["batch_size"] = draw(st.integers(2, 10))
    o["acceptance_decider"] = "classic_line_search"
    spec["evaluator"] = {
        "kind": "own",
        "order": draw(st.sampled_from(["forward", "reverse", "random"])),
    }
    if "n_cores" in o:
        o["n_cores"] = min(o["n_cores"], o["batch_size"])
    return spec


RULE = (
    "one optimization of a generated criterion with generated options; the solution, all "
    "trial steps and accepted values are compared with the log of criterion calls; "
    "non-trivial if a step was accepted"
)
SUBS = [
    Sub("deterministic", plain, run_plain, 2500, 80_000, RULE),
    Sub("noisy", noisy, run_plain, 700, 20_000, RULE + " (averages of evaluations)"),
    Sub("line_search", line_search, run_line_search, 900, 30_000, RULE),
]
