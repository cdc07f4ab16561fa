"""C20: the recorded iteration trace is self-consistent."""
import numpy as np
from hypothesis import strategies as st

from pbt import e2e, gen
from pbt.core import Info, Sub, require
from pbt.oracles import check_trace

PROPERTY = "C20"


def warmup():
    e2e.compile_all()


def run_trace(spec):
    spec["spy"] = True
    out = e2e.run(spec)
    check_trace(spec, out)
    kinds = {bool(s.accepted) for s in out.states[1:]}
    return Info(
        len(out.states) > 2,
        e2e.classes(spec, out)
        + (["accepted and rejected steps"] if len(kinds) == 2 else [])
        + (
            ["old points discarded"]
            if any(len(s.old_indices_discarded) for s in out.states)
            else []
        ),
    )


def run_models(spec):
    """Models of an optimization with a user-supplied fitter that records its data."""
    calls = []

    def fitter(x, y, model_type):
        calls.append((np.array(x), np.array(y)))
        n = x.shape[1]
        cols = [np.ones(len(x)), *x.T]
        if model_type == "quadratic":
            cols += [x[:, i] * x[:, j] for i in range(n) for j in range(i, n)]
        features = np.column_stack(cols)
        factor = np.array([20.0] + [2.5] * n + [1.0] * (features.shape[1] - n - 1))
        coef = np.linalg.lstsq(features * factor, y, rcond=None)[0].T
        return coef * factor

    spec["options"].pop("model_fitter", None)
    out = e2e.run(spec, model_fitter=fitter)
    residualize = spec["options"]["residualize"]
    functype = spec["problem"]["functype"]
    xs, n_checked = out.history.get_xs(), 0
    for i in range(1, len(out.states)):
        s, prev = out.states[i], out.states[i - 1]
        mi = np.asarray(s.model_indices, dtype=int)
        points = xs[mi]
        mid, half = gen.expand(s.trustregion)
        unit = (points - mid) / half
        tol = 1e-8 * (1 + (np.abs(mid) / half).max())
        match = [
            y for x, y in calls if x.shape == unit.shape and np.abs(x - unit).max() <= tol
        ]
        require(match, "iteration %d: no fit used the model points", i)
        want = np.array([np.mean(v, axis=0) for v in out.history.get_fvecs(mi).values()])
        size = np.abs(want).max() + 1e-300
        if residualize:
            old = prev.vector_model
            # a model is uncertain as far as the positions of the points are
            size += gen.magnitude(old, points)
            want = want - gen.predict_at(old, points).reshape(want.shape)
        require(
            any(np.abs(y - want).max() <= 1e-6 * size for y in match),
            "iteration %d: the model was not fitted to %s",
            i,
            "the deviations from the last model" if residualize else "the evaluations",
        )
        # the recorded vector model is the one behind the recorded model
        probe = np.vstack([points, mid])
        vec = gen.predict_at(s.vector_model, probe)
        got = gen.predict_at(s.model, probe).reshape(-1)
        size = gen.magnitude(s.vector_model, probe)
        if functype == "least_squares":
            sums, scale = (vec**2).sum(axis=1), vec.shape[1] * size**2
        elif functype == "scalar":
            sums, scale = vec[:, 0], size
        else:
            continue
        require(
            np.abs(got - sums).max() <= 1e-9 * scale + 1e-300,
            "iteration %d: the vector model does not belong to the model",
            i,
        )
        n_checked += 1
    return Info(
        n_checked > 1, [functype, "residualized" if residualize else "not residualized"]
    )


@st.composite
def models(draw, tier):
    big = {"max_iter": (3, 40), "dims": (1, 6)} if tier == "thorough" else {}
    spec = draw(
        e2e.specs(functypes=("scalar", "least_squares"), fitters=False, **big)
    )
    spec["options"]["residualize"] = draw(st.booleans())
    return spec


def make(**kw):
    def strategy(tier):
        big = {"max_iter": (3, 40), "dims": (1, 6)} if tier == "thorough" else {}
        return e2e.specs(**{**big, **kw})

    return strategy


RULE = (
    "all states of one generated optimization against its history and each other; "
    "non-trivial if it made at least two iterations"
)
SUBS = [
    Sub("runs", make(), run_trace, 2000, 60_000, RULE),
    Sub("noisy", make(noisy=(True,)), run_trace, 400, 12_000, RULE + " (noisy)"),
    Sub(
        "models",
        models,
        run_models,
        600,
        18_000,
        "data and results of all model fits of one generated optimization with a "
        "user-supplied fitter; non-trivial if at least two models were compared",
    ),
    Sub("faults", make(faults=True), run_trace, 500, 15_000, RULE + " (with failures)"),
]
