"""C23: diagnostic figures show the recorded run."""
import copy
import warnings

import numpy as np
from estimagic.optimization.optimize import minimize
from hypothesis import strategies as st

from tranquilo.clustering import cluster
from tranquilo.visualize import visualize_tranquilo

from pbt import e2e
from pbt.core import Info, Sub, require

PROPERTY = "C23"

COLORS = {"existing": "rgb(0,0,255)", "new": "rgb(230,0,0)", "discarded": "rgb(0,0,0)"}


def solve(spec):
    p = spec["problem"]
    func = e2e.make_function(p["functype"], p["kind"], p["dim"], p["seed"])
    if p["functype"] == "scalar":
        algorithm, criterion = "tranquilo", func
    else:
        algorithm = "tranquilo_ls"

        def criterion(x):
            res = func(x)
            return {"root_contributions": res, "value": float(res @ res)}

    kw = {}
    if p.get("lower") is not None:
        kw["lower_bounds"] = np.array(p["lower"])
    if p.get("upper") is not None:
        kw["upper_bounds"] = np.array(p["upper"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return minimize(
            criterion, np.array(p["x0"]), algorithm, algo_options=e2e.kwargs_of(spec), **kw
        )


def warmup():
    base = {"dim": 2, "seed": 1, "x0": [1.0, 2.0]}
    opts = {"stopping_max_iterations": 4}
    for extra in (
        {"functype": "scalar", "kind": "quad"},
        {"functype": "least_squares", "kind": "linls"},
        {"functype": "scalar", "kind": "quad", "lower": [0.9, 1.9], "upper": [3.0, 3.0]},
    ):
        res = solve({"problem": {**base, **extra}, "options": opts})
        visualize_tranquilo(res, [1])


def frozen(value):
    """A comparable image of (nested) results."""
    if isinstance(value, np.ndarray):
        return (value.shape, value.dtype.str, value.tobytes() if value.dtype != object else None)
    if isinstance(value, dict):
        return {k: frozen(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [frozen(v) for v in value]
    if hasattr(value, "__dataclass_fields__"):
        return {k: frozen(getattr(value, k)) for k in value.__dataclass_fields__}
    if isinstance(value, (float, int, str, bool, type(None))):
        return repr(value)
    if hasattr(value, "__dict__"):
        return {k: frozen(v) for k, v in vars(value).items()}
    return str(type(value))


def numbers(seq):
    return np.array([np.nan if v is None else v for v in seq], dtype=float)


def same(got, want, what, rtol=1e-12):
    got, want = numbers(got), numbers(want)
    require(
        got.shape == want.shape
        and np.allclose(got, want, rtol=rtol, atol=1e-12, equal_nan=True),
        "%s: shown %s, recorded %s",
        what,
        got.tolist()[:8],
        want.tolist()[:8],
    )


def highlighted(traces, it, values, what, rtol=1e-12):
    """A line with the values of all iterations and one marked point."""
    lines = [t for t in traces if t.mode == "lines"]
    marks = [t for t in traces if t.mode == "markers"]
    require(len(lines) == 1 and len(marks) == 1, "%s: %s lines, %s marks", what, len(lines),
            len(marks))
    same(lines[0].x, np.arange(len(values)), f"{what} (iterations)")
    same(lines[0].y, values, what, rtol)
    same(marks[0].x, [it], f"{what} (marked iteration)")
    same(marks[0].y, [values[it]], f"{what} (marked value)", rtol)


def check_column(fig, col, res, it):
    n = len(res.params)
    states = res.algorithm_output["states"]
    state = states[it]
    xs = np.array(res.history["params"])
    fs = np.array(res.history["criterion"])
    discarded = np.asarray(
        [] if state.old_indices_discarded is None else state.old_indices_discarded, dtype=int
    )
    groups = {
        "existing": np.asarray(state.old_indices_used, dtype=int),
        "new": np.asarray(state.new_indices, dtype=int),
        "discarded": discarded,
    }

    def panel(row):
        sub = fig.get_subplot(row=row, col=col)
        ax = sub.xaxis.plotly_name.replace("xaxis", "x")
        return [t for t in fig.data if (t.xaxis or "x") == ax], ax, sub

    # points
    traces, ax, _ = panel(1)
    if n <= 2:
        shown = {}
        for t in traces:
            y = t.y
            pts = np.column_stack([numbers(t.x), numbers(y)])
            require(t.name in groups, "points are shown as %r", t.name)
            require(t.name not in shown, "two series %r", t.name)
            require(t.marker.color == COLORS[t.name], "color of %s", t.name)
            shown[t.name] = pts
        for name, ids in groups.items():
            pts = shown.get(name, np.empty((0, 2)))
            want = xs[ids]
            if n == 1:
                want = np.column_stack([want[:, 0], np.zeros(len(ids))])
            require(len(pts) == len(want), "%s %s points are shown, %s recorded", len(pts), name,
                    len(want))
            a = pts[np.lexsort(pts.T)] if len(pts) else pts
            b = want[np.lexsort(want.T)] if len(want) else want
            same(a.ravel(), b.ravel(), f"{name} points")
        circles = [s for s in fig.layout.shapes if s.type == "circle" and s.xref == ax]
        require(len(circles) == 1, "%s circles in the point panel", len(circles))
        c = circles[0]
        r = state.trustregion.radius
        mid = np.append(state.trustregion.center, 0.0)[:2]
        same([c.x0, c.x1, c.y0, c.y1], [mid[0] - r, mid[0] + r, mid[1] - r, mid[1] + r],
             "trust region", 1e-9)
    else:
        maps = [t for t in traces if t.type == "heatmap"]
        require(len(maps) == 1 and len(traces) == 1, "%s heatmaps", len(maps))
        z = np.array([numbers(row) for row in maps[0].z])
        require(z.shape == (n, n), "heatmap of shape %s", z.shape)
        ids = np.concatenate([np.asarray(state.model_indices, dtype=int), discarded])
        pts = xs[ids]
        sd = pts.std(axis=0)
        for i in range(n):
            for j in range(i):
                if len(ids) < 2 or min(sd[i], sd[j]) < 1e-10 * np.abs(pts).max():
                    continue
                want = abs(np.corrcoef(pts[:, i], pts[:, j])[0, 1])
                shown = [v for v in (z[i, j], z[j, i]) if not np.isnan(v)]
                require(shown, "correlation of %s and %s is not shown", i, j)
                for v in shown:
                    require(abs(v - want) < 1e-6, "correlation of %s and %s: shown %r, is %r",
                            i, j, v, want)

    # distances
    rel = (xs[np.asarray(state.model_indices, dtype=int)] - state.trustregion.center)
    rel = rel / state.trustregion.radius
    dists = [np.linalg.norm(rel, axis=1), np.abs(rel).max(axis=1)]
    for row, want in zip((2, 3), dists):
        traces, _, sub = panel(row)
        require(len(traces) == 1, "%s series of distances", len(traces))
        same(np.sort(numbers(traces[0].x)), np.sort(want), f"distances in row {row}", 1e-9)
        lo, hi = sub.xaxis.range
        require(lo <= want.min() and want.max() <= hi, "distances outside of the axis range")

    # criterion
    traces, _, _ = panel(4)
    by_name = {}
    for t in traces:
        key = (t.name or "").strip()
        require(key not in by_name, "two series %r in the criterion panel", key)
        by_name[key] = t
    same(by_name["Criterion"].x, np.arange(len(fs)), "evaluations")
    same(by_name["Criterion"].y, fs, "criterion")
    for name, ids in groups.items():
        t = by_name[name]
        x = numbers([] if t.x is None else t.x)
        y = numbers([] if t.y is None else t.y)
        order = np.argsort(x)
        same(x[order], np.sort(ids), f"{name} evaluations")
        same(y[order], fs[np.sort(ids)], f"{name} values")
        if len(ids):
            require(t.marker.color == COLORS[name], "color of %s", name)
    same(by_name["current index"].x, [state.index], "accepted evaluation")
    same(by_name["current index"].y, [fs[state.index]], "accepted value")

    # rho, radius, clusters, fekete
    rhos = numbers([s.rho for s in states])
    rhos = np.where(np.isnan(rhos), np.nan, np.clip(rhos, -1, 3))
    highlighted(panel(5)[0], it, rhos, "rho")
    highlighted(panel(6)[0], it, [s.trustregion.radius for s in states], "radius")
    traces = panel(7)[0]
    for f in (1, 2, 10):
        want = [np.nan]
        for s in states[1:]:
            ids = np.asarray(s.model_indices, dtype=int)
            r = s.trustregion.radius * (1 / (f * len(ids))) ** (1 / n)
            want.append(len(cluster(xs[ids], r)[1]) / len(ids))
        highlighted([t for t in traces if t.name == f"s={f}*n"], it, want, f"clusters {f}")
    want = [np.nan]
    for s in states[1:]:
        unit = s.trustregion.map_to_unit(xs[np.asarray(s.model_indices, dtype=int)])
        sv = np.linalg.svd(unit, compute_uv=False) if len(unit) >= n else np.zeros(n)
        clear = sv[-1] > 1e-4 * sv[0]
        want.append(2 * np.log(sv).sum() if clear else None)
    lines = [t for t in panel(8)[0] if t.mode == "lines"]
    require(len(lines) == 1 and len(lines[0].y) == len(states), "fekete")
    got = numbers(lines[0].y)
    for i, w in enumerate(want):
        if w is not None:
            require((np.isnan(got[i]) and np.isnan(w)) or abs(got[i] - w) < 1e-6 * max(1, abs(w)),
                    "fekete criterion of iteration %s: shown %r, is %r", i, got[i], w)
    highlighted(panel(8)[0], it, list(got), "fekete")
    out = ["discarded" if len(discarded) else "nothing discarded"]
    out.append("new" if len(groups["new"]) else "no new")
    return out


def sequential(res):
    hist = res.algorithm_output["tranquilo_history"]
    xs = np.array(res.history["params"])
    return hist.get_n_fun() == len(xs) == hist.get_n_xs() and np.array_equal(hist.get_xs(), xs)


def run_figure(spec):
    results = {}
    for k, s in enumerate(spec["runs"]):
        res = solve(s)
        if not sequential(res):
            return Info(False, ["not sequential"])
        results[f"run {k}"] = res
    mode = spec["mode"]
    n_min = min(len(r.algorithm_output["states"]) for r in results.values())
    picks = [i % n_min for i in spec["iterations"]]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        before = frozen(results)
        if mode == "one":
            its = list(dict.fromkeys(picks))
            res = results["run 0"]
            arg = tuple(its) if spec["tuple"] else its
            fig = visualize_tranquilo(res, arg)
            cols = [(res, i) for i in its]
            titles = [f"iteration {i}" for i in its]
        elif mode == "same":
            fig = visualize_tranquilo(results, picks[0])
            cols = [(r, picks[0]) for r in results.values()]
            titles = list(results)
        else:
            its = {k: i for k, i in zip(results, picks + picks)}
            fig = visualize_tranquilo(results, dict(its))
            cols = [(results[k], i) for k, i in its.items()]
            titles = list(results)
    require(frozen(results) == before, "drawing modified the result")
    got = [a.text for a in fig.layout.annotations][: len(titles)]
    require(got == titles, "titles %s, expected %s", got, titles)
    labels = [mode, f"columns:{len(cols)}"]
    n_traces = 0
    for c, (res, it) in enumerate(cols):
        labels += check_column(fig, c + 1, res, it)
        labels.append(f"dim:{min(3, len(res.params))}")
        labels.append("first state" if it == 0 else "later state")
        shape = res.algorithm_output["states"][it].trustregion.shape
        labels.append(shape)
    return Info(any(i > 0 for _, i in cols), labels)


@st.composite
def one_run(draw):
    p = draw(e2e.problems(("scalar", "least_squares"), (1, 4), ("none", "some")))
    p.pop("returns", None)
    o = {"stopping_max_iterations": draw(st.integers(1, 10))}
    o["disable_convergence"] = draw(st.booleans())
    o["sampler"] = "random_hull"
    o["seed"] = draw(st.integers(0, 1000))
    if draw(st.booleans()):
        o["sample_filter"] = draw(
            st.sampled_from(["keep_all", "drop_excess", "clustering", "discard_all"])
        )
        if o["sample_filter"] == "drop_excess":
            o["sample_filter_options"] = {"n_max_factor": draw(st.sampled_from([1, 2]))}
        if o["sample_filter"] == "clustering":
            o["sample_filter_options"] = {"strictness": draw(st.sampled_from([1e-10, 0.1, 1.0]))}
    if draw(st.booleans()):
        o["stagnation_options"] = {
            "min_relative_step_keep": draw(st.sampled_from([0.125, 0.5])),
            "drop": draw(st.booleans()),
        }
    return {"problem": p, "options": o}


@st.composite
def figures(draw, tier):
    mode = draw(st.sampled_from(["one", "one", "same", "each"]))
    k = 1 if mode == "one" else draw(st.integers(1, 2))
    return {
        "mode": mode,
        "runs": [draw(one_run()) for _ in range(k)],
        "iterations": draw(st.lists(st.sampled_from(range(1, 14)), min_size=1, max_size=3)),
        "tuple": draw(st.booleans()),
    }


SUBS = [
    Sub("figure", figures, run_figure, quick=900, thorough=40000,
        rule="a figure shows an iteration after the first state"),
]
