"""C12: moving, adding and aggregating models preserves their predictions."""
import numpy as np
from hypothesis import strategies as st

from tranquilo.aggregate_models import get_aggregator
from tranquilo.models import ScalarModel, VectorModel, add_models, move_model

from pbt import gen
from pbt.core import Info, Sub, Violation, require

PROPERTY = "C12"


def probes(rng, *regions):
    """Points of the parameter space in and around the regions."""
    out = []
    for r in regions:
        mid, half = gen.expand(r)
        out.append(mid[None])
        out.append(r.center[None])
        out.append(mid + half * rng.uniform(-2, 2, size=(6, len(mid))))
    return np.vstack(out)


def close(a, b, size, rtol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool((np.abs(a - b) <= rtol * size + 1e-300).all())


def check_on(model, region, what):
    require(
        np.allclose(
            model.shift,
            region.effective_center,
            rtol=1e-9,
            atol=1e-9 * (region.radius + np.abs(region.center).max()),
        ),
        "%s: shift %s instead of %s",
        what,
        model.shift,
        region.effective_center,
    )
    require(
        np.allclose(model.scale, region.effective_radius, rtol=1e-9, atol=0)
        and np.shape(model.scale) in (np.shape(region.effective_radius), region.center.shape),
        "%s: scale %s instead of %s",
        what,
        model.scale,
        region.effective_radius,
    )


def run_move(spec):
    rng = np.random.default_rng(spec["seed"])
    old, new = gen.build_region(spec["old"]), gen.build_region(spec["new"])
    model = gen.build_model(
        rng, old, spec["n_res"], spec["quadratic"], spec["scalar"], spec["size"]
    )
    before = gen.snapshot(model)
    x = probes(rng, old, new)
    size = gen.magnitude(model, x)
    # rounding of the coordinates is amplified if the regions are small
    far = max(np.abs(r.center).max() / np.min(r.effective_radius) for r in (old, new))
    size *= 1 + 1e-5 * far
    want = gen.predict_at(model, x)
    moved = move_model(model, new)
    require(gen.same_snapshot(before, gen.snapshot(model)), "the model was modified")
    require(type(moved) is type(model), "the type of model changed")
    check_on(moved, new, "moved model")
    require(
        (moved.square_terms is None) == (model.square_terms is None),
        "second order terms appeared or vanished",
    )
    got = gen.predict_at(moved, x)
    require(
        close(got, want, size),
        "predictions changed by up to %r (size of terms %r)",
        float(np.abs(got - want).max()),
        size,
    )
    # the library's own prediction, in the unit coordinates of the region
    unit = new.map_to_unit(x)
    lib = np.asarray(moved.predict(unit)).reshape(len(x), -1)
    require(close(lib, want, size * 10), "predict after map_to_unit differs")
    one = np.asarray(moved.predict(unit[0])).reshape(1, -1)
    require(close(one, want[:1], size * 10), "prediction of a single point differs")
    if spec["scalar"]:
        require(np.ndim(moved.predict(unit[0])) == 0, "scalar prediction is not a number")
    else:
        require(moved.predict(unit).shape == (len(x), spec["n_res"]), "prediction shape")
        require(moved.predict(unit[0]).shape == (spec["n_res"],), "prediction shape")
    # there and back
    back = move_model(moved, old)
    check_on(back, old, "model moved back")
    require(
        close(gen.predict_at(back, x), want, size + gen.magnitude(moved, x)),
        "moving there and back changed the predictions",
    )
    require(gen.same_snapshot(before, gen.snapshot(model)), "the model was modified")
    cl = [
        f"{old.shape} to {new.shape}",
        "scalar" if spec["scalar"] else "vector",
        "quadratic" if spec["quadratic"] else "linear",
        f"dim:{len(old.center)}",
    ]
    return Info(spec["old"] != spec["new"], cl)


def run_add(spec):
    rng = np.random.default_rng(spec["seed"])
    reg = gen.build_region(spec["old"])
    models = [
        gen.build_model(rng, reg, spec["n_res"], q, spec["scalar"], spec["size"])
        for q in (spec["quadratic"], spec["quadratic2"])
    ]
    before = [gen.snapshot(m) for m in models]
    x = probes(rng, reg)
    total = add_models(*models)
    require(type(total) is type(models[0]), "type of the sum")
    require(
        (total.square_terms is None) == (not spec["quadratic"] and not spec["quadratic2"]),
        "second order terms appeared or vanished",
    )
    check_on(total, reg, "sum of models")
    size = sum(gen.magnitude(m, x) for m in models)
    require(
        close(
            gen.predict_at(total, x), sum(gen.predict_at(m, x) for m in models), size, 1e-12
        ),
        "the prediction of the sum is not the sum of predictions",
    )
    swapped = add_models(models[1], models[0])
    require(
        close(gen.predict_at(swapped, x), gen.predict_at(total, x), size, 1e-12),
        "the order of models matters",
    )
    # a model on a different region cannot be added
    other = dict(spec["old"])
    if spec["how"] == "scale":
        other["radius"] = reg.radius * spec["factor"]
        other["lower"] = other["upper"] = None
    else:
        other["center"] = list(other["center"])
        half = np.broadcast_to(reg.effective_radius, reg.center.shape)
        k = spec["coord"] % len(reg.center)
        other["center"][k] += (spec["factor"] - 0.99) * 10 * half.max()
        other["lower"] = other["upper"] = None
    reg2 = gen.build_region(other)
    base = gen.build_region({**spec["old"], "lower": None, "upper": None})
    # only clearly different regions count
    differs = np.abs(reg2.center - base.center).max() > 0.05 * max(
        base.radius, 1e-4 * np.abs(base.center).max()
    ) or not (0.9 < reg2.radius / base.radius < 1.1)
    if differs and base.radius > 1e-5:
        a = gen.build_model(rng, base, spec["n_res"], spec["quadratic"], spec["scalar"])
        b = gen.build_model(rng, reg2, spec["n_res"], spec["quadratic2"], spec["scalar"])
        for pair in ((a, b), (b, a)):
            try:
                add_models(*pair)
            except (ValueError, TypeError):
                pass
            else:
                raise Violation("models on different regions were added")
    mixed = gen.build_model(rng, reg, spec["n_res"], True, not spec["scalar"])
    try:
        add_models(models[0], mixed)
    except (ValueError, TypeError):
        pass
    else:
        raise Violation("a scalar and a vector model were added")
    for m, b in zip(models, before):
        require(gen.same_snapshot(b, gen.snapshot(m)), "a summand was modified")
    cl = [
        "scalar" if spec["scalar"] else "vector",
        f"square terms: {spec['quadratic']}+{spec['quadratic2']}",
        f"{reg.shape}",
        "different " + spec["how"] if differs else "not different enough",
    ]
    return Info(True, cl)


def run_aggregate(spec):
    rng = np.random.default_rng(spec["seed"])
    reg = gen.build_region(spec["old"])
    kind = spec["aggregator"]
    n_res = 1 if kind == "identity" else spec["n_res"]
    quadratic = {"identity": spec["quadratic"], "sum": True}.get(kind, False)
    vec = gen.build_model(rng, reg, n_res, quadratic, False, spec["size"])
    n = len(reg.center)
    if spec["sparse"] and n_res > 1:
        vec.linear_terms[rng.integers(n_res)] = 0
        vec.intercepts[rng.integers(n_res)] = 0
    before = gen.snapshot(vec)
    out = get_aggregator(kind)(vec)
    require(gen.same_snapshot(before, gen.snapshot(vec)), "the vector model was modified")
    require(isinstance(out, ScalarModel), "%s is not a scalar model", type(out).__name__)
    check_on(out, reg, "aggregated model")
    require(np.shape(out.linear_terms) == (n,), "shape of linear terms")
    require(np.shape(out.square_terms) == (n, n), "shape of square terms")
    require(np.ndim(out.intercept) == 0, "the intercept is no number")
    scale = np.abs(out.square_terms).max() + 1e-300
    require(
        np.abs(out.square_terms - out.square_terms.T).max() <= 1e-12 * scale,
        "second order terms are not symmetric",
    )
    x = probes(rng, reg)
    resid = gen.predict_at(vec, x)
    got = gen.predict_at(out, x)[:, 0]
    size = gen.magnitude(vec, x)
    if kind == "least_squares_linear":
        want, tol = (resid**2).sum(axis=1), 1e-10 * n_res * size**2
    elif kind == "information_equality_linear":
        u = (x - vec.shift) / vec.scale
        scores = u @ vec.linear_terms.T
        want = resid.sum(axis=1) - 0.25 * (scores**2).sum(axis=1)
        tol = 1e-10 * n_res * (size + size**2)
    else:
        want, tol = resid.sum(axis=1), 1e-10 * n_res * size
    require(
        bool((np.abs(got - want) <= tol).all()),
        "%s: aggregated predictions %s instead of %s",
        kind,
        got[:4],
        want[:4],
    )
    lib = out.predict(reg.map_to_unit(x))
    require(bool((np.abs(lib - want) <= 100 * tol).all()), "predict of the aggregated model")
    # the order of residuals does not matter, splitting them adds up
    order = rng.permutation(n_res)
    perm = VectorModel(
        vec.intercepts[order],
        vec.linear_terms[order],
        None if vec.square_terms is None else vec.square_terms[order],
        scale=vec.scale,
        shift=vec.shift,
    )
    again = gen.predict_at(get_aggregator(kind)(perm), x)[:, 0]
    require(bool((np.abs(again - want) <= tol).all()), "the order of residuals matters")
    return Info(True, [kind, reg.shape, f"residuals:{n_res}", f"dim:{n}"])


@st.composite
def base(draw):
    n = draw(st.integers(1, 5))
    return {
        "old": draw(gen.region_specs(n)),
        "new": draw(gen.region_specs(n)),
        "n_res": draw(st.integers(1, 5)),
        "quadratic": draw(st.booleans()),
        "scalar": draw(st.booleans()),
        "size": draw(st.sampled_from([1.0, 1.0, 1e-4, 1e5])),
        "seed": draw(st.integers(0, 9999)),
    }


@st.composite
def moves(draw):
    spec = draw(base())
    old, new = spec["old"], spec["new"]
    n = len(old["center"])
    # put the new region somewhere around the old one, up to far away or much smaller
    far = old["radius"] * draw(st.sampled_from([1.0, 1.0, 30.0, 0.1, 1e-3, 1e-6]))
    factors = [1.0, 0.5, 2.0, 0.01, 50.0, 1 + 1e-3, 1 - 1e-6]
    radius = old["radius"] * draw(st.sampled_from(factors))
    # parameters that are large compared to the region
    offset = draw(st.sampled_from([0.0, 0.0, 1e3, -1e6])) * old["radius"]
    for key in ("center", "lower", "upper"):
        if old[key] is not None:
            old[key] = [c + offset for c in old[key]]
    step = [draw(st.sampled_from([0.0, 0.5, -1.0, 1.0])) for _ in range(n)]
    center = [c + s * far for c, s in zip(old["center"], step)]
    for key in ("lower", "upper"):
        if new[key] is not None:
            new[key] = [
                c + (b - d) / new["radius"] * radius
                for c, b, d in zip(center, new[key], new["center"])
            ]
    new["center"], new["radius"] = center, radius
    return spec


@st.composite
def sums(draw):
    return {
        **draw(base()),
        "quadratic2": draw(st.booleans()),
        "how": draw(st.sampled_from(["scale", "shift"])),
        "factor": draw(st.sampled_from([0.5, 2.0, 0.8, 1.25, 10.0])),
        "coord": draw(st.integers(0, 4)),
    }


@st.composite
def aggregations(draw):
    return {
        **draw(base()),
        "aggregator": draw(
            st.sampled_from(
                ["identity", "sum", "least_squares_linear", "information_equality_linear"]
            )
        ),
        "sparse": draw(st.booleans()),
    }


SUBS = [
    Sub(
        "move",
        lambda tier: moves(),
        run_move,
        12_000,
        600_000,
        "a random model moved between balls and cubes, compared at points of the parameter "
        "space in and around both; non-trivial if the regions differ",
    ),
    Sub(
        "add",
        lambda tier: sums(),
        run_add,
        8_000,
        400_000,
        "two models on one region (and two on clearly different regions, which must be "
        "rejected); every case is non-trivial",
    ),
    Sub(
        "aggregate",
        lambda tier: aggregations(),
        run_aggregate,
        10_000,
        500_000,
        "a vector model and each aggregator, compared with the documented formula at "
        "generated points; every case is non-trivial",
    ),
]
