"""C11: fitted surrogate models satisfy their defining optimality conditions."""
import numpy as np
from hypothesis import strategies as st

from tranquilo.fit_models import get_fitter
from tranquilo.handle_infinity import get_infinity_handler
from tranquilo.models import VectorModel, move_model

from pbt import gen
from pbt.core import Info, Sub, require

PROPERTY = "C11"

DEFAULTS = {
    "l2_penalty_linear": 0.0,
    "l2_penalty_square": 0.1,
    "p_intercept": 0.05,
    "p_linear": 0.4,
    "p_square": 1.0,
}


def features(u, model_type):
    n = u.shape[1]
    cols = [np.ones(len(u))] + [u[:, i] for i in range(n)]
    if model_type == "quadratic":
        cols += [u[:, i] * u[:, j] for i in range(n) for j in range(i, n)]
    return np.column_stack(cols)


def coefs(c, g, h, model_type):
    """Coefficients of the monomials, one row per residual."""
    n_res, n = g.shape
    out = [c.reshape(n_res, 1), g]
    if model_type == "quadratic":
        for i in range(n):
            for j in range(i, n):
                v = h[:, i, j] if i != j else h[:, i, i] / 2
                out.append(v.reshape(n_res, 1))
    return np.hstack(out)


def split_spectrum(a):
    """Singular values and a clear rank, or None if the rank is not clear."""
    s = np.linalg.svd(a, compute_uv=False)
    top = s[0] if len(s) else 0.0
    if top == 0:
        return None
    r = s / top
    if ((r > 1e-13) & (r < 1e-5)).any():
        return None
    rank = int((r >= 1e-5).sum())
    return rank, s[rank - 1], top


def near(got, want, scale, rtol=1e-7):
    return bool((np.abs(got - want) <= rtol * scale).all())


def min_norm(f, y, factor=None):
    """Least-squares solution of minimal (scaled) norm and the sensitivity of it."""
    factor = np.ones(f.shape[1]) if factor is None else factor
    clear = split_spectrum(f * factor)
    if clear is None:
        return None
    u, s, vt = np.linalg.svd(f * factor, full_matrices=False)
    r = clear[0]
    sol = (vt[:r].T / s[:r]) @ (u[:, :r].T @ y)
    cond = s[0] / s[r - 1]
    return (sol * factor[:, None]).T, cond, np.abs(y).max() / s[r - 1] * factor.max()


def min_frobenius(u, y):
    """Interpolating quadratic with the smallest hessian, by its KKT system."""
    n = u.shape[1]
    f = features(u, "quadratic")
    m, q = f[:, : n + 1], f[:, n + 1 :]
    k = len(u)
    # |H|_F^2 as a function of the monomial coefficients
    norm = np.array([4.0 if i == j else 2.0 for i in range(n) for j in range(i, n)])
    if split_spectrum(m) is None or split_spectrum(m)[0] < n + 1:
        return None
    clear = split_spectrum(f)
    if clear is None or clear[0] < k:
        return None
    a = np.block([[(q / norm) @ q.T, m], [m.T, np.zeros((n + 1, n + 1))]])
    s = np.linalg.svd(a, compute_uv=False)
    if s[-1] < 1e-7 * s[0]:
        return None
    sol = np.linalg.solve(a, np.vstack([y, np.zeros((n + 1, y.shape[1]))]))
    square = (q / norm).T @ sol[:k]
    return np.vstack([sol[k:], square]).T, s[0] / s[-1], np.abs(y).max() / s[-1]


def make_points(spec, rng, region):
    n = len(region.center)
    k = spec["n_points"]
    unit = gen.unit_points(rng, region.shape, k, n)
    if spec["spread"] == "wide":
        unit = unit * 4.0
    elif spec["spread"] == "hull":
        size = np.abs(unit).max(axis=1) if region.shape == "cube" else np.linalg.norm(unit, axis=1)
        unit = unit / size[:, None]
    elif spec["spread"] == "grid":
        unit = np.round(unit * 2) / 2
    if spec["duplicate"] and k > 1:
        for _ in range(max(1, int(spec["duplicate"] * k))):
            unit[rng.integers(k)] = unit[rng.integers(k)]
    if spec["center_in"]:
        unit[0] = 0.0
    mid, half = gen.expand(region)
    return mid + half * unit


def make_values(spec, rng, region, x):
    """Residuals at the points, and the polynomial they come from (or None)."""
    k = len(x)
    size = spec["size"]
    if spec["data"] == "random":
        return size * rng.normal(size=(k, spec["n_res"])) + spec["level"] * size, None
    true = gen.build_model(
        rng, region, spec["n_res"], spec["data"] == "quadratic", False, size
    )
    return gen.predict_at(true, x), true


def run_fit(spec):
    rng = np.random.default_rng(spec["seed"])
    region = gen.build_region(spec["region"])
    n, n_res = len(region.center), spec["n_res"]
    x = make_points(spec, rng, region)
    y, true = make_values(spec, rng, region, x)
    k = len(x)
    model_type, name = spec["model_type"], spec["fitter"]
    n_inf = min(spec["n_inf"], k - 1)
    bad = np.zeros(k, dtype=bool)
    if n_inf > 0:
        bad[rng.choice(k, n_inf, replace=False)] = True
        cells = bad[:, None] & ((rng.uniform(size=y.shape) < 0.7) | spec["inf_rows"])
        y = np.where(cells, spec_inf(spec, rng, y.shape), y)
        if cells.any():
            true = None
    old = None
    if spec["residualize"]:
        old_region = gen.build_region(spec["old_region"])
        old = gen.build_model(rng, old_region, n_res, spec["old_quadratic"], False, spec["size"])
    weights = rng.uniform(0.2, 3.0, size=k) if spec["weights"] else None
    if name == "powell":
        weights = None
    options = spec["options"]
    handled = []

    def handler(v):
        handled.append(np.copy(v))
        return get_infinity_handler("relative")(v)

    fit = get_fitter(
        name,
        fitter_options=options,
        model_type=model_type,
        residualize=spec["residualize"],
        infinity_handling=handler if spec["own_handler"] else "relative",
    )
    args = {"x": x.copy(), "y": y.copy()}
    old_before = gen.snapshot(old) if old is not None else None

    def call(xx, yy, old_model, ww):
        if ww is None and not spec["pass_none"]:
            return fit(xx, yy, region, old_model)
        return fit(xx, yy, region, old_model, weights=ww)

    model = call(x, y, old, weights)
    # form of the result
    require(isinstance(model, VectorModel), "%s returned", type(model).__name__)
    c, g, h = gen.parts(model)
    require(c.shape == (n_res,) and g.shape == (n_res, n), "shape of the coefficients")
    quadratic = model_type == "quadratic" or (old is not None and spec["old_quadratic"])
    require((h is not None) == quadratic, "second order terms of a %s model", model_type)
    if h is not None:
        require(h.shape == (n_res, n, n), "shape of the second order terms")
        require(np.array_equal(h, h.transpose(0, 2, 1)) or near(h, h.transpose(0, 2, 1), np.abs(h).max(), 1e-12), "not symmetric")
    for part in (c, g, h):
        require(part is None or np.isfinite(part).all(), "coefficients are not finite")
    require(
        np.allclose(model.shift, region.effective_center, rtol=1e-12, atol=1e-9 * region.radius)
        and np.allclose(model.scale, region.effective_radius, rtol=1e-9, atol=0),
        "the model is not on the region",
    )
    require(
        np.array_equal(x, args["x"]) and np.array_equal(y, args["y"], equal_nan=True),
        "the data were modified",
    )
    if spec["own_handler"]:
        require(
            len(handled) == 1 and np.array_equal(handled[0], y, equal_nan=True),
            "the infinity handler did not get the data",
        )
    # the data the fitter has to explain, in unit coordinates
    mid, half = gen.expand(region)
    u = (x - mid) / half
    target = get_infinity_handler("relative")(y)
    if old is not None:
        require(gen.same_snapshot(old_before, gen.snapshot(old)), "old model modified")
        moved = move_model(old, region)
        target = target - gen.predict_at(old, x)
        oc, og, oh = gen.parts(moved)
        c, g = c - oc, g - og
        if h is not None and oh is not None:
            h = h - oh
        base = max(gen.magnitude(moved, x), gen.magnitude(old, x))
    else:
        base = 0.0
    if model_type == "linear" and h is not None:
        require(near(h, 0.0, base + 1e-300, 1e-10), "a linear fit changed square terms")
    coef = coefs(c, g, h, model_type)
    status = oracle(spec, name, model_type, u, target, weights, coef, base, n)
    # the true function is recovered, at new points
    if old is not None and spec["old_quadratic"] and model_type == "linear":
        true = None
    if true is not None and status.startswith("identified") and name != "ridge":
        if spec["data"] == "linear" or model_type == "quadratic":
            probe = mid + half * rng.uniform(-1, 1, size=(5, n))
            got, want = gen.predict_at(model, probe), gen.predict_at(true, probe)
            size = gen.magnitude(true, np.vstack([probe, x])) + base
            require(near(got, want, size, 1e-4), "the true %s function is not recovered", spec["data"])
            status = "identified, recovered"
    check_relations(spec, rng, call, model, x, y, old, weights, n_res, status, base)
    cl = [name + ": " + status, model_type, region.shape, f"dim:{n}"]
    cl.append("with infinities" if n_inf else "finite")
    if spec["residualize"]:
        cl.append("residualized")
    if weights is not None:
        cl.append("weighted")
    return Info(not status.startswith("unclear"), cl)


def spec_inf(spec, rng, shape):
    kinds = {"inf": [np.inf], "nan": [np.nan], "mixed": [np.inf, -np.inf, np.nan]}
    return rng.choice(kinds[spec["inf_kind"]], size=shape)


def oracle(spec, name, model_type, u, target, weights, coef, base, n):
    k = len(u)
    f = features(u, model_type)
    w = np.ones(k) if weights is None else weights
    root = np.sqrt(w)[:, None]
    size = np.abs(target).max() + base + 1e-300
    opt = {**DEFAULTS, **(spec["options"] or {})}
    n_full = f.shape[1]
    if name == "powell":
        if k <= n + 1:
            require(
                near(coef[:, n + 1 :], 0.0, size, 1e-12), "square terms without information"
            )
            ref = min_norm(features(u, "linear"), target)
            if ref is None or split_spectrum(features(u, "linear"))[0] < k:
                return "unclear rank"
            want = np.hstack([ref[0], np.zeros((len(coef), n_full - n - 1))])
            compare(coef, want, ref, size)
            return "linear"
        if k < n_full:
            ref = min_frobenius(u, target)
            if ref is None:
                return "unclear rank"
            compare(coef, ref[0], ref, size, 1e-6)
            require(near(f @ coef.T, target, size * ref[1], 1e-8), "no interpolation")
            return "minimal hessian"
        ref = min_norm(f, target)
    elif name == "ols":
        factor = np.ones(n_full)
        ref = min_norm(f * root, target * root)
    elif name == "tranquilo":
        factor = np.array(
            [1 / opt["p_intercept"]]
            + [1 / opt["p_linear"]] * n
            + [1 / opt["p_square"]] * (n_full - n - 1)
        )
        ref = min_norm(f * root, target * root, factor)
    else:
        pen = np.array(
            [0.0]
            + [opt["l2_penalty_linear"]] * n
            + [opt["l2_penalty_square"]] * (n_full - n - 1)
        )
        a = (f * w[:, None]).T @ f + np.diag(pen)
        b = (f * w[:, None]).T @ target
        res = a @ coef.T - b
        scale = np.abs(a).max() * np.abs(coef).max() + np.abs(b).max() + size
        require(
            near(res, 0.0, scale, 1e-7),
            "ridge: the first order conditions are violated by %r",
            float(np.abs(res).max()),
        )
        s = np.linalg.svd(a, compute_uv=False)
        if s[-1] < 1e-7 * s[0]:
            return "conditions only"
        want = np.linalg.solve(a, b).T
        require(
            near(coef, want, (np.abs(want).max() + size / s[-1]) * s[0] / s[-1], 1e-8),
            "ridge: coefficients %s instead of %s",
            coef.tolist(),
            want.tolist(),
        )
        return "identified"
    rank = split_spectrum(f * root)
    if ref is None or rank is None:
        return "unclear rank"
    if rank[0] < min(k, n_full):
        # rounding errors decide about the numerical rank: only the fit itself is clear
        tol = (size + np.abs(coef).max()) * ref[1]
        require(near(f @ coef.T, f @ ref[0].T, tol, 1e-8), "the fit is not optimal")
        if name in ("ols", "tranquilo") and repeated(u, f * root * factor):
            compare(coef, ref[0], ref, size)
            return "repeated points, minimal norm"
        return "unclear rank of degenerate points"
    compare(coef, ref[0], ref, size)
    if rank[0] == n_full:
        # optimality, independent of the reference solution
        res = (f * root).T @ ((f * root) @ coef.T - target * root)
        scale = (np.abs(f).max() ** 2 * np.abs(coef).max() + size * np.abs(f).max()) * k * w.max()
        require(near(res, 0.0, scale, 1e-7), "the normal equations are violated")
        return "identified"
    if rank[0] == k:
        require(near(f @ coef.T, target, size * ref[1], 1e-8), "no interpolation")
        return "under-determined, interpolates"
    raise AssertionError


def repeated(u, f):
    """Are repeated points the only reason for the rank deficiency, beyond rounding?"""
    distinct, index = np.unique(u, axis=0, return_index=True)
    rank = split_spectrum(f[index])
    if rank is None or rank[0] < len(distinct) or len(distinct) == len(u):
        return False
    s = np.linalg.svd(f, compute_uv=False)
    r = s[rank[0] :] / s[0]
    return len(r) == 0 or r.max() < 0.2 * np.finfo(float).eps * max(f.shape)


def compare(coef, want, ref, size, rtol=1e-7):
    scale = np.abs(want).max() + ref[2]
    require(
        near(coef, want, scale * max(1.0, ref[1] * 1e-3) + size * 1e-3, rtol),
        "coefficients %s instead of %s",
        coef.tolist(),
        want.tolist(),
    )


def check_relations(spec, rng, call, model, x, y, old, weights, n_res, status, base):
    mine = gen.snapshot(model)
    again = call(x.copy(), y.copy(), old, weights)
    require(gen.same_snapshot(mine, gen.snapshot(again)), "a second fit differs")
    if status.startswith(("unclear", "conditions")):
        return
    probe = x
    size = gen.magnitude(model, probe) + base + np.abs(y[np.isfinite(y)]).max(initial=0.0)
    want = gen.predict_at(model, probe)
    order = rng.permutation(len(x))
    perm = call(x[order], y[order], old, None if weights is None else weights[order])
    require(
        near(gen.predict_at(perm, probe), want, size, 1e-5),
        "the order of the data changes the model",
    )
    if n_res > 1 and old is None:
        keep = np.sort(rng.choice(n_res, rng.integers(1, n_res), replace=False))
        part = call(x, np.ascontiguousarray(y[:, keep]), old, weights)
        require(
            near(gen.predict_at(part, probe), want[:, keep], size, 1e-5),
            "the model of one residual depends on other residuals",
        )
    require(gen.same_snapshot(mine, gen.snapshot(model)), "later fits changed the model")


# --------------------------------------------------------------------------------------
# user-supplied fitters: what they get and what is made of their coefficients
# --------------------------------------------------------------------------------------


def run_custom(spec):
    rng = np.random.default_rng(spec["seed"])
    region = gen.build_region(spec["region"])
    n, n_res = len(region.center), spec["n_res"]
    x = make_points(spec, rng, region)
    y, _ = make_values(spec, rng, region, x)
    model_type = spec["model_type"]
    n_coef = 1 + n + (n * (n + 1) // 2 if model_type == "quadratic" else 0)
    coef = rng.normal(size=(n_res, n_coef))
    seen = []

    def fitter(x, y, model_type):
        seen.append((np.copy(x), np.copy(y), model_type))
        return coef.copy()

    old = None
    if spec["residualize"]:
        old = gen.build_model(
            rng, gen.build_region(spec["old_region"]), n_res, spec["old_quadratic"], False
        )
    fit = get_fitter(
        fitter,
        fitter_options=None,
        model_type=model_type,
        residualize=spec["residualize"],
        infinity_handling="relative",
    )
    model = fit(x, y, region, old)
    require(len(seen) == 1, "the fitter was called %d times", len(seen))
    mid, half = gen.expand(region)
    u = (x - mid) / half
    require(seen[0][2] == model_type, "model type %r", seen[0][2])
    unit_tol = 1e-9 * (1 + np.abs(u).max() + np.abs(mid / half).max() * 1e-4)
    require(
        seen[0][0].shape == u.shape and np.abs(seen[0][0] - u).max() <= unit_tol,
        "the fitter does not get unit coordinates",
    )
    target = y - (0 if old is None else gen.predict_at(old, x))
    size = np.abs(y).max() + (0 if old is None else gen.magnitude(old, x))
    require(
        seen[0][1].shape == y.shape and near(seen[0][1], target, size, 1e-8),
        "the fitter does not get the %s",
        "residuals of the old model" if old is not None else "data",
    )
    probe = mid + half * rng.uniform(-1, 1, size=(5, n))
    want = features((probe - mid) / half, model_type) @ coef.T
    size = np.abs(coef).sum()
    if old is not None:
        want = want + gen.predict_at(old, probe)
        size += gen.magnitude(old, np.vstack([probe, x]))
    require(
        near(gen.predict_at(model, probe), want, size, 1e-8),
        "the model does not have the coefficients of the fitter",
    )
    return Info(
        True, [model_type, region.shape, "residualized" if old is not None else "plain"]
    )


@st.composite
def fits(draw, custom=False):
    n = draw(st.integers(1, 4))
    model_type = draw(st.sampled_from(["linear", "quadratic"]))
    n_lin, n_quad = n + 1, (n + 1) * (n + 2) // 2
    n_points = draw(
        st.one_of(
            st.sampled_from([1, n_lin, n_lin + 1, 2 * n + 1, n_quad, n_quad + 3]),
            st.integers(1, n_quad + 3),
        )
    )
    options = None
    if draw(st.booleans()):
        options = {
            k: draw(st.sampled_from(v))
            for k, v in {
                "l2_penalty_linear": [0.0, 0.1, 2.0],
                "l2_penalty_square": [0.0, 0.1, 5.0],
                "p_intercept": [0.05, 1.0],
                "p_linear": [0.4, 0.1, 1.0],
                "p_square": [1.0, 3.0],
            }.items()
            if draw(st.booleans())
        }
    region = draw(gen.region_specs(n))
    old = dict(region)
    residualize = draw(st.booleans())
    if residualize:
        kind = draw(st.sampled_from(["same", "moved", "cube"]))
        if kind != "same":
            old["center"] = [
                c + old["radius"] * draw(st.sampled_from([0.0, 0.5, -1.0])) for c in old["center"]
            ]
            old["radius"] = old["radius"] * draw(st.sampled_from([0.5, 1.0, 2.0]))
            old["lower"] = old["upper"] = None
        if kind == "cube":
            old["lower"] = [c - 0.5 * old["radius"] for c in old["center"]]
    return {
        "region": region,
        "old_region": old,
        "residualize": residualize,
        "old_quadratic": draw(st.booleans()) if model_type == "linear" else True,
        "fitter": draw(st.sampled_from(["ols", "ridge", "powell", "tranquilo"])),
        "model_type": model_type,
        "options": options,
        "n_points": n_points,
        "n_res": draw(st.integers(1, 4)),
        "spread": draw(st.sampled_from(["inside", "wide", "hull", "grid"])),
        "duplicate": draw(st.sampled_from([0, 0, 0, 0.1, 0.5, 1.0])),
        "center_in": draw(st.booleans()),
        "data": draw(st.sampled_from(["random", "linear", "quadratic"])),
        "size": draw(st.sampled_from([1.0, 1.0, 1e-5, 1e4])),
        "level": draw(st.sampled_from([0.0, 0.0, 10.0])),
        "n_inf": draw(st.sampled_from([0, 0, 0, 1, 2])) if not custom else 0,
        "inf_rows": draw(st.booleans()),
        "inf_kind": draw(st.sampled_from(["inf", "nan", "mixed"])),
        "own_handler": draw(st.booleans()),
        "weights": draw(st.integers(0, 3)) == 0,
        "pass_none": draw(st.booleans()),
        "seed": draw(st.integers(0, 99999)),
    }


def warmup():
    fit = get_fitter("ols", None, "quadratic", False, "relative")
    reg = gen.build_region(
        {"center": [0.0, 0.0], "radius": 1.0, "lower": None, "upper": None}
    )
    x = np.random.default_rng(0).normal(size=(8, 2))
    fit(x, x, reg, None)


SUBS = [
    Sub(
        "fit",
        lambda tier: fits(),
        run_fit,
        20_000,
        600_000,
        "a fit of generated data with a built-in fitter against the conditions that define "
        "its solution; non-trivial if the rank of the problem is numerically clear",
    ),
    Sub(
        "custom",
        lambda tier: fits(custom=True),
        run_custom,
        3_000,
        100_000,
        "a user-supplied fitter: data it receives and model made of its coefficients; every "
        "case is non-trivial",
    ),
]
