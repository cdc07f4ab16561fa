"""C14: fast and reference subsolver implementations agree.

Both implementations are run on the same input.  Where rounding decides which branch an
iterative solver takes, two correct implementations may part; such inputs are recognised
by running the reference on inputs disturbed in the last digits, and are not counted.
"""
import numpy as np
from hypothesis import strategies as st

from tranquilo.models import ScalarModel
from tranquilo.subsolvers._conjugate_gradient import minimize_trust_cg
from tranquilo.subsolvers._conjugate_gradient_fast import minimize_trust_cg_fast
from tranquilo.subsolvers._steihaug_toint import minimize_trust_stcg
from tranquilo.subsolvers._steihaug_toint_fast import minimize_trust_stcg_fast
from tranquilo.subsolvers._trsbox import minimize_trust_trsbox
from tranquilo.subsolvers._trsbox_fast import minimize_trust_trsbox_fast
from tranquilo.subsolvers.bntr import bntr
from tranquilo.subsolvers.bntr_fast import bntr_fast
from tranquilo.subsolvers.gqtpar import gqtpar
from tranquilo.subsolvers.gqtpar_fast import gqtpar_fast

from pbt.core import Info, Sub, require

PROPERTY = "C14"
TOL = 1e-6


def make_problem(spec):
    """Gradient and hessian of the generated kind."""
    rng = np.random.default_rng(spec["seed"])
    n = spec["dim"]
    q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    kind = spec["hessian"]
    if kind == "convex":
        ev = rng.uniform(0.1, 3, size=n)
    elif kind == "wide":
        ev = 10.0 ** rng.uniform(-2, 3, size=n)
    elif kind == "indefinite":
        ev = rng.uniform(-3, 3, size=n)
    elif kind == "concave":
        ev = -rng.uniform(0.1, 3, size=n)
    elif kind == "psd":
        ev = rng.uniform(0.1, 3, size=n)
        ev[rng.integers(n)] = 0.0
    else:
        ev = np.zeros(n)
    if kind in ("diagonal", "integer"):
        ev = rng.integers(-2, 4, size=n).astype(float)
    h = np.diag(ev) if kind == "diagonal" else q @ np.diag(ev) @ q.T
    if kind == "integer":
        h = rng.integers(-3, 4, size=(n, n)).astype(float)
    h = (h + h.T) / 2
    g = rng.normal(size=n)
    if kind == "integer" or spec["gradient"] == "integer":
        g = rng.integers(-2, 3, size=n).astype(float)
    if spec["gradient"] == "sparse":
        g = g * (rng.uniform(size=n) < 0.5)
    elif spec["gradient"] == "zero":
        g = np.zeros(n)
    elif spec["gradient"] == "interior":
        g = -h @ rng.uniform(-0.5, 0.5, size=n)
    size = spec["size"]
    return g * size * spec["slope"], h * size, rng


def disturbed(rng, *arrays):
    out = []
    for a in arrays:
        e = rng.choice([-1.0, 1.0, 0.5], size=a.shape) * 1e-12
        if a.ndim == 2:
            e = (e + e.T) / 2
        out.append(a * (1 + e))
    return out


def compare(spec, call_ref, call_fast, g, h, value, rng, radius):
    """Runs both, compares; call_*(g, h) -> dict with x and comparable entries."""
    ref = call_ref(g, h)
    fast = call_fast(g, h)
    n = len(g)
    require(np.shape(fast["x"]) == (n,) and np.shape(ref["x"]) == (n,), "shape of x")
    scale = radius * np.abs(g).sum() + radius**2 * np.abs(h).sum() + 1e-300
    same = agree(ref, fast, value, scale, radius)
    if same is None:
        return "agree"
    for _ in range(30):
        other = call_ref(*disturbed(rng, g, h))
        if agree(ref, other, value, scale, radius, TOL / 100) is not None:
            return "unstable"
    require(False, "%s (reference x %s, fast x %s)", same, ref["x"], fast["x"])


def agree(a, b, value, scale, radius, tol=TOL):
    fa, fb = value(a["x"]), value(b["x"])
    if not abs(fa - fb) <= tol * scale:
        return f"model values {fa!r} and {fb!r} differ"
    if not np.abs(a["x"] - b["x"]).max() <= 1e-4 * radius:
        return "solutions differ"
    if "criterion" in a:
        ca, cb = a["criterion"], b["criterion"]
        if not abs(ca - cb) <= tol * scale:
            return f"reported values {ca!r} and {cb!r} differ"
    if "success" in a and bool(a["success"]) != bool(b["success"]):
        return f"success flags {a['success']!r} and {b['success']!r} differ"
    return None


def unchanged(pairs):
    for a, b in pairs:
        require(np.array_equal(a, b), "an argument was modified")


def quad(g, h):
    return lambda x: float(g @ x + 0.5 * x @ h @ x)


def model_of(g, h, c=0.0):
    return ScalarModel(intercept=c, linear_terms=g, square_terms=h)


def labels(spec, status):
    return [status, spec["hessian"] + " hessian", spec["gradient"] + " gradient", f"dim:{spec['dim']}"]


def run_ball(spec):
    g, h, rng = make_problem(spec)
    start = np.zeros(len(g))
    opts = spec["options"]
    copies = [(g, g.copy()), (h, h.copy()), (start, start.copy())]
    c = spec["intercept"]
    status = compare(
        spec,
        lambda g, h: gqtpar(model_of(g, h, c), start, **opts),
        lambda g, h: gqtpar_fast(model_of(g, h, c), start, **opts),
        g,
        h,
        quad(g, h),
        rng,
        1.0,
    )
    unchanged(copies)
    return Info(status == "agree", labels(spec, status))


def run_box(spec):
    g, h, rng = make_problem(spec)
    n = len(g)
    lower, upper = -np.ones(n), np.ones(n)
    if spec["box"] == "shifted":
        lower, upper = -rng.uniform(0.05, 1, size=n), rng.uniform(0.05, 2, size=n)
    start = np.zeros(n)
    if spec["start"] == "inside":
        start = rng.uniform(0.9 * lower, 0.9 * upper)
    elif spec["start"] == "corner":
        start = np.where(rng.uniform(size=n) < 0.5, lower, np.zeros(n))
    copies = [(a, a.copy()) for a in (g, h, lower, upper, start)]
    opts = spec["options"]
    c = spec["intercept"]
    status = compare(
        spec,
        lambda g, h: bntr(model_of(g, h, c), lower, upper, start.copy(), **opts),
        lambda g, h: bntr_fast(model_of(g, h, c), lower, upper, start, **opts),
        g,
        h,
        quad(g, h),
        rng,
        1.0,
    )
    bntr(model_of(g, h, c), lower, upper, start, **opts)
    unchanged(copies)
    return Info(
        status == "agree",
        labels(spec, status)
        + [opts["conjugate_gradient_method"], spec["box"], "start: " + spec["start"]],
    )


def run_cg(spec):
    g, h, rng = make_problem(spec)
    n = len(g)
    radius = spec["radius"]
    kind = spec["method"]
    lower, upper = -rng.uniform(0, 1.5, size=n) * radius, rng.uniform(0, 1.5, size=n) * radius
    at = rng.uniform(size=n) < 0.15
    lower[at] = 0.0
    upper[lower == upper] = radius
    copies = [(a, a.copy()) for a in (g, h, lower, upper)]
    if kind == "cg":
        tol = {"gtol_abs": spec["gtol_abs"], "gtol_rel": spec["gtol_rel"]}
        pair = (
            lambda g, h: {"x": minimize_trust_cg(g, h, radius, **tol)},
            lambda g, h: {"x": minimize_trust_cg_fast(g, h, radius, **tol)},
        )
    elif kind == "steihaug_toint":
        pair = (
            lambda g, h: {"x": minimize_trust_stcg(g, h, radius)},
            lambda g, h: {"x": minimize_trust_stcg_fast(g, h, radius)},
        )
    else:
        pair = (
            lambda g, h: {
                "x": minimize_trust_trsbox(
                    g, h, radius, lower_bounds=lower, upper_bounds=upper
                )
            },
            lambda g, h: {"x": minimize_trust_trsbox_fast(g, h, radius, lower, upper)},
        )
    status = compare(spec, *pair, g, h, quad(g, h), rng, radius)
    unchanged(copies)
    return Info(status == "agree", labels(spec, status) + [kind])


@st.composite
def problems(draw):
    return {
        "dim": draw(st.sampled_from([2, 3, 1, 4, 5, 6])),
        "seed": draw(st.integers(0, 99999)),
        "hessian": draw(
            st.sampled_from(
                ["convex", "indefinite", "wide", "concave", "psd", "zero", "diagonal", "integer"]
            )
        ),
        "gradient": draw(
            st.sampled_from(["normal", "normal", "sparse", "integer", "interior", "zero"])
        ),
        "size": draw(st.sampled_from([1.0, 1.0, 1e-3, 1e3, 1e-6])),
        "slope": draw(st.sampled_from([1.0, 1.0, 0.1, 10.0, 1e-3])),
        "intercept": draw(st.sampled_from([0.0, 2.5])),
    }


@st.composite
def balls(draw):
    opts = {}
    if draw(st.booleans()):
        opts = {
            "k_easy": draw(st.sampled_from([0.1, 0.01, 0.3])),
            "k_hard": draw(st.sampled_from([0.2, 0.02, 0.4])),
            "maxiter": draw(st.sampled_from([200, 20, 5])),
        }
    return {**draw(problems()), "options": opts}


@st.composite
def boxes(draw):
    return {
        **draw(problems()),
        "box": draw(st.sampled_from(["unit", "unit", "shifted"])),
        "start": draw(st.sampled_from(["center", "center", "inside", "corner"])),
        "options": {
            "conjugate_gradient_method": draw(
                st.sampled_from(["cg", "steihaug_toint", "trsbox"])
            ),
            "maxiter": draw(st.sampled_from([20, 20, 3, 50])),
            "maxiter_gradient_descent": draw(st.sampled_from([5, 5, 1, 2, 10])),
            "gtol_abs": draw(st.sampled_from([1e-8, 1e-3])),
            "gtol_rel": draw(st.sampled_from([1e-8, 1e-2])),
            "gtol_scaled": draw(st.sampled_from([0.0, 0.0, 1e-2])),
            "gtol_abs_conjugate_gradient": draw(st.sampled_from([1e-8, 1e-3])),
            "gtol_rel_conjugate_gradient": draw(st.sampled_from([1e-6, 1e-2])),
        },
    }


@st.composite
def steps(draw):
    return {
        **draw(problems()),
        "method": draw(st.sampled_from(["cg", "steihaug_toint", "trsbox"])),
        "radius": draw(st.sampled_from([1.0, 1.0, 0.1, 10.0])),
        "gtol_abs": draw(st.sampled_from([1e-8, 1e-3])),
        "gtol_rel": draw(st.sampled_from([1e-6, 1e-2])),
    }


def warmup():
    from concurrent.futures import ThreadPoolExecutor

    g, h = np.array([1.0, -0.5]), np.array([[2.0, 0.3], [0.3, 1.0]])
    one = np.ones(2)
    base = {
        "maxiter": 20,
        "maxiter_gradient_descent": 5,
        "gtol_abs": 1e-8,
        "gtol_rel": 1e-8,
        "gtol_scaled": 0.0,
        "gtol_abs_conjugate_gradient": 1e-8,
        "gtol_rel_conjugate_gradient": 1e-6,
    }
    bntr_fast(model_of(g, h), -one, one, 0 * one, conjugate_gradient_method="cg", **base)
    gqtpar_fast(model_of(g, h), 0 * one)
    minimize_trust_cg_fast(g, h, 1.0, gtol_abs=1e-8, gtol_rel=1e-6)
    minimize_trust_stcg_fast(g, h, 1.0)
    minimize_trust_trsbox_fast(g, h, 1.0, -one, one)


SUBS = [
    Sub(
        "ball",
        lambda tier: balls(),
        run_ball,
        12_000,
        600_000,
        "a quadratic model on the unit ball solved by both implementations; non-trivial "
        "if they agree (inputs where rounding selects the branch are not counted)",
    ),
    Sub(
        "box",
        lambda tier: boxes(),
        run_box,
        12_000,
        600_000,
        "a quadratic model on a box solved by both implementations; same rule",
    ),
    Sub(
        "step",
        lambda tier: steps(),
        run_cg,
        12_000,
        600_000,
        "one conjugate-gradient step of each method by both implementations; same rule",
    ),
]
