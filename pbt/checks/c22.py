"""C22: the poisedness constant and the improvement of a sample's poisedness."""
import warnings

import numpy as np
from hypothesis import strategies as st

from tranquilo.poisedness import get_poisedness_constant, improve_poisedness

from pbt.core import Info, Sub, require

PROPERTY = "C22"


def n_terms(n):
    return (n + 1) * (n + 2) // 2


def features(xs):
    n = xs.shape[1]
    i, j = np.triu_indices(n)
    return np.column_stack([np.ones(len(xs)), xs, xs[:, i] * xs[:, j]])


def lagrange(sample):
    """One row of coefficients per sample point (least squares if there are more)."""
    basis = features(sample)
    return np.linalg.pinv(basis).T, np.linalg.cond(basis)


def project(z, shape):
    if shape == "sphere":
        return z / np.maximum(1, np.linalg.norm(z, axis=1, keepdims=True))
    return np.clip(z, -1, 1)


def values(poly, z):
    return np.abs(features(z) @ poly)


def quadratic(poly, n):
    i, j = np.triu_indices(n)
    h = np.zeros((n, n))
    for a, b, c in zip(i, j, poly[n + 1 :]):
        h[a, b] += c
        h[b, a] += c
    return poly[0], poly[1 : n + 1], h


def climb(poly, starts, shape, steps=400):
    """Projected gradient ascent of the absolute polynomial from many points."""
    n = starts.shape[1]
    c, g, h = quadratic(poly, n)
    lip = max(np.abs(np.linalg.eigvalsh(h)).max(), np.linalg.norm(g), 1e-12)
    z = project(starts, shape)
    for _ in range(steps):
        hz = z @ h
        sign = np.sign(c + z @ g + 0.5 * np.sum(z * hz, axis=1))
        sign[sign == 0] = 1.0
        new = project(z + sign[:, None] * (g + hz) / lip, shape)
        if np.abs(new - z).max() < 1e-10:
            break
        z = new
    return z, values(poly, z)


def start_points(n, shape, seed):
    rng = np.random.default_rng(seed)
    z = rng.normal(size=(24, n))
    z /= np.linalg.norm(z, axis=1, keepdims=True)
    if shape == "cube":
        z /= np.abs(z).max(axis=1, keepdims=True)
    inner = z * rng.uniform(size=(24, 1))
    return np.vstack([np.zeros((1, n)), z, inner, np.eye(n), -np.eye(n)])


def make_sample(spec):
    n, shape = spec["dim"], spec["shape"]
    k = n_terms(n) + spec["extra"]
    rng = np.random.default_rng(spec["seed"])
    kind = spec["kind"]
    z = rng.normal(size=(k, n))
    if shape == "sphere":
        z /= np.linalg.norm(z, axis=1, keepdims=True)
    else:
        z = rng.uniform(-1, 1, size=(k, n))
        z /= np.abs(z).max(axis=1, keepdims=True)
    if kind == "hull":
        z[0] = 0.0
    elif kind == "interior":
        z *= rng.uniform(size=(k, 1)) ** (1 / n)
    elif kind == "flat":
        z *= rng.uniform(size=(k, 1)) ** (1 / n)
        z[:, -1] *= 0.05
    elif kind == "corner":
        z = 0.5 * z + 0.4 / np.sqrt(n)
    elif kind == "outside":
        z *= rng.uniform(size=(k, 1)) ** (1 / n) * 1.5
    return z


def size(z, shape):
    return float(np.linalg.norm(z) if shape == "sphere" else np.abs(z).max())


def constant(sample, shape):
    before = sample.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = get_poisedness_constant(sample, shape) if shape else get_poisedness_constant(sample)
    require(np.array_equal(sample, before), "the sample was modified")
    require(isinstance(out, tuple) and len(out) == 3, "returned %s", type(out))
    return out


def run_constant(spec):
    shape = spec["shape"]
    sample = make_sample(spec)
    n = spec["dim"]
    polys, cond = lagrange(sample)
    if not cond < 1e4:
        return Info(False, ["badly conditioned"])
    default = shape == "sphere" and spec["default_shape"]
    lam, arg, idx = constant(sample, None if default else shape)
    require(np.ndim(lam) == 0 and np.isfinite(lam) and lam > 0, "constant %r", lam)
    arg = np.asarray(arg)
    require(arg.shape == (n,) and np.isfinite(arg).all(), "argmax %s", arg)
    require(0 <= idx < len(sample) and int(idx) == idx, "index %r", idx)
    require(size(arg, shape) <= 1 + 1e-6, "argmax %s is outside of the %s", arg, shape)
    tol = 1e-12 * cond**2 + 1e-9
    own = values(polys[idx], arg[None])[0]
    require(
        abs(own - lam) <= tol * max(1, lam),
        "constant %r, the polynomial of point %s has the value %r at argmax",
        lam,
        idx,
        own,
    )
    starts = start_points(n, shape, spec["seed"])
    n_single = 0
    for i, poly in enumerate(polys):
        at_center = abs(poly[0])
        require(
            lam >= 0.98 * at_center,
            "constant %r, polynomial %s is %r at the center",
            lam,
            i,
            at_center,
        )
        slope = np.linalg.norm(poly[1 : n + 1])
        _, tops = climb(poly, starts, shape)
        # a polynomial whose absolute value has one local maximum has to be bounded
        if tops.min() >= 0.999 * tops.max() and slope > 0.05 * tops.max():
            n_single += 1
            require(
                lam >= 0.98 * tops.max(),
                "constant %r, polynomial %s takes the value %r in the %s",
                lam,
                i,
                tops.max(),
                shape,
            )
    # a local maximum: climbing on from argmax gains (nearly) nothing
    _, top = climb(polys[idx], arg[None], shape)
    slack = 0.02 * lam
    require(top[0] <= lam + slack, "climbing from argmax gives %r > %r",
            top[0], lam)
    labels = [shape, f"dim:{n}", spec["kind"], "regression" if spec["extra"] else "interpolation"]
    if n_single:
        labels.append("polynomials with a single maximum")
    return Info(True, labels)


def run_global(spec):
    """The constant bounds all polynomials of these samples everywhere in the region."""
    sample = np.array(spec["sample"])
    shape = spec["shape"]
    polys, cond = lagrange(sample)
    lam, _, _ = constant(sample, shape)
    starts = start_points(sample.shape[1], shape, 0)
    for i, poly in enumerate(polys):
        z, tops = climb(poly, starts, shape)
        k = int(np.argmax(tops))
        require(
            lam >= 0.98 * tops[k],
            "constant %r, polynomial %s takes the value %r at %s",
            lam, i, tops[k], z[k].tolist(),
        )
    return Info(True, [shape])


def run_improve(spec):
    shape = spec["shape"]
    sample = make_sample(spec)
    m = spec["maxiter"]
    before = sample.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        results = [improve_poisedness(sample, shape=shape, maxiter=j) for j in range(m + 1)]
    require(np.array_equal(sample, before), "the sample was modified")
    first, lambdas = results[0]
    require(len(lambdas) == 0 and np.array_equal(first, sample), "no iterations: %s", lambdas)
    replaced = 0
    for j in range(m):
        old, new = results[j][0], results[j + 1][0]
        require(new.shape == sample.shape and new is not sample, "shape %s", new.shape)
        require(len(results[j + 1][1]) == j + 1, "%s constants", len(results[j + 1][1]))
        require(results[j + 1][1][:j] == results[j][1], "different constants when repeated")
        rows = np.flatnonzero(np.any(old != new, axis=1))
        require(len(rows) <= 1, "iteration %s replaced the points %s", j, rows)
        lam = results[j + 1][1][j]
        polys, cond = lagrange(old)
        if not cond < 1e5 or len(rows) == 0:
            continue
        replaced += 1
        idx = rows[0]
        require(size(new[idx], shape) <= 1 + 1e-6, "new point %s is outside", new[idx])
        value = values(polys[idx], new[idx][None])[0]
        require(
            abs(value - lam) <= (1e-12 * cond**2 + 1e-9) * max(1, lam),
            "iteration %s: constant %r, the polynomial of the replaced point %s has the value %r "
            "at its replacement",
            j, lam, idx, value,
        )
        again = constant(old.copy(), shape)
        require(abs(again[0] - lam) <= 1e-12 * lam and again[2] == idx,
                "iteration %s reports %r, the constant of the sample is %r", j, lam, again[0])
    return Info(replaced > 0, [shape, f"dim:{spec['dim']}", f"iterations:{m}"])


@st.composite
def samples(draw, tier):
    return {
        "dim": draw(st.sampled_from([1, 2, 2, 2, 3, 3, 4] if tier == "thorough" else [1, 2, 2, 3])),
        "extra": draw(st.sampled_from([0, 0, 1, 3])),
        "shape": draw(st.sampled_from(["sphere", "cube"])),
        "default_shape": draw(st.booleans()),
        "kind": draw(st.sampled_from(["hull", "interior", "boundary", "flat", "corner", "outside"])),
        "seed": draw(st.integers(0, 10**9)),
    }


@st.composite
def improvements(draw, tier):
    out = draw(samples(tier))
    out["maxiter"] = draw(st.integers(1, 3))
    return out


SUBS = [
    Sub("constant", samples, run_constant, quick=400, thorough=20000,
        rule="the sample identifies a quadratic model"),
    Sub("improve", improvements, run_improve, quick=60, thorough=3000,
        rule="a point was replaced"),
]

# inputs listed in known_findings.json
KNOWN = {"global": run_global}
