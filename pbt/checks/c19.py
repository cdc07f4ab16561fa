"""C19: infinite values are replaced by finite penalties that keep their order."""
import numpy as np
from hypothesis import strategies as st

from tranquilo.handle_infinity import get_infinity_handler

from pbt.core import Info, Sub, require

PROPERTY = "C19"

SPECIAL = {"inf": np.inf, "-inf": -np.inf, "nan": np.nan}


def build(rows):
    return np.array([[SPECIAL.get(v, v) for v in row] for row in rows], dtype=float)


def check(a, out):
    require(out.shape == a.shape, "shape %s instead of %s", out.shape, a.shape)
    require(np.isfinite(out).all(), "the result has infinite entries: %s", out.tolist())
    fin = np.isfinite(a)
    require(np.array_equal(out[fin], a[fin]), "a finite entry was changed")
    for j in range(a.shape[1]):
        col, res = a[:, j], out[:, j]
        ok = np.isfinite(col)
        up = np.isnan(col) | (col == np.inf)
        lo = col == -np.inf
        if ok.any():
            hi, low = col[ok].max(), col[ok].min()
            require(
                (res[up] > hi).all(),
                "column %d: penalties %s are not above %r",
                j,
                res[up],
                hi,
            )
            require(
                (res[lo] < low).all(), "column %d: penalties %s not below %r", j, res[lo], low
            )
        elif up.any() and lo.any():
            require(res[up].min() > res[lo].max(), "column %d: order of +-inf is lost", j)
        require(
            len(set(res[up].tolist())) <= 1 and len(set(res[lo].tolist())) <= 1,
            "column %d: equal infinities get different penalties",
            j,
        )


def run_clip(spec):
    a = build(spec["rows"])
    func = get_infinity_handler("relative")
    before = a.copy()
    out = func(a)
    require(np.array_equal(before, a, equal_nan=True), "the input was modified")
    check(a, out)
    with np.errstate(over="ignore"):
        if np.isfinite(a[np.isfinite(a)] ** 2).all() and np.abs(a[np.isfinite(a)]).max(initial=0) < 1e100:
            require(
                np.isfinite((out**2).sum(axis=1)).all(), "penalties overflow when squared"
            )
    # columns are independent
    perm = np.array(spec["cols"]) % a.shape[1]
    sub = func(a[:, perm])
    require(np.allclose(sub, out[:, perm], rtol=1e-12), "columns influence each other")
    # rows may come in any order
    order = np.random.default_rng(spec["seed"]).permutation(len(a))
    require(np.allclose(func(a[order]), out[order], rtol=1e-12), "the order of rows matters")
    # moving the finite values of a column moves its penalties
    shift = spec["shift"]
    moved = func(np.where(np.isfinite(a), a + shift, a))
    size = np.abs(a[np.isfinite(a)]).max(initial=1.0) + abs(shift)
    for j in range(a.shape[1]):
        if np.isfinite(a[:, j]).any():
            require(
                np.allclose(moved[:, j], out[:, j] + shift, rtol=0, atol=1e-11 * size * 10),
                "column %d: shifting finite values by %r does not shift the penalties",
                j,
                shift,
            )
    bad = ~np.isfinite(a)
    cl = []
    for j in range(a.shape[1]):
        fin = a[np.isfinite(a[:, j]), j]
        n_bad = int(bad[:, j].sum())
        kind = "no finite" if not len(fin) else "constant" if np.ptp(fin) == 0 else "varied"
        cl.append(("with" if n_bad else "without") + " infinities, " + kind)
    return Info(bad.any(), sorted(set(cl)))


@st.composite
def tables(draw):
    n, m = draw(st.integers(1, 8)), draw(st.integers(1, 4))
    size = 10.0 ** draw(st.sampled_from([-6, -1, 0, 0, 1, 3, 6, 12]))
    cols = []
    for _ in range(m):
        kind = draw(st.sampled_from(["any", "any", "constant", "single", "none"]))
        special = st.sampled_from(["inf", "inf", "-inf", "nan"])
        value = st.floats(-3, 3, width=32).map(lambda v: float(v) * size)
        if kind == "constant":
            value = st.just(draw(value))
        col = []
        for k in range(n):
            if kind == "none" or kind == "single" and k > 0:
                col.append(draw(special))
            else:
                col.append(draw(st.one_of(value, value, special)) if kind != "single" else draw(value))
        cols.append(col)
    return {
        "rows": [list(r) for r in zip(*cols)],
        "cols": draw(st.lists(st.integers(0, 3), min_size=1, max_size=3)),
        "shift": draw(st.sampled_from([1.0, -2.5, 10.0, 1000.0])),
        "seed": draw(st.integers(0, 999)),
    }


SUBS = [
    Sub(
        "tables",
        lambda tier: tables(),
        run_clip,
        24_000,
        1_000_000,
        "arrays with any pattern of finite values, infinities and NaN; non-trivial if "
        "there was something to replace",
    )
]
