"""C09: the evaluation history is a faithful append-only store."""
import numpy as np
from hypothesis import strategies as st

from tranquilo.bounds import Bounds
from tranquilo.history import History
from tranquilo.region import Region

from pbt.core import Info, Sub, require

PROPERTY = "C09"


class Model:
    """List of records."""

    def __init__(self, functype):
        self.functype, self.xs, self.evals = functype, [], []

    def add_xs(self, xs):
        start = len(self.xs)
        self.xs += [np.array(x) for x in xs]
        return list(range(start, len(self.xs)))

    def add_evals(self, idx, vecs):
        self.evals += list(zip(idx, [np.array(v) for v in vecs]))

    def vecs(self, i):
        return [v for k, v in self.evals if k == i]

    def value(self, v):
        v = np.atleast_1d(v).astype(float)
        if self.functype == "scalar":
            return v[0]
        return v.sum() if self.functype == "likelihood" else (v**2).sum()

    def vals(self, i):
        return [self.value(v) for v in self.vecs(i)]


def decode(kind, picks, n):
    """An index argument of the stated kind and the list of indices it stands for."""
    idx = [p % n for p in picks]
    if kind == "int":
        return idx[0], idx[:1]
    if kind == "npint":
        return np.int64(idx[0]), idx[:1]
    if kind == "negint":
        return idx[0] - n, idx[:1]
    if kind == "list":
        return idx, idx
    if kind == "array":
        return np.array(idx), idx
    if kind == "floatarray":
        return np.array(idx, dtype=float), idx
    if kind == "neglist":
        return [i - n for i in idx], idx
    if kind == "mixedarray":
        return np.array([i - n if k % 2 else i for k, i in enumerate(idx)]), idx
    if kind == "mask":
        mask = np.zeros(n, dtype=bool)
        mask[idx] = True
        return mask, sorted(set(idx))
    if kind == "slice":
        a, b = sorted([idx[0], idx[-1]])
        step = 1 + len(idx) % 3
        return slice(a, b + 1, step), list(range(n))[a : b + 1 : step]
    if kind == "revslice":
        return slice(None, None, -1), list(range(n))[::-1]
    if kind == "empty":
        return np.array([]), []
    raise AssertionError(kind)


SCALARS = ("int", "npint", "negint")
KINDS = (
    "int",
    "npint",
    "negint",
    "list",
    "array",
    "floatarray",
    "neglist",
    "mixedarray",
    "mask",
    "slice",
    "revslice",
)


def unique(seq):
    return list(dict.fromkeys(seq))


def eq(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=True))


def near(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(
        np.allclose(a, b, rtol=1e-12, atol=1e-12, equal_nan=True)
    )


def query(h, model, op, keep):
    n, what = len(model.xs), op["what"]
    if what == "counts":
        require(h.get_n_xs() == n, "get_n_xs is %r, %d were added", h.get_n_xs(), n)
        require(
            h.get_n_fun() == len(model.evals),
            "get_n_fun is %r, %d were added",
            h.get_n_fun(),
            len(model.evals),
        )
        return
    if what == "all_xs":
        got = h.get_xs()
        require(eq(got, np.array(model.xs)), "get_xs() differs from what was added")
        keep(got)
        return
    arg, idx = decode(op["kind"], op["picks"], n)
    single = op["kind"] in SCALARS
    where = f"{what}({op['kind']} {arg!r})"
    if what == "xs":
        got = h.get_xs(arg)
        want = model.xs[idx[0]] if single else np.array(model.xs)[idx]
        require(eq(got, want), "%s returns other points", where)
        keep(got)
        return
    if not model.evals:
        return
    if what in ("fvecs", "fvals"):
        got = getattr(h, "get_" + what)(arg)
        pick = model.vecs if what == "fvecs" else model.vals
        ok = eq if what == "fvecs" else near
        got = {idx[0]: got} if single else got
        require(
            list(got) == unique(idx), "%s has the keys %s instead of %s", where, list(got), idx
        )
        for i in got:
            want = pick(i)
            require(len(got[i]) == len(want), "%s: wrong number for point %d", where, i)
            if want:
                require(
                    ok(got[i], np.array(want).reshape(np.shape(got[i]))),
                    "%s: %s instead of %s",
                    where,
                    got[i],
                    want,
                )
            keep(got[i])
    elif what == "n_evals":
        if single:
            return
        got = h.get_n_evals(arg)
        require(
            dict(got) == {i: len(model.vecs(i)) for i in idx} and list(got) == unique(idx),
            "%s returns %s",
            where,
            got,
        )
    elif what == "model_data":
        idx = unique(idx)
        if single:
            pass
        elif op["kind"] in ("list", "neglist"):
            arg = [i - n if op["kind"] == "neglist" else i for i in idx]
        elif op["kind"] in ("array", "floatarray", "mixedarray"):
            arg = np.array(idx, dtype=float if op["kind"] == "floatarray" else int)
        if not idx or any(not model.vecs(i) for i in idx):
            return
        xs, vecs = h.get_model_data(arg, average=op["average"])
        if op["average"]:
            want_x = [model.xs[i] for i in idx]
            want_v = [np.mean([np.atleast_1d(v) for v in model.vecs(i)], axis=0) for i in idx]
        else:
            want_x = [model.xs[i] for i in idx for _ in model.vecs(i)]
            want_v = [np.atleast_1d(v) for i in idx for v in model.vecs(i)]
        require(eq(xs, want_x), "%s: other points", where)
        require(near(vecs, np.array(want_v)), "%s: other residuals", where)
        keep(xs)
        keep(vecs)
    elif what == "region":
        center = model.xs[idx[0]] + np.array(op["offset"][: len(model.xs[0])])
        dist = np.linalg.norm(np.array(model.xs) - center, axis=1)
        radius = op["radius"]
        region = Region(center=center, radius=radius, bounds=Bounds(None, None))
        got = [int(i) for i in h.get_x_indices_in_region(region)]
        must = [i for i in range(n) if dist[i] < radius * (1 - 1e-9)]
        may = [i for i in range(n) if dist[i] <= radius * (1 + 1e-9)]
        require(
            set(must) <= set(got) <= set(may) and got == sorted(set(got)),
            "points in region: %s instead of %s",
            got,
            must,
        )
    else:
        raise AssertionError(what)


def run_history(spec):
    ft, n, m = spec["functype"], spec["dim"], spec["m"]
    h, model = History(functype=ft), Model(ft)
    rng = np.random.default_rng(spec["seed"])
    kept = []

    def keep(result):
        if isinstance(result, np.ndarray) and len(kept) < 60:
            kept.append((result, result.copy()))

    for op in spec["ops"]:
        if op["op"] == "add":
            new = np.round(rng.normal(size=(op["n"], n)), 2)
            form = op["form"]
            if form == "single" or op["n"] == 1 and form == "list":
                src = new[0].copy()
                new = new[:1]
                got = h.add_xs(src if form == "single" else [src])
                got = [got] if form == "single" else got
                require(
                    form != "single" or np.isscalar(got[0]),
                    "the index of a single point is %r",
                    got[0],
                )
            elif form == "list":
                src = [x.copy() for x in new]
                got = h.add_xs(src)
            else:
                src = new.copy()
                got = h.add_xs(src)
            want = model.add_xs(new)
            require(
                [int(i) for i in got] == want, "new indices are %s, not %s", list(got), want
            )
            for a in src if isinstance(src, list) else [src]:
                a[...] = -5.0  # the caller goes on using the array
        elif op["op"] == "eval":
            idx = [p % len(model.xs) for p in op["picks"]]
            vecs = np.round(rng.normal(size=(len(idx), m)), 2)
            if op.get("inf"):
                vecs[rng.integers(len(idx)), rng.integers(m)] = np.inf
            if ft == "scalar":
                vecs = vecs[:, :1]
            form = op["form"]
            if len(idx) == 1 and form == "single":
                src = vecs[0].copy() if ft != "scalar" else float(vecs[0, 0])
                h.add_evals(idx[0], src)
            elif form == "list":
                src = [v.copy() if ft != "scalar" else float(v[0]) for v in vecs]
                h.add_evals(idx, src)
            else:
                src = vecs.copy() if ft != "scalar" else vecs[:, 0].copy()
                h.add_evals(np.array(idx), src)
            model.add_evals(idx, vecs)
            for a in src if isinstance(src, list) else [src]:
                if isinstance(a, np.ndarray):
                    a[...] = -5.0
        elif op["op"] == "bad":
            try:
                h.add_evals([len(model.xs) + op["n"]], np.ones((1, m)))
            except ValueError:
                pass
            else:
                require(False, "an evaluation at an unknown point was accepted")
        else:
            query(h, model, op, keep)
    for what in ("counts", "all_xs"):
        query(h, model, {"what": what}, keep)
    if model.evals:
        full = {"kind": "array", "picks": list(range(len(model.xs)))}
        for what in ("fvecs", "fvals", "n_evals"):
            query(h, model, {"what": what, **full}, keep)
    for result, copy in kept:
        require(eq(result, copy), "an earlier result was changed by a later operation")
    grown = len(model.xs) > 1000 or len(model.evals) > 1000
    repeats = len(model.evals) > len({k for k, _ in model.evals})
    n_q = sum(op["op"] == "query" for op in spec["ops"])
    return Info(
        n_q >= 1 and bool(model.evals),
        [ft]
        + (["storage grew"] if grown else [])
        + (["repeated evaluations"] if repeats else [])
        + [f"query:{op['what']}:{op['kind']}" for op in spec["ops"] if op["op"] == "query"],
    )


@st.composite
def histories(draw, tier="quick"):
    picks = st.lists(st.integers(0, 5000), min_size=1, max_size=6)
    ops = [{"op": "add", "n": draw(st.integers(1, 5)), "form": "array"}]
    n_ops = draw(st.integers(3, 12 if tier == "quick" else 40))
    sizes = [1, 1, 2, 3, 7, 30, 990, 1001, 2500]
    for _ in range(n_ops):
        kind = draw(st.sampled_from(["add", "eval", "eval", "query", "query", "query", "bad"]))
        if kind == "add":
            ops.append(
                {
                    "op": "add",
                    "n": draw(st.sampled_from(sizes)),
                    "form": draw(st.sampled_from(["array", "list", "single"])),
                }
            )
        elif kind == "eval":
            p = draw(picks)
            if draw(st.integers(0, 9)) == 0:
                p = p * draw(st.sampled_from([100, 400]))
            ops.append(
                {
                    "op": "eval",
                    "picks": p,
                    "form": draw(st.sampled_from(["array", "list", "single"])),
                    "inf": draw(st.integers(0, 5)) == 0,
                }
            )
        elif kind == "bad":
            if draw(st.integers(0, 3)) == 0:
                ops.append({"op": "bad", "n": draw(st.integers(0, 3))})
        else:
            ops.append(
                {
                    "op": "query",
                    "what": draw(
                        st.sampled_from(
                            ["xs", "fvecs", "fvals", "n_evals", "model_data", "region"]
                        )
                    ),
                    "kind": draw(st.sampled_from(KINDS)),
                    "picks": draw(picks),
                    "average": draw(st.booleans()),
                    "radius": draw(st.sampled_from([0.01, 0.5, 1.0, 3.0, 100.0])),
                    "offset": draw(
                        st.lists(
                            st.sampled_from([0.0, 0.3, -1.0]), min_size=4, max_size=4
                        )
                    ),
                }
            )
    return {
        "functype": draw(st.sampled_from(["scalar", "least_squares", "likelihood"])),
        "dim": draw(st.integers(1, 4)),
        "m": draw(st.integers(1, 4)),
        "seed": draw(st.integers(0, 9999)),
        "ops": ops,
    }


SUBS = [
    Sub(
        "operations",
        histories,
        run_history,
        8000,
        300_000,
        "a generated sequence of additions, evaluations and queries by all kinds of "
        "indices, executed on the history and on a list of records; non-trivial if there "
        "were evaluations and queries",
    )
]
