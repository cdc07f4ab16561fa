"""C07: every criterion evaluation is recorded exactly once, under its point."""
import copy

import numpy as np
from hypothesis import strategies as st

from tranquilo.history import History
from tranquilo.wrap_criterion import get_wrapped_criterion

from pbt import e2e
from pbt.core import Info, Sub, require
from pbt.oracles import check_batches, check_recording

PROPERTY = "C07"


def warmup():
    e2e.compile_all()


def run_whole(spec):
    out = e2e.run(spec)
    check_recording(out)
    check_batches(out)
    repeated = out.history.get_n_fun() > out.history.get_n_xs()
    return Info(
        len(out.states) > 2,
        e2e.classes(spec, out) + (["repeated evaluations"] if repeated else []),
    )


@st.composite
def whole(draw, tier, noisy=(False,), faults=False):
    big = {"max_iter": (3, 40), "dims": (1, 6)} if tier == "thorough" else {}
    spec = draw(e2e.specs(noisy=noisy, faults=faults, **big))
    if draw(st.integers(0, 2)) == 0:
        spec["problem"]["mutates"] = True
    return spec


# --------------------------------------------------------------------------------------
# the wrapped criterion alone
# --------------------------------------------------------------------------------------


class Planned(Exception):
    pass


class Recorder:
    """Criterion with a value that identifies the call."""

    def __init__(self, functype, m, bad, mutates, returns):
        self.functype, self.m, self.bad = functype, m, bad
        self.mutates, self.returns = mutates, returns
        self.calls = {}
        self.slot = None

    def __call__(self, x):
        k = self.slot
        assert k not in self.calls
        seen = np.array(x)
        self.calls[k] = (seen, None)
        what = self.bad.get(str(k))
        if self.mutates:
            x[...] = 99.0
        if what == "exception":
            raise Planned("fails")
        if self.functype == "scalar":
            out = seen.sum() + 0.25 * k
            if what:
                out = float(what)
            if self.returns == "array":
                out = np.array(out)
            self.calls[k] = (seen, np.array(out, dtype=float).reshape(1))
            return out
        out = np.arange(self.m) * seen.sum() + 0.25 * k
        if what:
            out[k % self.m] = float(what)
        self.calls[k] = (seen, np.array(out))
        return out.tolist() if self.returns == "list" else out


class Slots:
    """Batch evaluator that tells the criterion which evaluation of all it makes."""

    def __init__(self, rec, order, seed):
        self.rec, self.order, self.rng = rec, order, np.random.default_rng(seed)
        self.n, self.cores = 0, []

    def __call__(self, func, arguments, n_cores, error_handling="continue"):
        args = list(arguments)
        self.cores.append((n_cores, len(args)))
        pos = list(range(len(args)))
        if self.order == "reverse":
            pos.reverse()
        elif self.order == "random":
            self.rng.shuffle(pos)
        out = [None] * len(args)
        for i in pos:
            self.rec.slot = self.n + i
            try:
                out[i] = func(args[i])
            except Planned:
                out[i] = "Traceback ... Planned: fails"
        self.n += len(args)
        return out


def run_requests(spec):
    ft, n = spec["functype"], spec["dim"]
    rng = np.random.default_rng(spec["seed"])
    h = History(functype=ft)
    rec = Recorder(ft, spec["m"], spec["bad"], spec["mutates"], spec["returns"])
    ev = Slots(rec, spec["order"], spec["seed"])
    func = get_wrapped_criterion(rec, ev, spec["n_cores"], h)
    xs, log = [], []  # the model: points; (point, slot) of every evaluation
    repeated = mixed = False
    for step in spec["steps"]:
        if step["op"] == "add":
            new = rng.normal(size=(step["n"], n))
            if step["n"] == 1 and step["single"]:
                got = [h.add_xs(new[0])]
            else:
                got = h.add_xs(new)
            require(
                [int(i) for i in got] == list(range(len(xs), len(xs) + step["n"])),
                "indices of new points are %s",
                list(got),
            )
            xs += list(new)
            continue
        request, seen = {}, set()
        for pick, reps in step["request"]:
            i = pick % len(xs)
            if i not in seen:
                seen.add(i)
                request[np.int64(i) if step["np"] else i] = reps
        if not sum(request.values()):
            continue
        todo = dict(request)
        base = len(log)
        func(request)
        require(request == todo, "the request was modified")
        for i, reps in todo.items():
            log += [int(i)] * reps
        repeated |= any(v > 1 for v in todo.values())
        mixed |= len(set(todo.values())) > 1
        require(
            ev.n == len(log),
            "%d evaluations were requested but %d made",
            len(log) - base,
            ev.n - base,
        )
        used, length = ev.cores[-1]
        require(
            1 <= used <= min(spec["n_cores"], length),
            "%d cores for %d evaluations",
            used,
            length,
        )
        verify(h, rec, xs, log, ft)
    return Info(
        repeated and len(log) > 3,
        [ft, "order:" + spec["order"], "mixed repetitions" if mixed else "uniform"]
        + ["failures" if spec["bad"] else "no failures"],
    )


def verify(h, rec, xs, log, ft):
    require(h.get_n_xs() == len(xs), "%d points stored, %d added", h.get_n_xs(), len(xs))
    require(
        h.get_n_fun() == len(log), "counter %d after %d calls", h.get_n_fun(), len(log)
    )
    stored = h.get_xs()
    for i, x in enumerate(xs):
        require(np.array_equal(stored[i], x), "point %d is not what was added", i)
    per_point = {}
    for k, i in enumerate(log):
        seen, value = rec.calls[k]
        require(np.array_equal(seen, xs[i]), "evaluation %d was made at another point", k)
        per_point.setdefault(i, []).append(value)
    idx = np.arange(len(xs))
    counts = h.get_n_evals(idx)
    vecs, vals = h.get_fvecs(idx), h.get_fvals(idx)
    for i in range(len(xs)):
        expected = per_point.get(i, [])
        require(counts[i] == len(expected), "point %d: wrong number of evaluations", i)
        require(
            len(vecs[i]) == len(vals[i]) == len(expected),
            "point %d: %d values stored for %d calls",
            i,
            len(vecs[i]),
            len(expected),
        )
        for got, val, value in zip(vecs[i], vals[i], expected):
            if value is None:
                want = np.full(np.shape(got), np.inf)
            else:
                want = np.nan_to_num(value, nan=np.inf, posinf=np.inf, neginf=-np.inf)
            require(
                np.array_equal(got, want),
                "point %d: %s is stored, the criterion returned %s",
                i,
                got,
                value,
            )
            expected_val = {
                "scalar": lambda v: v[0],
                "likelihood": lambda v: v.sum(),
                "least_squares": lambda v: (v**2).sum(),
            }[ft](np.asarray(want, dtype=float))
            require(
                np.allclose(val, expected_val, rtol=1e-12, equal_nan=True),
                "point %d: value %r instead of %r",
                i,
                val,
                expected_val,
            )


@st.composite
def requests(draw):
    ft = draw(st.sampled_from(["scalar", "least_squares", "likelihood"]))
    n_steps = draw(st.integers(1, 8))
    steps = [{"op": "add", "n": draw(st.integers(1, 4)), "single": draw(st.booleans())}]
    for _ in range(n_steps):
        if draw(st.integers(0, 2)) == 0:
            steps.append(
                {
                    "op": "add",
                    "n": draw(st.sampled_from([1, 1, 2, 5, 400])),
                    "single": draw(st.booleans()),
                }
            )
        request = draw(
            st.lists(
                st.tuples(st.integers(0, 1000), st.integers(0, 4)), min_size=1, max_size=6
            )
        )
        if draw(st.integers(0, 9)) == 0:
            request.append((draw(st.integers(0, 1000)), 600))
        steps.append(
            {"op": "eval", "request": [list(r) for r in request], "np": draw(st.booleans())}
        )
    bad = {}
    for k in draw(st.lists(st.integers(1, 25), max_size=5, unique=True)):
        bad[str(k)] = draw(st.sampled_from(["exception", "nan", "inf", "-inf"]))
    return {
        "functype": ft,
        "dim": draw(st.integers(1, 3)),
        "m": draw(st.integers(1, 4)),
        "seed": draw(st.integers(0, 9999)),
        "bad": bad,
        "mutates": draw(st.booleans()),
        "returns": draw(st.sampled_from(["plain", "array", "list"])),
        "order": draw(st.sampled_from(["forward", "reverse", "random"])),
        "n_cores": draw(st.integers(1, 6)),
        "steps": steps,
    }


RULE = (
    "the log of criterion calls of one optimization against its history; non-trivial if "
    "it made at least two iterations"
)
SUBS = [
    Sub(
        "requests",
        lambda tier: requests(),
        run_requests,
        3000,
        100_000,
        "generated sequences of new points and evaluation requests against a list model; "
        "non-trivial if evaluations were repeated",
    ),
    Sub("runs", whole, run_whole, 1000, 40_000, RULE),
    Sub(
        "noisy",
        lambda tier: whole(tier, noisy=(True,)),
        run_whole,
        500,
        15_000,
        RULE + " (noisy)",
    ),
    Sub(
        "faults",
        lambda tier: whole(tier, faults=True),
        run_whole,
        400,
        12_000,
        RULE + " (failing evaluations)",
    ),
]
