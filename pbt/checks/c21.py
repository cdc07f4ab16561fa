"""C21: well-behaved problems are solved."""
import copy
import warnings

import numpy as np
from estimagic.optimization.optimize import minimize
from hypothesis import strategies as st
from scipy.optimize import least_squares, lsq_linear

from tranquilo.tranquilo import _tranquilo

from pbt import e2e
from pbt.core import Info, Sub, require

PROPERTY = "C21"

MAX_GAP = 1e-2


def warmup():
    e2e.compile_all()


class Problem:
    """A strongly convex least-squares or quadratic problem with known solution."""

    def __init__(self, spec):
        n = spec["dim"]
        rng = np.random.default_rng(spec["seed"])
        self.n = n
        self.unit = spec["unit"]
        self.shift = rng.uniform(-1, 1, size=n) * spec["shift"] * self.unit
        q, _ = np.linalg.qr(rng.normal(size=(n, n)))
        sing = np.geomspace(1, spec["cond"] ** 0.5, n) if n > 1 else np.array([2.0])
        m = n + spec["more"]
        big, _ = np.linalg.qr(rng.normal(size=(m, n)))
        self.disturb, self.level = 0, 0.0
        self.a = big @ np.diag(sing) @ q.T
        self.b = rng.normal(size=m) * spec["misfit"]
        self.bend = spec["bend"] if spec["functype"] == "least_squares" else 0.0
        d = rng.normal(size=n)
        d *= spec["distance"] / np.linalg.norm(d)
        self.x0 = self.shift + self.unit * d
        self.lower = self.upper = None
        self.seed = spec["seed"]
        self.factor = spec["factor"]
        self.const = spec["const"]
        self.functype = spec["functype"]
        perm = rng.permutation(m)
        self.perm = perm if spec["permute"] else np.arange(m)
        if spec["bounds"]:
            self._bounds(spec, rng)

    def residuals(self, x):
        u = (np.asarray(x, dtype=float) - self.shift) / self.unit
        v = self.a @ u
        if self.bend:
            v = v + self.bend * np.sin(v)
        out = (v - self.b) * self.factor
        if self.disturb:
            k = np.arange(len(out))
            wave = np.sin(self.disturb * (k + 1) + np.sum(x / self.unit))
            out = out * (1 + self.level * wave)
        return out

    def _bounds(self, spec, rng):
        """Boxes that contain the start, with some active coordinates at the solution."""
        n = self.n
        free = self._optimum(None, None)
        lo, up = np.full(n, -np.inf), np.full(n, np.inf)
        for j in range(n):
            kind = rng.integers(0, 4)
            gap = abs(free[j] - self.x0[j])
            if kind == 1:  # cuts off the solution
                cut = self.x0[j] + (free[j] - self.x0[j]) * rng.uniform(0.3, 0.9)
                if free[j] > self.x0[j]:
                    up[j] = cut
                else:
                    lo[j] = cut
            elif kind == 2:  # a wide box
                lo[j] = min(free[j], self.x0[j]) - self.unit * rng.uniform(0.5, 3)
                up[j] = max(free[j], self.x0[j]) + self.unit * rng.uniform(0.5, 3)
            elif kind == 3 and n > 1:  # start on a bound
                if free[j] > self.x0[j]:
                    lo[j] = self.x0[j]
                else:
                    up[j] = self.x0[j]
            width = 0.3 * self.unit
            if up[j] - lo[j] < width:
                lo[j] -= width
        self.lower = lo if spec["bounds"] != "upper" else None
        self.upper = up if spec["bounds"] != "lower" else None

    def _optimum(self, lower, upper):
        n = self.n
        lo = np.full(n, -np.inf) if lower is None else (lower - self.shift) / self.unit
        up = np.full(n, np.inf) if upper is None else (upper - self.shift) / self.unit
        if not self.bend:
            u = lsq_linear(self.a, self.b, bounds=(lo, up), tol=1e-14).x
        else:
            fun = lambda u: self.residuals(self.shift + self.unit * u) / self.factor
            start = np.clip((self.x0 - self.shift) / self.unit, lo, up)
            u = least_squares(
                fun, start, bounds=(lo, up), xtol=1e-15, ftol=1e-15, gtol=1e-15
            ).x
        return self.shift + self.unit * u

    def solve(self):
        return self._optimum(self.lower, self.upper)

    def value(self, x):
        r = self.residuals(x)
        return float(r @ r)

    def criterion(self):
        if self.functype == "scalar":
            return lambda x: self.value(x) + self.const
        return lambda x: self.residuals(x)[self.perm]


def run_optimizer(spec, prob):
    calls = []
    func = prob.criterion()
    kw = e2e.kwargs_of(spec)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if spec["via"] == "estimagic":

            def crit(x):
                calls.append(np.array(x, dtype=float))
                out = func(x)
                if prob.functype == "scalar":
                    return out
                return {"root_contributions": out, "value": float(out @ out)}

            bounds = {}
            if prob.lower is not None:
                bounds["lower_bounds"] = prob.lower
            if prob.upper is not None:
                bounds["upper_bounds"] = prob.upper
            name = "tranquilo" if prob.functype == "scalar" else "tranquilo_ls"
            res = minimize(crit, prob.x0.copy(), name, algo_options=kw, **bounds)
            return np.asarray(res.params, dtype=float), len(calls), res.message, calls

        def crit(x):
            calls.append(np.array(x, dtype=float))
            return func(x)

        res = _tranquilo(
            prob.functype,
            crit,
            prob.x0.copy(),
            lower_bounds=None if prob.lower is None else prob.lower.copy(),
            upper_bounds=None if prob.upper is None else prob.upper.copy(),
            **kw,
        )
        return res["solution_x"], len(calls), res["message"], calls


def measure(spec):
    prob = Problem(spec)
    best = prob.solve()
    f_best, f_start = prob.value(best), prob.value(prob.x0)
    x, n_calls, msg, calls = run_optimizer(spec, prob)
    gaps = np.array([prob.value(c) for c in calls]) - f_best
    return prob, best, f_best, f_start, x, n_calls, msg, gaps / max(f_start - f_best, 1e-300)


def evaluate(spec):
    """Gap of the returned value, evaluations until it was small, and labels."""
    prob, best, f_best, f_start, x, n_calls, msg, gaps = measure(spec)
    f = prob.value(x)
    # constants cost accuracy: values are only known up to rounding
    noise = 1e-7 * (abs(prob.const) if prob.functype == "scalar" else 0.0)
    drop = f_start - f_best
    require(drop >= -1e-9 * f_start, "the reference solution is not optimal")
    require(f <= f_start + noise, "value %r at the solution, %r at the start", f, f_start)
    if drop <= 1e-6 * max(f_start, 1e-8 * prob.factor**2):
        return None
    gap = (f - f_best - noise) / drop
    close = gaps <= MAX_GAP + noise / drop
    first = int(np.argmax(close)) if close.any() else len(gaps)
    text = "value %r, best possible %r, start %r: %s instead of %s (%s)" % (
        f,
        f_best,
        f_start,
        x.tolist(),
        best.tolist(),
        msg,
    )
    return gap, first, text


def is_bounded(spec):
    return spec["bounds"] is not None


def run_solve(spec):
    n = spec["dim"]
    failed, firsts = [], []
    for k in range(spec["group"]):
        one = copy.deepcopy(spec)
        one["seed"] = spec["seed"] * 8 + k
        one["options"]["seed"] = spec["options"]["seed"] + 1000 * k
        got = evaluate(one)
        if got is not None:
            gap, first, text = got
            if gap > MAX_GAP:
                failed.append("problem %s: %s" % (k, text))
            else:
                firsts.append(first)
    hard = spec["functype"] == "scalar" and is_bounded(spec)
    allowed = spec["group"] // 4 if hard else 0
    require(len(failed) <= allowed, "%s not solved: %s", len(failed), "; ".join(failed))
    require(
        not firsts or np.mean(firsts) <= 15 + 9 * n,
        "on average %s evaluations to get close to the solution in %s dimensions",
        np.mean(firsts) if firsts else 0,
        n,
    )
    labels = [spec["functype"], "dim %s" % n, spec["via"], str(spec["bounds"])]
    return Info(len(firsts) > 1, labels)


# evaluations that the default settings need on average to close 99 percent of the gap
TYPICAL = {
    ("scalar", 1, False): 5.7,
    ("scalar", 1, True): 5.7,
    ("scalar", 2, False): 7.8,
    ("scalar", 2, True): 7.7,
    ("scalar", 3, False): 10.3,
    ("scalar", 3, True): 10.4,
    ("scalar", 4, False): 13.4,
    ("scalar", 4, True): 14.1,
    ("least_squares", 1, False): 5.7,
    ("least_squares", 1, True): 5.6,
    ("least_squares", 2, False): 6.7,
    ("least_squares", 2, True): 6.5,
    ("least_squares", 3, False): 7.9,
    ("least_squares", 3, True): 7.7,
    ("least_squares", 4, False): 8.9,
    ("least_squares", 4, True): 8.7,
}


def run_speed(spec):
    n = spec["dim"]
    firsts, unsolved = [], 0
    for k in range(spec["group"]):
        one = copy.deepcopy(spec)
        rng = np.random.default_rng([spec["seed"], k])
        one["seed"] = int(rng.integers(10**6))
        one["options"] = {"seed": int(rng.integers(1000)), "stopping_max_iterations": 40}
        for key, pool in POOLS.items():
            one[key] = pool[rng.integers(len(pool))]
        got = evaluate(one)
        if got is not None:
            gap, first, _ = got
            unsolved += gap > MAX_GAP
            firsts.append(first)
    hard = spec["functype"] == "scalar" and is_bounded(spec)
    require(unsolved <= (spec["group"] // 10 if hard else 0), "%s not solved", unsolved)
    mean = float(np.mean(firsts))
    limit = 1.5 * TYPICAL.get((spec["functype"], n, is_bounded(spec)), 1e9)
    require(
        mean <= limit,
        "%s problems with %s parameters need %s evaluations on average, not at most %s",
        spec["functype"],
        n,
        mean,
        limit,
    )
    return Info(True, [spec["functype"], "dim %s" % n, "bounds" if is_bounded(spec) else "free"])


def variant(spec, what, k):
    """A problem that differs only in its representation, and the map of its points."""
    out = copy.deepcopy(spec)
    o = out["options"]
    prob = Problem(spec)
    if what == "unit":
        out["unit"] *= 2.0**k
        o["radius_options"]["initial_radius"] *= 2.0**k
        back = lambda xs: xs / 2.0**k
    elif what == "permute":
        out["permute"] = not spec["permute"]
        back = lambda xs: xs
    else:
        out["via"] = "estimagic"
        back = lambda xs: xs[1:]
    return out, back


def first_difference(a, b, tol):
    k = min(len(a), len(b))
    far = np.abs(a[:k] - b[:k]).max(axis=1) > tol
    return int(np.argmax(far)) if far.any() else k


def log_of(spec, disturb=0, level=0.0):
    prob = Problem(spec)
    prob.disturb, prob.level = disturb, level
    return prob, np.array(run_optimizer(spec, prob)[3])


# rounding that the change of representation brings with it
LEVELS = {"unit": [3e-16, 1e-15], "estimagic": [0.0], "permute": [3e-16, 1e-15]}


def run_relation(spec):
    base = copy.deepcopy(spec["base"])
    base["via"] = "direct"
    what = spec["what"]
    prob, log = log_of(base)
    other, back = variant(base, what, spec["k"])
    got = back(log_of(other)[1])
    same = first_difference(log, got, 1e-5 * prob.unit)
    whole = min(len(got), len(log))
    labels = [what, base["functype"]]
    if LEVELS[what] == [0.0]:
        stable = len(log)
        require(
            # tolerances may be absolute: only the end of the run depends on units
            same == whole and (what == "unit" or len(got) == len(log)),
            "%s: evaluation %s of %s (of %s) is at %s, without the change at %s",
            what,
            same,
            len(got),
            len(log),
            got[min(same, len(got) - 1)].tolist(),
            log[min(same, len(log) - 1)].tolist(),
        )
    else:
        # close to the solution rounding decides where the next points are
        best = prob.solve()
        gaps = np.array([prob.value(x) for x in log]) - prob.value(best)
        gaps /= max(gaps[0], 1e-300)
        near = np.flatnonzero(gaps < 1e-3)
        stable = min(len(log), int(near[0]) + 1 if len(near) else len(log))
        for level in LEVELS[what]:
            for k in range(1, 5):
                if same < stable:
                    disturbed = log_of(base, k, level)[1]
                    stable = min(stable, first_difference(log, disturbed, 1e-7 * prob.unit))
        require(
            same >= min(stable, whole),
            "%s: evaluation %s (of %s, stable until %s) is at %s, without the change at %s",
            what,
            same,
            len(log),
            stable,
            got[min(same, len(got) - 1)].tolist(),
            log[min(same, len(log) - 1)].tolist(),
        )
    return Info(same > 2 * prob.n + 2, labels)


POOLS = {
    "shift": [0.0, 1.0, 1.0, 5.0, 30.0],
    "unit": [1.0, 1.0, 0.1, 10.0],
    "cond": [1.0, 4.0, 10.0],
    "more": [0, 0, 1, 3],
    "misfit": [0.0, 0.3, 1.0],
    "bend": [0.0, 0.0, 0.3],
    "distance": [0.5, 1.0, 3.0],
    "factor": [1.0, 1.0, 0.03, 30.0],
    "const": [0.0, 0.0, 5.0, -100.0],
    "permute": [False, True],
    "via": ["direct", "direct", "estimagic"],
}


@st.composite
def cases(draw, tier, group=8):
    functype = draw(st.sampled_from(["scalar", "least_squares"]))
    spec = {
        "functype": functype,
        "dim": draw(st.integers(1, 4)),
        "seed": draw(st.integers(0, 10**6)),
        "bounds": draw(st.sampled_from([None, None, "both", "lower", "upper"])),
        "group": group,
    }
    for key, pool in POOLS.items():
        spec[key] = draw(st.sampled_from(pool))
    o = {"seed": draw(st.integers(0, 1000)), "stopping_max_iterations": 40}
    o.update(e2e.sampler_options(draw))
    has_bounds = spec["bounds"] is not None
    if draw(st.integers(0, 2)) == 0:
        o["sphere_subsolver"] = draw(
            st.sampled_from(["gqtpar", "gqtpar_fast"])
        )
        if has_bounds:
            o["cube_subsolver"] = draw(st.sampled_from(["bntr", "bntr_fast"]))
    if draw(st.integers(0, 2)) == 0:
        # few points cannot identify the constant of a square model without penalties
        pool = ["tranquilo"] if functype == "scalar" else ["ols", "tranquilo", "ridge"]
        o["model_fitter"] = draw(st.sampled_from(pool))
    if draw(st.integers(0, 2)) == 0:
        o["batch_size"] = draw(st.integers(2, 5))
        if draw(st.booleans()):
            o["acceptance_decider"] = "classic_line_search"
    if draw(st.integers(0, 2)) == 0:
        o["sample_filter"] = draw(
            st.sampled_from(["keep_all", "drop_excess", "clustering"])
        )
    if draw(st.integers(0, 2)) == 0:
        # without the old model, few points in a corner of a box say too little
        bounded_scalar = has_bounds and functype == "scalar"
        o["residualize"] = True if bounded_scalar else draw(st.booleans())
    spec["options"] = o
    return spec


@st.composite
def speeds(draw, tier):
    return {
        "functype": draw(st.sampled_from(["scalar", "least_squares"])),
        "dim": draw(st.integers(1, 4)),
        "seed": draw(st.integers(0, 10**6)),
        "bounds": draw(st.sampled_from([None, None, "both", "lower", "upper"])),
        "group": 40,
    }


@st.composite
def relations(draw, tier):
    base = draw(cases(tier, 1))
    o = base["options"]
    o["radius_options"] = {"initial_radius": draw(st.sampled_from([0.1, 0.5])) * base["unit"]}
    o["stopping_max_iterations"] = draw(st.sampled_from([5, 15]))
    base["unit"] = max(base["unit"], 1.0)
    what = draw(st.sampled_from(["unit", "permute", "estimagic"]))
    if what == "permute":
        base["functype"] = "least_squares"
        base["more"] = max(1, base["more"])
    return {"base": base, "what": what, "k": draw(st.sampled_from([1, 3, 6]))}


SUBS = [
    Sub(
        "relation",
        relations,
        run_relation,
        quick=800,
        thorough=30000,
        rule="the runs agree beyond the first sample",
    ),
    Sub(
        "solve",
        cases,
        run_solve,
        quick=208,
        thorough=8000,
        rule="at least two problems whose start is not optimal",
        cpu_limit=300.0,
    ),
    Sub(
        "speed",
        speeds,
        run_speed,
        quick=48,
        thorough=1600,
        rule="always",
        cpu_limit=300.0,
    ),
]
