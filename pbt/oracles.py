"""What must be true of every observed optimization."""
import numpy as np

from pbt.core import require
from pbt.e2e import recorded, value_of

CONVERGENCE = {
    "Relative gradient norm smaller than tolerance.": "gtol_rel",
    "Absolute gradient norm smaller than tolerance.": "gtol_abs",
    "Relative criterion change smaller than tolerance.": "ftol_rel",
    "Absolute criterion change smaller than tolerance.": "ftol_abs",
    "Relative params change smaller than tolerance.": "xtol_rel",
    "Absolute params change smaller than tolerance.": "xtol_abs",
}
RADIUS_MSG = "Trust-region radius smaller than tolerance."
EVAL_MSG = "Maximum number of criterion evaluations reached."
ITER_MSG = "Maximum number of iterations reached."
TIME_MSG = "Maximum run time reached."

TOL_NAMES = {
    "ftol_abs": ("convergence_absolute_criterion_tolerance", 0.0),
    "gtol_abs": ("convergence_absolute_gradient_tolerance", 0.0),
    "xtol_abs": ("convergence_absolute_params_tolerance", 0.0),
    "ftol_rel": ("convergence_relative_criterion_tolerance", 2e-9),
    "gtol_rel": ("convergence_relative_gradient_tolerance", 1e-8),
    "xtol_rel": ("convergence_relative_params_tolerance", 1e-8),
}


def close(a, b, rtol=1e-9, atol=1e-12):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(
        np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    )


def inside(x, lower, upper):
    x = np.asarray(x, dtype=float)
    ok = np.isfinite(x).all()
    if lower is not None:
        ok = ok and bool((x >= lower).all())
    if upper is not None:
        ok = ok and bool((x <= upper).all())
    return bool(ok)


def check_bounds(out):
    lo, up = out.lower, out.upper
    for k, x in enumerate(out.crit.calls):
        require(inside(x, lo, up), "evaluation %d at %s violates the bounds", k, list(x))
    x = np.asarray(out.res["solution_x"], dtype=float)
    require(inside(x, lo, up), "the solution %s violates the bounds", list(x))
    for i, s in enumerate(out.states):
        require(inside(s.x, lo, up), "state %d: accepted point outside bounds", i)


def evaluations_by_point(out):
    """Maps the bytes of a parameter vector to all values obtained there, in order."""
    res = {}
    for x, v in zip(ordered_x(out), ordered_values(out)):
        res.setdefault(np.ascontiguousarray(x).tobytes(), []).append(v)
    return res


def evaluations_by_index(out, x):
    """The values obtained at x, one list per index under which x is stored."""
    res = {}
    for i, y, v in zip(recorded(out.history), ordered_x(out), ordered_values(out)):
        if np.array_equal(x, y):
            res.setdefault(i, []).append(v)
    return list(res.values())


def log_by_index(out):
    """Maps each index of the history to the values obtained for it, in order."""
    res = {}
    for i, v in zip(recorded(out.history), ordered_values(out)):
        res.setdefault(i, []).append(v)
    return res


def is_prefix_mean(f, vals):
    means = np.cumsum(vals) / np.arange(1, len(vals) + 1)
    scale = np.max(np.abs(vals))
    return bool(np.isclose(means, f, rtol=1e-9, atol=1e-12 + 1e-12 * scale).any())


def order_of(out):
    """Positions of the calls of the criterion in the order of the batches."""
    if out.evaluator is None:
        return list(range(len(out.crit.calls)))
    pos, base = [], 0
    for b, perm in zip(out.evaluator.batches, out.evaluator.perms):
        inv = [0] * len(perm)
        for k, i in enumerate(perm):
            inv[i] = base + k
        pos += inv
        base += len(perm)
    return pos


def ordered_x(out):
    return [out.crit.calls[k] for k in order_of(out)]


def ordered_raw(out):
    return [out.crit.raw[k] for k in order_of(out)]


def ordered_values(out):
    ft = out.crit.functype
    return [value_of(ft, r) for r in ordered_raw(out)]


def min_improvement(spec):
    return (
        spec["options"].get("acceptance_decider_options", {}).get("min_improvement", 0.0)
    )


def check_solution(spec, out):
    """The returned solution is an evaluated point, truthfully reported (C02)."""
    res, states = out.res, out.states
    x = np.asarray(res["solution_x"], dtype=float)
    f = float(res["solution_criterion"])
    vals = evaluations_by_point(out).get(np.ascontiguousarray(x).tobytes())
    require(vals is not None, "the solution %s was never evaluated", list(x))
    same = evaluations_by_index(out, x)
    noisy = bool(spec["problem"].get("noise"))
    if not noisy:
        require(
            any(close(f, v, 1e-12) for v in vals),
            "reported criterion %r but %s was obtained at the solution",
            f,
            vals,
        )
    else:
        require(
            any(is_prefix_mean(f, v) for v in same),
            "reported criterion %r is no average of the evaluations made there",
            f,
        )
    require(
        close(states[-1].x, x) and close(states[-1].fval, f),
        "the solution differs from the last accepted point",
    )
    if noisy:
        return
    values = ordered_values(out)
    f0 = values[0]
    # averages of several equal values are subject to rounding
    eps = 0.0
    if spec.get("noisy") or spec["options"].get("n_evals_per_point", 1) > 1:
        eps = 1e-13 * max(abs(v) for v in values if np.isfinite(v))
    require(f <= f0 + eps, "the solution is worse (%r) than the start (%r)", f, f0)
    mi = min_improvement(spec)
    log, xs = log_by_index(out), out.history.get_xs()
    for i in range(1, len(states)):
        prev, s = states[i - 1], states[i]
        require(
            s.fval <= prev.fval + eps,
            "the criterion value of the accepted point increased in iteration %d",
            i,
        )
        require(
            np.array_equal(xs[s.candidate_index], s.candidate_x)
            and s.candidate_index in log,
            "iteration %d: the trial point was not evaluated",
            i,
        )
        fc = log[s.candidate_index][0]
        if np.isfinite(fc) and prev.fval - fc >= mi + eps:
            require(
                s.fval <= fc + eps and f <= fc + eps,
                "iteration %d: a trial step to %r was lost (solution %r)",
                i,
                fc,
                f,
            )


def changes(old, new):
    """The quantities of the convergence criteria."""
    f_abs = abs(old.fval - new.fval)
    g = np.linalg.norm(new.model.linear_terms)
    dx = np.asarray(old.x) - np.asarray(new.x)
    return {
        "ftol_abs": f_abs,
        "ftol_rel": f_abs / max(abs(old.fval), 1),
        "xtol_abs": np.linalg.norm(dx),
        "xtol_rel": np.linalg.norm(dx / np.clip(np.abs(old.x), 1, np.inf)),
        "gtol_abs": g,
        "gtol_rel": g / max(g, 1),
    }


def tolerances(spec):
    o = spec["options"]
    return {k: o.get(name, default) for k, (name, default) in TOL_NAMES.items()}


def slack(tol):
    return tol * (1 + 1e-9) + 1e-300


def check_stop(spec, out):
    """Limits are kept and the reason for stopping is the truth (C03)."""
    o, states, msg = spec["options"], out.states, out.res["message"]
    max_iter = o.get("stopping_max_iterations", 200)
    max_eval = o.get("stopping_max_criterion_evaluations", 2000)
    n_iter = len(states) - 1
    require(n_iter <= max_iter, "%d iterations, the limit is %d", n_iter, max_iter)
    starts = out.iteration_starts
    if starts is not None:
        require(
            len(starts) == n_iter, "%d states but %d iterations", n_iter, len(starts)
        )
        for k, n in enumerate(starts[1:], start=2):
            require(
                n < max_eval,
                "iteration %d started after %d of %d allowed evaluations",
                k,
                n,
                max_eval,
            )
    n_eval = len(out.crit.calls)
    known = [*CONVERGENCE, RADIUS_MSG, EVAL_MSG, ITER_MSG, TIME_MSG, None]
    require(msg in known, "unknown message %r", msg)
    disabled = bool(o.get("disable_convergence"))
    if disabled:
        require(
            msg not in CONVERGENCE and msg != RADIUS_MSG,
            "convergence reported (%r) although it is disabled",
            msg,
        )
    tols = tolerances(spec)
    if msg in CONVERGENCE:
        require(n_iter >= 1, "convergence without an iteration")
        require(bool(states[-1].accepted), "convergence after a rejected step")
        name = CONVERGENCE[msg]
        value = changes(states[-2], states[-1])[name]
        require(
            value <= slack(tols[name]),
            "message %r but the criterion is %r and the tolerance %r",
            msg,
            value,
            tols[name],
        )
    elif msg == EVAL_MSG:
        require(
            n_eval >= max_eval,
            "message %r after %d of %d evaluations",
            msg,
            n_eval,
            max_eval,
        )
    elif msg == ITER_MSG:
        require(n_iter == max_iter, "message %r after %d iterations", msg, n_iter)
    elif msg == RADIUS_MSG:
        ro = o.get("radius_options", {})
        radius = states[-1].trustregion.radius * ro.get("shrinking_factor", 0.5)
        mn = o.get("convergence_min_trust_region_radius", 0.0)
        # the final radius is not recorded but it is at least the shrunken one (or the
        # smallest radius) and at most the expanded one
        lowest = min(radius, ro.get("max_radius", 1e6))
        ratio = ro.get("max_radius_to_step_ratio", np.inf)
        if states[-1].step_length and np.isfinite(ratio):
            lowest = min(lowest, states[-1].step_length * ratio)
        lowest = max(lowest, ro.get("min_radius", 1e-6))
        require(
            lowest <= slack(mn),
            "message %r but the radius is at least %r",
            msg,
            lowest,
        )
    elif msg == TIME_MSG:
        require(
            np.isfinite(o.get("stopping_max_time", np.inf)),
            "message %r without a time limit",
            msg,
        )
    if n_iter < max_iter and msg in (None, ITER_MSG):
        require(False, "stopped after %d iterations with message %r", n_iter, msg)
    if not disabled:
        for i in range(1, n_iter + (msg not in CONVERGENCE)):
            s = states[i]
            if not s.accepted:
                continue
            for name, value in changes(states[i - 1], s).items():
                tol = tols[name]
                if tol > 0:
                    ok = value > tol * (1 - 1e-9)
                else:
                    ok = value > 0
                require(
                    ok,
                    "went on after iteration %d although %s is %r (tolerance %r)",
                    i,
                    name,
                    value,
                    tol,
                )


def check_recording(out):
    """History = exactly the calls of the criterion, in order (C07)."""
    h = out.history
    xs, raws = ordered_x(out), ordered_raw(out)
    ft = out.crit.functype
    idx = recorded(h)
    require(
        len(idx) == len(xs) == h.get_n_fun(),
        "%d calls of the criterion, %d recorded, counter %d",
        len(xs),
        len(idx),
        h.get_n_fun(),
    )
    n = h.get_n_xs()
    all_x = h.get_xs()
    require(len(all_x) == n, "get_xs returns %d of %d points", len(all_x), n)
    seen = {}
    for k, (i, x, raw) in enumerate(zip(idx, xs, raws)):
        require(
            np.array_equal(all_x[i], x), "evaluation %d is stored under another point", k
        )
        rank = seen.get(i, 0)
        seen[i] = rank + 1
        fvec = h.get_fvecs(i)[rank]
        if raw is None:
            expected = np.full(np.shape(fvec), np.inf)
        else:
            expected = np.nan_to_num(raw, nan=np.inf, posinf=np.inf, neginf=-np.inf)
            expected = np.reshape(expected, -1)
        require(
            np.array_equal(np.asarray(fvec, float), expected),
            "evaluation %d returned %s but %s is stored",
            k,
            expected,
            fvec,
        )
        fval = float(h.get_fvals(i)[rank])
        require(
            close(fval, value_of(ft, raw), 1e-12),
            "evaluation %d has value %r but %r is stored",
            k,
            value_of(ft, raw),
            fval,
        )
    for i, c in h.get_n_evals(np.arange(n)).items():
        require(c == seen.get(int(i), 0), "get_n_evals is wrong for point %d", i)


def check_batches(out):
    ev = out.evaluator
    if ev is None:
        return
    n_cores = out.kwargs.get("n_cores", 1)
    for k, b in enumerate(ev.batches):
        require(len(b["xs"]) > 0, "batch %d is empty", k)
        require(
            1 <= b["n_cores"] <= min(n_cores, len(b["xs"])),
            "batch %d with %d evaluations asks for %d cores",
            k,
            len(b["xs"]),
            b["n_cores"],
        )
    flat = [x for b in ev.batches for x in b["xs"]]
    idx = recorded(out.history)
    require(len(flat) == len(idx), "batches and history have different lengths")
    xs = out.history.get_xs()
    for k, (x, i) in enumerate(zip(flat, idx)):
        require(np.array_equal(x, xs[i]), "batch entry %d was recorded elsewhere", k)


def check_faults(spec, out):
    """Failures are survived and never selected (C06)."""
    f = float(out.res["solution_criterion"])
    require(np.isfinite(f), "the solution has the criterion value %r", f)
    vals = ordered_values(out)
    noisy = bool(spec["problem"].get("noise"))
    log, xs = log_by_index(out), out.history.get_xs()
    for i, s in enumerate(out.states):
        require(np.isfinite(s.fval), "state %d has the criterion value %r", i, s.fval)
        v = log.get(s.index)
        require(
            v is not None and np.array_equal(xs[s.index], s.x),
            "state %d: accepted point never evaluated",
            i,
        )
        require(
            np.isfinite(v[0]), "state %d: accepted a point where the criterion failed", i
        )
    if not noisy:
        eps = 1e-13 * max(abs(v) for v in vals if np.isfinite(v))
        require(
            f <= vals[0] + eps, "the solution (%r) is worse than the start (%r)", f, vals[0]
        )


def check_trace(spec, out):
    """The recorded iterations agree with the history and each other (C20)."""
    h, states = out.history, out.states
    noisy = bool(spec.get("noisy"))
    n = h.get_n_xs()
    xs = h.get_xs()
    first = states[0]
    require(
        close(first.x, out.x0) and first.index == 0 and bool(first.accepted),
        "the first record does not describe the start point",
    )
    require(
        close(first.trustregion.center, out.x0), "the first region is not at the start"
    )
    require(
        list(np.atleast_1d(first.model_indices)) == [0]
        and first.candidate_index == 0
        and close(first.candidate_x, out.x0),
        "the first record has wrong indices",
    )
    require(np.isnan(first.rho), "the first record has an improvement ratio")
    if not out.crit.noise:
        pred = first.model.predict(np.zeros(len(out.x0)))
        require(
            close(pred, first.fval, 1e-9, 1e-300),
            "the first model predicts %r instead of %r at the start",
            pred,
            first.fval,
        )
    for i, s in enumerate(states):
        tr = s.trustregion
        for name in ("index", "candidate_index"):
            k = getattr(s, name)
            require(0 <= k < n, "state %d: %s %r is not in the history", i, name, k)
        require(
            np.array_equal(xs[s.index], s.x),
            "state %d: index does not refer to the accepted point",
            i,
        )
        require(
            np.array_equal(xs[s.candidate_index], s.candidate_x),
            "state %d: candidate index does not refer to the candidate",
            i,
        )
        vals = np.asarray(h.get_fvals(int(s.index)), dtype=float)
        if not noisy:
            require(
                close(vals.mean(), s.fval, 1e-12) or close(vals[0], s.fval, 1e-12),
                "state %d: value %r but the history says %s",
                i,
                s.fval,
                vals,
            )
        else:
            require(
                is_prefix_mean(s.fval, vals),
                "state %d: value %r is no average of the evaluations",
                i,
                s.fval,
            )
        if i == 0:
            continue
        require(
            close(s.model.shift, tr.effective_center)
            and close(
                np.broadcast_to(s.model.scale, tr.center.shape),
                np.broadcast_to(tr.effective_radius, tr.center.shape),
            ),
            "state %d: the model does not live on the region of the iteration",
            i,
        )
        prev = states[i - 1]
        require(
            close(tr.center, prev.x, 1e-12),
            "state %d: the region is not centered at the last accepted point",
            i,
        )
        step = np.linalg.norm(np.asarray(s.x) - tr.center)
        require(
            close(s.step_length, step, 1e-9, 1e-12),
            "state %d: step length %r, should be %r",
            i,
            s.step_length,
            step,
        )
        require(
            close(s.relative_step_length, step / tr.radius, 1e-9, 1e-12),
            "state %d: relative step length %r, should be %r",
            i,
            s.relative_step_length,
            step / tr.radius,
        )
        if s.accepted:
            require(
                s.index == s.candidate_index,
                "state %d: accepted another point than the candidate",
                i,
            )
        else:
            require(
                s.index == prev.index and close(s.fval, prev.fval),
                "state %d: rejected but the accepted point changed",
                i,
            )
        mi = np.asarray(s.model_indices, dtype=int)
        require(
            len(set(mi.tolist())) == len(mi) and (mi >= 0).all() and (mi < n).all(),
            "state %d: invalid model indices",
            i,
        )
        new = set(np.asarray(s.new_indices, dtype=int).tolist())
        used = set(np.asarray(s.old_indices_used, dtype=int).tolist())
        gone = set(np.asarray(s.old_indices_discarded, dtype=int).tolist())
        require(
            new | used == set(mi.tolist()) and not (new & used),
            "state %d: new and old points do not partition the model points",
            i,
        )
        require(
            not (gone & (new | used)), "state %d: discarded points are in the model", i
        )
        n_before = out.points_at_start[i - 1] if out.points_at_start else None
        if n_before is not None:
            # points created in this iteration (search: after its start) are new
            require(
                all(k >= n_before for k in new) and all(k < n_before for k in used | gone),
                "state %d: new and old points are misclassified",
                i,
            )
            factor = out.search_factor
            dist = np.linalg.norm(xs[:n_before] - prev.x, axis=1)
            radius = factor * tr.radius
            must = set(np.flatnonzero(dist < radius * (1 - 1e-9)).tolist())
            may = set(np.flatnonzero(dist <= radius * (1 + 1e-9)).tolist())
            considered = used | gone
            require(
                must <= considered <= may,
                "state %d: used and discarded points are not the points near the "
                "accepted point",
                i,
            )
        ev = h.get_n_evals(mi)
        require(
            all(v >= 1 for v in ev.values()), "state %d: model points not evaluated", i
        )
