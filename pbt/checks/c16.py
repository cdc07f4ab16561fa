"""C16: filtering, dropping and clustering keep points and indices consistent."""
from types import SimpleNamespace

import numpy as np
from hypothesis import strategies as st

from tranquilo.bounds import Bounds
from tranquilo.clustering import cluster
from tranquilo.filter_points import drop_worst_points, get_sample_filter
from tranquilo.region import Region

from pbt.core import Info, Sub, require

PROPERTY = "C16"


def warmup():
    cluster(np.zeros((3, 2)), 0.5)


def make_points(spec):
    """Points (rows), their indices and the state with the current point among them."""
    n, k = spec["dim"], spec["n_points"]
    rng = np.random.default_rng(spec["seed"])
    kind = spec["kind"]
    if kind == "lattice":
        u = rng.integers(-2, 3, size=(k, n)).astype(float) * 0.5
    elif kind == "line":
        u = np.zeros((k, n))
        u[:, 0] = rng.permutation(k) / max(1, k - 1) * 2 - 1
    elif kind == "clusters":
        mids = rng.uniform(-1, 1, size=(3, n))
        u = mids[rng.integers(0, 3, size=k)] + 10.0 ** spec["spread"] * rng.normal(size=(k, n))
    elif kind == "equal distance":
        u = rng.normal(size=(k, n))
        u /= np.linalg.norm(u, axis=1, keepdims=True)
        u *= rng.choice([0.5, 1.0, 1.5], size=(k, 1))
    else:
        u = rng.uniform(-1, 1, size=(k, n)) * spec["stretch"]
    center = np.round(rng.normal(size=n) * spec["offset"], 3)
    pos = spec["current"] % k
    u[pos] = 0.0
    xs = center + spec["radius"] * u
    xs[pos] = center
    if spec["duplicate"] and k > 1:
        xs[(pos + 1) % k] = center
    indices = rng.choice(10 * k, size=k, replace=False) + spec["first"]
    state = SimpleNamespace(
        x=center.copy(),
        index=int(indices[pos]),
        trustregion=Region(center=center.copy(), radius=spec["radius"], bounds=Bounds(None, None)),
    )
    return xs, indices, state


def paired(xs, indices, out_xs, out_indices, where):
    """The result consists of given points, each with its own index, each at most once."""
    out_xs, out_indices = np.asarray(out_xs), np.asarray(out_indices)
    require(
        out_xs.ndim == 2 and out_xs.shape == (len(out_indices), xs.shape[1]),
        "%s: shapes %s and %s",
        where,
        out_xs.shape,
        out_indices.shape,
    )
    own = {int(i): x for i, x in zip(indices, xs)}
    got = [int(i) for i in out_indices]
    require(len(set(got)) == len(got), "%s: an index appears twice: %s", where, got)
    for i, x in zip(got, out_xs):
        require(i in own, "%s: index %s was not given", where, i)
        require(np.array_equal(own[i], x), "%s: index %s is paired with another point", where, i)
    return frozenset(got)


def reachable(xs, indices, state, n_to_drop, cap=4000):
    """All sets of indices that remain if the documented rule is followed.

    Comparisons that are decided by rounding may go either way.  None if there are too
    many possibilities.
    """
    ids = [int(i) for i in indices]
    r = state.trustregion.radius
    size = max(np.abs(xs).max(), r)
    eps = 1e-9 * r + 1e-13 * size
    dist = {i: float(np.linalg.norm(x - state.x)) for i, x in zip(ids, xs)}
    pair = {
        (ids[a], ids[b]): float(np.linalg.norm(xs[a] - xs[b]))
        for a in range(len(ids))
        for b in range(a + 1, len(ids))
    }
    states = {frozenset(ids)}
    for _ in range(n_to_drop):
        new = set()
        for s in states:
            far = [i for i in s if dist[i] > r - eps]
            surely = [i for i in s if dist[i] > r + eps]
            if far:
                top = max(dist[i] for i in far)
                new.update(s - {i} for i in far if dist[i] >= top - eps)
            if surely:
                continue
            near = min(d for (a, b), d in pair.items() if a in s and b in s)
            for (a, b), d in pair.items():
                if a in s and b in s and d <= near + eps:
                    if a == state.index:
                        new.add(s - {b})
                    elif b == state.index:
                        new.add(s - {a})
                    else:
                        if dist[a] <= dist[b] + eps:
                            new.add(s - {a})
                        if dist[b] <= dist[a] + eps:
                            new.add(s - {b})
        states = new
        if len(states) > cap:
            return None
    return states


def check_dropped(xs, indices, state, n_to_drop, out, where):
    left = paired(xs, indices, *out, where)
    require(
        len(left) == len(xs) - n_to_drop,
        "%s: %s of %s points are left, %s were to be dropped",
        where,
        len(left),
        len(xs),
        n_to_drop,
    )
    if n_to_drop and n_to_drop < len(xs):
        require(state.index in left, "%s: the center was dropped", where)
    options = reachable(xs, indices, state, n_to_drop)
    if options is not None:
        require(left in options, "%s: remaining indices %s, allowed %s", where, sorted(left),
                [sorted(o) for o in list(options)[:3]])
        return ["unique" if len(options) == 1 else "ties"]
    return ["too many ties"]


def labels_of(spec, xs, state):
    d = np.linalg.norm(xs - state.x, axis=1) / state.trustregion.radius
    out = [spec["kind"], f"dim:{spec['dim']}"]
    out.append("points outside" if (d > 1).any() else "all inside")
    return out


def run_drop(spec):
    xs, indices, state = make_points(spec)
    k = len(xs)
    n_to_drop = min(spec["n_to_drop"], k - 1)
    before = (xs.copy(), indices.copy(), state.x.copy())
    out = drop_worst_points(xs, indices, state, n_to_drop)
    require(
        np.array_equal(xs, before[0])
        and np.array_equal(indices, before[1])
        and np.array_equal(state.x, before[2]),
        "inputs were modified",
    )
    labels = check_dropped(xs, indices, state, n_to_drop, out, "drop_worst_points")
    return Info(n_to_drop > 0, labels + labels_of(spec, xs, state))


def run_filter(spec):
    xs, indices, state = make_points(spec)
    name = spec["filter"]
    func = get_sample_filter(name, spec["options"])
    before = (xs.copy(), indices.copy())
    args = {
        "xs": xs,
        "indices": indices,
        "state": state,
        "target_size": spec["target"],
        "history": None,
        "n_evals_per_point": 1,
    }
    out = func(**args)
    require(
        np.array_equal(xs, before[0]) and np.array_equal(indices, before[1]),
        "inputs were modified",
    )
    labels = [name, *labels_of(spec, xs, state)]
    left = paired(xs, indices, *out, name)
    if name == "keep_all":
        require(left == frozenset(map(int, indices)), "keep_all dropped points")
    elif name == "discard_all":
        require(left == {state.index}, "discard_all kept %s", sorted(left))
    elif name == "drop_excess":
        limit = int(np.floor(spec["target"] * spec["options"].get("n_max_factor", 3)))
        drop = max(0, len(xs) - limit)
        labels += check_dropped(xs, indices, state, drop, out, name)
        labels.append("excess" if drop else "no excess")
    else:
        strict = spec["options"].get("strictness", 1e-10)
        n = spec["dim"]
        eps = state.trustregion.radius * (strict / spec["target"]) ** (1 / n)
        rows = {int(i): x for i, x in zip(indices, xs)}
        kept = np.array([rows[i] for i in left])
        tol = 1e-9 * eps + 1e-13 * np.abs(xs).max()
        for x in xs:
            d = np.linalg.norm(kept - x, axis=1).min()
            require(d <= eps + tol, "a point has no cluster center within %r (%r)", eps, d)
        gaps = [
            np.linalg.norm(xs - x, axis=1)[~np.all(xs == x, axis=1)].min(initial=np.inf)
            for x in xs
        ]
        alone = [i for i, g, x in zip(indices, gaps, xs) if g > eps + tol
                 and np.sum(np.all(xs == x, axis=1)) == 1]
        require(left >= frozenset(map(int, alone)), "an isolated point was removed")
        labels.append("merged" if len(left) < len(xs) else "nothing merged")
    return Info(len(left) < len(xs), labels)


def run_cluster(spec):
    xs, _, state = make_points(spec)
    k = len(xs)
    dist = np.linalg.norm(xs[:, None] - xs[None], axis=2)
    scale = state.trustregion.radius
    eps = scale * spec["eps"]
    if spec["exact"]:
        # a radius that is one of the distances
        eps = float(dist[0, spec["exact"] % k])
        eps *= 1 + 1e-7
    tol = 1e-12 * (scale + np.abs(xs).max())
    clear = not np.any(np.abs(dist[np.triu_indices(k, 1)] - eps) <= tol)
    before = xs.copy()
    labels, centers = cluster(xs, eps)
    require(np.array_equal(xs, before), "the points were modified")
    again = cluster(xs.copy(), eps)
    require(
        np.array_equal(labels, again[0]) and np.array_equal(centers, again[1]), "not repeatable"
    )
    labels, centers = np.asarray(labels), np.asarray(centers)
    m = len(centers)
    require(labels.shape == (k,) and centers.shape == (m,), "shapes")
    require(set(labels.tolist()) == set(range(m)), "labels %s, %s centers", labels, m)
    require(len(set(centers.tolist())) == m, "a center is used twice: %s", centers)
    require((centers >= 0).all() and (centers < k).all(), "centers %s", centers)
    for c in range(m):
        require(labels[centers[c]] == c, "center %s is not in its own cluster", centers[c])
    for i in range(k):
        d = dist[i, centers[labels[i]]]
        require(d <= eps + tol, "point %s is %r away from its center (radius %r)", i, d, eps)
    if clear:
        near = dist <= eps
        sizes = [int(np.sum(labels == c)) for c in range(m)]
        for c in range(m):
            rest = labels >= c
            if sizes[c] == 1:
                others = near[centers[c]] & rest
                others[centers[c]] = False
                require(not others.any(), "a single point has unassigned neighbours")
            else:
                require(
                    set(np.flatnonzero(near[centers[c]] & rest)) == set(
                        np.flatnonzero(labels == c)
                    ),
                    "cluster %s does not contain all remaining points within its radius",
                    c,
                )
                # neighbourhoods of the points that belong to this or a later cluster
                counts = (near & rest[None, :]).sum(axis=1)[rest]
                require(
                    counts.max() == sizes[c],
                    "cluster %s has %s points, %s would have been possible",
                    c,
                    sizes[c],
                    counts.max(),
                )
    out = [spec["kind"], "one cluster" if m == 1 else "all alone" if m == k else "some clusters"]
    return Info(1 < m < k, out)


@st.composite
def point_sets(draw, tier, big=False):
    k = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 8] + ([12, 20, 30] if big else [10])))
    return {
        "dim": draw(st.sampled_from([1, 2, 2, 3, 5])),
        "n_points": k,
        "kind": draw(
            st.sampled_from(["uniform", "uniform", "lattice", "line", "clusters", "equal distance"])
        ),
        "spread": draw(st.sampled_from([-6, -3, -1])),
        "stretch": draw(st.sampled_from([0.5, 1.0, 1.5, 3.0])),
        "offset": draw(st.sampled_from([0.0, 1.0, 100.0])),
        "radius": draw(st.sampled_from([1.0, 0.01, 0.3, 50.0])),
        "current": draw(st.integers(0, 30)),
        "duplicate": draw(st.sampled_from([False, False, False, True])),
        "first": draw(st.sampled_from([0, 0, 1000])),
        "seed": draw(st.integers(0, 10**9)),
    }


@st.composite
def drops(draw, tier):
    out = draw(point_sets(tier))
    out["n_to_drop"] = draw(st.sampled_from([0, 1, 1, 2, 3, 4, 9]))
    return out


@st.composite
def filters(draw, tier):
    out = draw(point_sets(tier, big=True))
    out["filter"] = draw(
        st.sampled_from(["keep_all", "discard_all", "clustering", "drop_excess", "drop_excess"])
    )
    out["target"] = draw(st.sampled_from([1, 2, 3, 5, 8]))
    options = {}
    if draw(st.booleans()):
        options["n_max_factor"] = draw(st.sampled_from([1, 2, 4]))
    if draw(st.sampled_from([True, True, False])):
        options["strictness"] = draw(st.sampled_from([1e-10, 1e-4, 0.1, 1.0, 5.0]))
    out["options"] = options
    return out


@st.composite
def clusterings(draw, tier):
    out = draw(point_sets(tier, big=True))
    out["eps"] = draw(st.sampled_from([0.0, 1e-9, 1e-3, 0.1, 0.3, 0.6, 0.75, 1.2, 3.0]))
    out["exact"] = draw(st.sampled_from([0, 0, 1, 2, 5]))
    return out


SUBS = [
    Sub("drop", drops, run_drop, quick=12000, thorough=400000, rule="a point is to be dropped"),
    Sub("filter", filters, run_filter, quick=12000, thorough=400000,
        rule="the filter removed a point"),
    Sub("cluster", clusterings, run_cluster, quick=12000, thorough=400000,
        rule="neither one cluster nor only single points"),
]
