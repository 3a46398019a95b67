"""Random lists of lagged edges (1-4 variables, lags 1-4, any listing order, zero and negative weights, variables depending on themselves, two edges between the same points in time; exact integer noise recorded by the noise source, integer initial values): every value after the first must be one recorded noise value, used once, plus weight times the value of the cause lag steps earlier (its first value before the start); the graph has one node per variable and step with that value and exactly the edges of the unrolled time series; for stable systems the standard deviation of the initial values is compared with the fixed point of the covariance equation; non-trivial: a lag greater than one."""
import collections, types, torch
from util import *
from causy.sample_generator import TimeseriesSampleGenerator, SampleEdge, TimeAwareNodeReference
RULE = __doc__
NAMES = ["B", "a", "Z9", "Z10", "x y", "ä"]


def cases(rng, tier):
    for lag in (1, 2, 3):
        for size in (1, 2, 3, 5):
            for w in (2, -.5):
                yield {"edges": [["X", "X", 1, .5], ["X", "Y", lag, w]], "size": size, "init": 0}
                yield {"edges": [["X", "Y", lag, w], ["Y", "X", 1, 1], ["X", "X", 2, 1]], "size": size, "init": 0}
    for lag in (7, 9, 12):
        yield {"edges": [["X", "X", 1, .5], ["X", "Y", lag, 2]], "size": lag + 4, "init": 0}
        yield {"edges": [["X", "X", 1, .5], ["Y", "X", 2, 1], ["X", "Y", lag, -1]], "size": lag + 2, "init": 3}
    yield {"edges": [["X", "X", 1, -1], ["X", "Y", 1, 1]], "size": 70, "init": 1}
    vs = [f"v{i}" for i in range(9)]
    yield {"edges": [[a, b, 1 + (i + j) % 3, 1] for i, a in enumerate(vs) for j, b in enumerate(vs) if (i + 2 * j) % 3 == 0], "size": 6, "init": 2}
    for i in range(2500 if tier == "quick" else 20000):
        vs = rng.sample(NAMES, rng.randint(1, 4))
        e = []
        for a in vs:
            for b in vs:
                for lag in range(1, rng.choice([2, 3, 5])):
                    if rng.random() < rng.choice([.2, .5]):
                        e.append([a, b, lag, rng.choice([1, -1, 2, .5, 0, -3])])
        if e and rng.random() < .15:
            e.append(list(rng.choice(e))[:3] + [rng.choice([1, 4, -.5])])
        rng.shuffle(e)
        if e:
            yield {"edges": e, "size": rng.choice([1, 2, 3, 5, 6]), "init": rng.randrange(50)}
    for i in range(400 if tier == "quick" else 2000):
        vs = rng.sample(NAMES, rng.randint(1, 3))
        e = [[a, b, lag, rng.choice([.5, .25, -.25, .125, -.5])] for a in vs for b in vs for lag in range(1, rng.choice([2, 3, 4, 6])) if rng.random() < .4]
        if e and rng.random() < .2:
            e.append(list(rng.choice(e))[:3] + [rng.choice([.25, -.125])])
        # stable: the weights into a variable add up to less than one
        s = max([sum(abs(x[3]) for x in e if x[1] == v) for v in vs] + [0])
        if e and s < .9:
            rng.shuffle(e)
            yield {"edges": e, "size": 2, "init": "std"}


def nontrivial(inp):
    return any(e[2] > 1 for e in inp["edges"])


def deviations(edges, vs):
    """standard deviations of the stationary process with unit noise"""
    lag, n = max(e[2] for e in edges), len(vs)
    m = n * lag
    A = [[0.0] * m for _ in range(m)]
    for a, b, l, w in edges:
        A[vs.index(b)][(l - 1) * n + vs.index(a)] += w
    for i in range(n, m):
        A[i][i - n] = 1.0
    A, Q = torch.tensor(A, dtype=torch.float64), torch.zeros(m, m, dtype=torch.float64)
    for i in range(n):
        Q[i][i] = 1.0
    S = Q.clone()
    # doubling: S_{k+1} = S_k + A_k S_k A_k^T, A_{k+1} = A_k A_k
    for _ in range(40):
        S, A = S + A @ S @ A.T, A @ A
    return {v: float(S[i][i]) ** .5 for i, v in enumerate(vs)}


def check(inp):
    edges, size = inp["edges"], inp["size"]
    vs = sorted({x for e in edges for x in e[:2]})
    draws, asked = [], []

    def noise():
        draws.append(float(3 ** 9 + 1001 * len(draws) ** 2 % 65537 + len(draws) * 16) + 2.0 ** -12 * (len(draws) % 5 + 1))
        return draws[-1]

    def initial(x):
        asked.append(float(x))
        return torch.tensor(float(7 + 11 * len(asked) + (inp["init"] if isinstance(inp["init"], int) else 0)), dtype=torch.float64)
    se = [SampleEdge(TimeAwareNodeReference(a, -l), TimeAwareNodeReference(b), w) for a, b, l, w in edges]
    gen = TimeseriesSampleGenerator(edges=se, random=noise)
    if not hasattr(gen, "_initial_distribution_fn"):
        return None
    gen._initial_distribution_fn = initial
    out, g = gen.generate(size)
    if set(out) != set(vs):
        return f"variables of the data are {sorted(out)}, expected {vs}"
    if inp["init"] == "std" and len(asked) == len(vs):
        want = deviations(edges, vs)
        # which variable a call was made for is seen from the value it returned
        first = {float(out[v][0]): v for v in vs}
        for i, s in enumerate(asked):
            v = first.get(float(7 + 11 * (i + 1)))
            if v is None:
                return "the initial values are not the drawn ones"
            if abs(s - want[v]) > 1e-3 * (1 + want[v]):
                return f"the initial value of {v} is drawn with standard deviation {s}, the stationary process has {want[v]}"
    vals = {v: [float(x) for x in out[v]] for v in vs}
    r = residuals(edges, vals, size, draws)
    if r:
        return r
    want = {f"{v}-t{t}": (f"{v} - t{t}", vals[v][t]) for v in vs for t in range(size)}
    if set(g.nodes) != set(want):
        return f"nodes of the graph are {sorted(g.nodes)}, expected {sorted(want)}"
    for k, (name, x) in want.items():
        if g.nodes[k].name != name or [float(y) for y in g.nodes[k].values.tolist()] != [x]:
            return f"node {k} of the graph is {g.nodes[k].name} with {g.nodes[k].values.tolist()}, expected {name} with {x}"
    we = {(f"{a}-t{t - l}", f"{b}-t{t}") for a, b, l, _ in edges for t in range(l, size)}
    if live(g) != we or set(edge_map(g)) != we:
        return f"edges of the graph: missing {sorted(we - live(g))[:4]}, not expected {sorted(live(g) - we)[:4]}"
    if any(t[1] != "D" for t in edge_map(g).values()):
        return "an edge of the graph of the sample is not directed"
    if [(e.from_node.node, e.to_node.node, -e.from_node.point_in_time, e.value) for e in se] != [tuple(e) for e in edges]:
        return "the caller's edges were changed"
    return coherent(g)


def residuals(edges, vals, size, draws):
    left = collections.Counter(draws)
    for v, x in vals.items():
        if len(x) != size:
            return f"{v} has {len(x)} values instead of {size}"
        for t in range(1, size):
            r = x[t] - sum(w * vals[a][max(t - l, 0)] for a, b, l, w in edges if b == v)
            if left[r] < 1:
                return f"step {t} of {v} is {x[t]}: not a noise value plus the weighted causes (noise would be {r})"
            left[r] -= 1
    return None
