"""Random data sets (including nearly collinear, shifted and scaled columns) on random graphs (one-way, undirected, soft-deleted edges, with other stored values): correlations against numpy and against the same data shifted and with the node order exchanged, direct effects against a least squares fit with intercept on all parents; non-trivial: at least two present edges."""
import itertools
import numpy as np
from actions import *
from causy.common_pipeline_steps.calculation import CalculatePearsonCorrelations
from causy.causal_effect_estimation.multivariate_regression import ComputeDirectEffectsInDAGsMultivariateRegression
RULE = __doc__
_m = []


def model():
    if not _m:
        _m.append(new_model())
    return _m[0]


def cases(rng, tier):
    for i in range(5000 if tier == "quick" else 30000):
        n = rng.choice([2, 3, 4, 5, 5, 7])
        what = rng.choice(["corr", "effect"])
        if what == "corr":
            sp = {"n": n, "edges": [e for a, b in itertools.combinations(range(n), 2) for e in ([a, b, "U", False], [b, a, "U", False])]}
        else:
            sp = rand_pdag(rng, n, rng.choice([.5, .9]), rng.choice([0, 0, .3]), .2)
        yield {**sp, "what": what, "rows": rng.choice([6, 10, 30]), "seed": rng.randrange(10 ** 6), "kind": rng.choice(["plain", "plain", "close", "equal", "far"])}


def nontrivial(inp):
    return len(inp["edges"]) > 2


def data(inp):
    r = np.random.RandomState(inp["seed"])
    n, m = inp["n"], max(inp["rows"], inp["n"] + 4)
    X = r.randn(m, n)
    for j in range(1, n):
        i = r.randint(j)
        X[:, j] += r.choice([-2, .5, 1]) * X[:, i]
    if inp["what"] == "corr" and inp["kind"] == "close":
        X[:, 1] = X[:, 0] * 3 + 1e-9 * r.randn(m)
    if inp["what"] == "corr" and inp["kind"] == "equal":
        X[:, 1] = -X[:, 0] * .3
    X = X * r.choice([.1, 1, 1, 20], n) + r.choice([0, 5, -30], n)
    if inp["what"] == "corr" and inp["kind"] == "far":
        X = X / X.std(0) + r.choice([1e5, -3e6, 2e7], n)      # a mean far larger than the spread (years, identifiers, timestamps)
    return X


def setup(m, inp, X):
    g = GraphManager(graph_class=m._graph_class)
    n = inp["n"]
    nodes = [g.add_node(["n" + IDS[j], NAMES[j]][inp["seed"] % 2], X[:, j].tolist(), id_=IDS[j]) for j in range(n)]
    done = set()
    for i, j, t, d in inp["edges"]:
        if (i, j) in done:
            continue
        if t == "U":
            g.add_edge(nodes[i], nodes[j], {"keep": [i, j], "x": 3})
            done |= {(i, j), (j, i)}
        else:
            g.add_directed_edge(nodes[i], nodes[j], {"keep": [i, j]}, etype("D"))
            done.add((i, j))
        if d:
            g.remove_directed_edge(nodes[i], nodes[j], soft_delete=True)
    m.graph = g
    return g, nodes


def metas(g):
    return {p: dict(e[2] or {}) for p, e in edge_map(g).items()}


def close(a, b, tol=1e-6):
    return abs(a - b) <= tol * (1 + abs(b))


def check(inp):
    m = model()
    X = data(inp)
    g, nodes = setup(m, inp, X)
    idx = {nd.id: k for k, nd in enumerate(nodes)}
    b0 = {p: dict(v) for p, v in metas(g).items()}
    e0 = {p: e[:2] for p, e in edge_map(g).items()}
    if inp["what"] == "corr":
        try:
            m.execute_pipeline_step(CalculatePearsonCorrelations())
        except Exception as e:
            return f"computing correlations failed: {type(e).__name__}: {e}"
        C = np.corrcoef(X.T)
        got = metas(g)
        for p, v in got.items():
            w = float(C[idx[p[0]], idx[p[1]]])
            c = v.get("correlation")
            if c is None:
                return f"no correlation stored for {p}"
            if not (-1 <= c <= 1):
                return f"correlation of {p} is {c!r}, outside [-1, 1]"
            if not close(c, w):
                return f"correlation stored for {p} is {c}, Pearson's is {w}"
            if {k: x for k, x in v.items() if k != "correlation"} != b0[p]:
                return f"other values of {p} changed from {b0[p]} to {v}"
        if {p: e[:2] for p, e in edge_map(g).items()} != e0:
            return "computing correlations changed edges or types"
        # shifted data and exchanged order
        g2, n2 = setup(m, inp, X + 7)
        for a, b in itertools.permutations(range(inp["n"]), 2):
            r = CalculatePearsonCorrelations().process([n2[a].id, n2[b].id], g2.graph)
            c = r.data["correlation"]
            if not -1 <= c <= 1 or not close(c, float(C[a, b])):
                return f"correlation of {(a, b)} on shifted data is {c}, expected {float(C[a, b])}"
        return None
    lv = live(g)
    try:
        m.execute_pipeline_step(ComputeDirectEffectsInDAGsMultivariateRegression())
    except Exception as e:
        return f"computing direct effects failed: {type(e).__name__}: {e}"
    got = metas(g)
    if {p: e[:2] for p, e in edge_map(g).items()} != e0:
        return "computing direct effects changed edges or types"
    for p, v in got.items():
        one = p in lv and (p[1], p[0]) not in lv
        if not one:
            if v != b0[p]:
                return f"edge {p} is not a present one-way edge but its values changed from {b0[p]} to {v}"
            continue
        if "direct_effect" not in v:
            return f"no direct effect stored for the one-way edge {p}"
        if {k: x for k, x in v.items() if k != "direct_effect"} != b0[p]:
            return f"other values of {p} changed from {b0[p]} to {v}"
        pa = [u for (u, w) in lv if w == p[1]]
        pa = [p[0]] + [u for u in pa if u != p[0]]
        Z = np.column_stack([X[:, idx[u]] for u in pa] + [np.ones(len(X))])
        w = float(np.linalg.lstsq(Z, X[:, idx[p[1]]], rcond=None)[0][0])
        if not close(v["direct_effect"], w, 1e-5):
            return f"direct effect stored for {p} is {v['direct_effect']}, the regression on all parents {pa} gives {w}"
    return None
