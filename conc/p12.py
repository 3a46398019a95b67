"""Random data sets (3-5 variables, 8-60 rows, dependent and independent columns, many thresholds, also just above and below the p-value) on graphs with present, missing and soft-deleted edges: every independence test on every node combination against p-values computed with numpy/scipy from the data; perfectly correlated variables; non-trivial: at least one edge is present and the decision depends on the threshold."""
import itertools, math
import numpy as np
from scipy import stats as _st
from actions import *
from causy.causal_discovery.constraint.independence_tests import common as it
RULE = __doc__
TESTS = {"corr": "CorrelationCoefficientTest", "part": "PartialCorrelationTest", "mat": "ExtendedPartialCorrelationTestMatrix", "reg": "ExtendedPartialCorrelationTestLinearRegression"}


def cases(rng, tier):
    yield {"perfect": "corr", "seed": 1}
    yield {"perfect": "corr", "seed": 2, "sign": -1}
    yield {"perfect": "mat", "seed": 1}
    yield {"perfect": "mat", "seed": 3, "sign": -1}
    yield {"perfect": "part", "seed": 1}
    for s in range(1, 9):
        for sign in (1, -1):
            yield {"perfect": "reg", "seed": s, "sign": sign}
    yield {"shifted": True, "test": "reg", "n": 4, "rows": 30, "seed": 5, "thr": .05, "dep": .6}
    for n in (3, 4, 5):
        for t in ("reg", "mat") + (("part",) if n == 3 else ()):
            for d in range(3):          # the fewest rows the test is defined for
                for s in range(6):
                    yield {"test": t, "n": n, "rows": n + (1 if t == "reg" else 2) + d, "seed": 31 * s + d, "thr": .3, "near": [0, .02, -.02, .3, -.3, .1][s], "dep": [.3, .9][s % 2]}
    for t in TESTS:
        for s, m in enumerate([110, 250, 400, 1100]):
            for near in (.02, -.02, .005, -.005):
                for q in range(4):
                    yield {"test": t, "n": 3, "rows": m, "seed": 77 * s + q, "thr": .05, "near": near, "dep": .1}
    for n in (7, 8, 10):
        for t in ("reg", "mat"):
            for s in range(5):
                yield {"test": t, "n": n, "rows": [25, 60, 120][s % 3], "seed": 13 * s + n, "thr": .1, "near": [0, .02, -.02, .3, -.3][s], "dep": [.1, .4][s % 2]}
    for i in range(2500 if tier == "quick" else 60000):
        t = rng.choice(list(TESTS))
        n = {"corr": rng.randint(2, 4), "part": rng.choice([3, 3, 4]), "mat": rng.choice([3, 3, 4, 4, 5, 6]), "reg": rng.choice([3, 3, 4, 4, 5, 6])}[t]
        yield {"test": t, "n": n, "rows": rng.choice([8, 10, 12, 20, 40, 60]), "seed": rng.randrange(10 ** 6), "thr": rng.choice([1e-9, 1e-6, .001, .01, .05, .1, .3, .5, .9]),
               "near": rng.choice([0, 0, 1e-4, -1e-4, .02, -.02, .3, -.3]), "dep": rng.choice([0, .1, .3, .6, .9, .9, 4]), "miss": rng.choice([0, 0, .2]), "dead": rng.choice([0, 0, .3])}


def nontrivial(inp):
    return "perfect" not in inp


def data(inp):
    r = np.random.RandomState(inp["seed"])
    n, m = inp["n"], inp["rows"]
    X = r.randn(m, n) * r.choice([.1, 1, 5], n)
    for j in range(1, n):
        for i in range(j):
            if r.rand() < .6:
                X[:, j] += inp["dep"] * r.choice([-1, 1]) * X[:, i] * (X[:, j].std() / X[:, i].std())
    if inp["test"] == "reg" and not inp.get("shifted"):
        X -= X.mean(0)
    else:
        X += r.choice([0, 0, 3, -7], n)
    if inp.get("shifted"):
        X = X - X.mean(0) + 50
    return X


def pcorr(X, a, b, S):
    Z = np.column_stack([np.ones(len(X))] + [X[:, s] for s in S])
    ra = X[:, a] - Z @ np.linalg.lstsq(Z, X[:, a], rcond=None)[0]
    rb = X[:, b] - Z @ np.linalg.lstsq(Z, X[:, b], rcond=None)[0]
    return float(ra @ rb / math.sqrt((ra @ ra) * (rb @ rb)))


def pval(kind, r, m, k):
    if kind == "reg":
        dof = m - 2 - k
        return 2 * _st.t.sf(abs(r) * math.sqrt(dof / (1 - r * r)), dof)
    return 2 * _st.norm.sf(abs(math.atanh(r)) * math.sqrt(m - k - 3))


def check(inp):
    t = inp.get("test") or inp["perfect"]
    cls = getattr(it, TESTS[t], None)
    if cls is None:
        raise Skip(TESTS[t] + " is gone")
    if "perfect" in inp:
        return perfect(inp, t, cls)
    X = data(inp)
    m, n = X.shape
    rng = random.Random(inp["seed"])
    g, nodes = new_graph(n, values=[X[:, j].tolist() for j in range(n)])
    present = set()
    for a, b in itertools.combinations(range(n), 2):
        if rng.random() < inp.get("miss", 0):
            continue
        g.add_edge(nodes[a], nodes[b], {"correlation": float(np.corrcoef(X[:, a], X[:, b])[0, 1]), "other": 1})
        if rng.random() < inp.get("dead", 0):
            g.remove_edge(nodes[a], nodes[b], soft_delete=True)
        else:
            present |= {(a, b), (b, a)}
    idx = {nd.id: k for k, nd in enumerate(nodes)}
    if inp.get("near"):
        # a threshold close to one of the p-values
        k = 2 if t == "corr" else 3 if t == "part" else rng.randint(3, n)
        c = rng.sample(range(n), k)
        r = pcorr(X, c[0], c[1], c[2:])
        p = pval(t, r, m, k - 2) if 1 - abs(r) > 1e-7 else 0
        if 1e-5 < p < .7:
            inp = {**inp, "thr": p * (1 + inp["near"])}
    st = cls(threshold=inp["thr"])
    size = {"corr": [2], "part": [3]}.get(t) or list(range(3, n + 1))
    before = snapshot(g)
    for k in size:
        for combo in itertools.permutations(range(n), k) if n < 7 else [rng.sample(range(n), k) for _ in range(25)]:
            combo = tuple(combo)
            if t == "part" and list(combo) != sorted(combo) and rng.random() < .6:
                continue
            e = one(t, st, g, nodes, X, m, combo, present, idx, inp)
            if e:
                return e
    if snapshot(g) != before:
        return f"{TESTS[t]} changed the graph: {diff(before, snapshot(g))}"
    return None


def one(t, st, g, nodes, X, m, combo, present, idx, inp):
    ids = [nodes[c].id for c in combo]
    what = f"{TESTS[t]} on {combo}, threshold {inp['thr']}"
    if t == "part":
        want = {}
        full = all(p in present for p in itertools.combinations(combo, 2))
        for z in combo:
            a, b = [c for c in combo if c != z]
            want[frozenset((a, b))] = (z, full)
    else:
        want = {frozenset(combo[:2]): (None, all((c, combo[0]) in present for c in combo[1:]))}
    adjacent = (combo[0], combo[1]) in present
    try:
        out = st.process(list(ids), g.graph)
    except Exception as e:
        if t == "corr" and not adjacent:
            return None          # nothing stored for a missing edge: certainly no removal is proposed
        return f"{what} failed: {type(e).__name__}: {e}"
    out = [] if out is None else list(out) if isinstance(out, (list, tuple)) else [out]
    got = {}
    for r in out:
        pr = frozenset((idx[r.u.id], idx[r.v.id]))
        if r.action.name == "DO_NOTHING":
            continue
        if r.action.name != "REMOVE_EDGE_UNDIRECTED":
            return f"{what}: unexpected proposal {r.action.name}"
        if pr not in want:
            return f"{what}: proposes to remove the edge of another pair {sorted(pr)}"
        if pr in got:
            return f"{what}: proposes the removal of {sorted(pr)} twice"
        got[pr] = sorted(idx[s.id] for s in r.data["separatedBy"])
    for pr, (z, must) in want.items():
        a, b = sorted(pr)
        S = [z] if t == "part" else [c for c in combo[2:]]
        r = pcorr(X, a, b, S)
        if 1 - abs(r) < (1e-4 if t == "reg" else 1e-7):        # perfect (the regression variant rounds to four digits)
            continue
        p = pval(t, r, m, len(S))
        if abs(p - inp["thr"]) < 1e-7 + 1e-6 * inp["thr"]:
            continue
        if pr in got:
            if (a, b) not in present:
                return f"{what}: proposes to remove the missing edge {sorted(pr)}"
            if p <= inp["thr"]:
                tag = " (regression variant on data with a mean other than zero)" if inp.get("shifted") else ""
                return f"{what}: removes {sorted(pr)} although the p-value given {S} is {p:.3g}{tag}"
            if got[pr] != sorted(S):
                return f"{what}: recorded separating set {got[pr]}, tested set {sorted(S)}"
        elif (a, b) in present and must and p > inp["thr"]:
            tag = " (regression variant on data with a mean other than zero)" if inp.get("shifted") else ""
            return f"{what}: keeps {sorted(pr)} although the p-value given {S} is {p:.3g}{tag}"
    return None


def perfect(inp, t, cls):
    r = np.random.RandomState(inp["seed"])
    m, s = 20, inp.get("sign", 1)
    x = np.array([float(v) for v in r.permutation(m)])
    cols = [x, s * 2 * x, r.randn(m)] if t != "corr" else [x, s * 2 * x]
    n = len(cols)
    g, nodes = new_graph(n, values=[c.tolist() for c in cols])
    idx = {nd.id: k for k, nd in enumerate(nodes)}
    for a, b in itertools.combinations(range(n), 2):
        c = float(s) if (a, b) == (0, 1) else float(np.corrcoef(cols[a], cols[b])[0, 1])
        g.add_edge(nodes[a], nodes[b], {"correlation": c})
    st = cls(threshold=.01)
    for combo in ([[0, 1]] if t == "corr" else [[0, 1, 2], [2, 1, 0], [1, 0, 2]]):
        try:
            out = st.process([nodes[c].id for c in combo], g.graph)
        except (ZeroDivisionError, ValueError) as e:
            return f"perfectly correlated variables: {TESTS[t]} raises {type(e).__name__}"
        for r in (out if isinstance(out, list) else [out] if out else []):
            if r.action.name == "REMOVE_EDGE_UNDIRECTED" and {idx[r.u.id], idx[r.v.id]} == {0, 1}:
                return f"perfectly correlated variables: {TESTS[t]} proposes to remove the edge between them"
    return None
