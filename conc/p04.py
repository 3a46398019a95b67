"""Every graph over 3 nodes with each ordered pair absent / present / soft-deleted, every directed graph over 4 nodes up to 5 edges, random graphs over 4-7 nodes (cycles, undirected, soft-deleted, isolated nodes), chains of 40 nodes; all pairs, by node and by id; non-trivial: at least two edges."""
import itertools
from util import *
RULE = __doc__
TERMINATION = True
CASE_LIMIT = 30


def cases(rng, tier):
    for e in pair_states(3, [None, ("D", False), ("U", True)]):
        yield {"n": 3, "edges": e}
    prs = [(i, j) for i in range(4) for j in range(4) if i != j]
    for k in range(2, 5 if tier == "quick" else 7):
        for c in itertools.combinations(prs, k):
            yield {"n": 4, "edges": [[i, j, "D", False] for i, j in c]}
    for _ in range(5000 if tier == "quick" else 60000):
        n = rng.randint(4, 7)
        sp = rand_graph(rng, n, rng.choice([.15, .3, .5]) if n > 5 else rng.choice([.3, .6, .9]), rng.choice([0, .2, .4]), "DU")
        if rng.random() < .5:
            extra = []
            for i, j, t, d in sp["edges"]:
                if rng.random() < .4 and not any(a == j and b == i for a, b, _, _ in sp["edges"]):
                    extra.append([j, i, t, d])
            sp["edges"] += extra
        if rng.random() < .25:
            sp["warm"] = rng.randrange(10 ** 6)
        yield sp
    for n in (20, 40):
        yield {"n": n, "ids": [f"n{(i * 7) % n}" for i in range(n)], "edges": [[i, i + 1, "D", False] for i in range(n - 1)]}
        yield {"n": n, "ids": [f"n{(i * 7) % n}" for i in range(n)], "edges": [[i, (i + 1) % n, "D", False] for i in range(n)]}


def nontrivial(inp):
    return len(inp["edges"]) > 1


def reach(succ, u):
    seen, todo = set(), [u]
    while todo:
        x = todo.pop()
        for y in succ.get(x, ()):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


def simple_paths(succ, u, v):
    out = []

    def go(p):
        if p[-1] == v:
            out.append(tuple(p))
            return
        for y in succ.get(p[-1], ()):
            if y not in p:
                go(p + [y])
    go([u])
    return out


def check(inp):
    g, ns = build(inp)
    ids = [n.id for n in ns]
    nodes = {n.id: n for n in ns}
    lv = {(ids[i], ids[j]) for i, j, t, d in inp["edges"] if not d}
    succ, only = {}, {}
    for a, b in sorted(lv):
        succ.setdefault(a, []).append(b)
        if (b, a) not in lv:
            only.setdefault(a, []).append(b)
    before = snapshot(g)
    big = len(ids) > 8
    for gr, what in ((g, "GraphManager"), (g.graph, "Graph")):
        for u in ids[::7] if big else ids:
            exp = reach(only, u) | {u}
            for x in (u, nodes[u]):
                try:
                    d = gr.descendants_of_node(x)
                except Exception as e:
                    return f"{what}.descendants_of_node({u}) raised {type(e).__name__}: {e}"
                got = [getattr(n, "id", n) for n in d]
                if set(got) != exp:
                    return f"{what}.descendants_of_node({u}) = {sorted(map(str, got))}, reachable over one-way edges: {sorted(exp)}; present edges {sorted(lv)}"
            r = reach(succ, u)
            for v in ids:
                if u == v:
                    continue
                for x, y in ((u, v), (nodes[u], nodes[v])):
                    try:
                        a = gr.directed_path_exists(x, y)
                    except Exception as e:
                        return f"{what}.directed_path_exists({u},{v}) raised {type(e).__name__}: {e}"
                    if bool(a) != (v in r):
                        return f"{what}.directed_path_exists({u},{v}) = {a}; present edges {sorted(lv)}"
                    try:
                        ps = gr.directed_paths(x, y)
                    except Exception as e:
                        return f"{what}.directed_paths({u},{v}) raised {type(e).__name__}: {e}"
                    got = sorted(tuple((a.id, b.id) for a, b in p) for p in ps)
                    want = sorted(tuple(zip(p, p[1:])) for p in simple_paths(succ, u, v))
                    if got != want:
                        return f"{what}.directed_paths({u},{v}) = {got}, expected {want}"
    d = diff(before, snapshot(g))
    return f"a query changed the graph: {d}" if d else None
