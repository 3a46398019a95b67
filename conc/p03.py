"""Every graph over 3 nodes whose ordered pairs are absent / present (two types) / soft-deleted, and random graphs over 4-6 nodes; all queries for all pairs of nodes and ids, including an unknown id; non-trivial: at least one edge."""
from util import *
RULE = __doc__


def cases(rng, tier):
    opts = [None, ("D", False), ("U", True), ("U", False)] if tier == "quick" else [None, ("D", False), ("D", True), ("U", False), ("U", True), ("B", False)]
    for e in pair_states(2, [None, ("D", False), ("D", True), ("U", False), ("U", True), ("B", False)]):
        yield {"n": 3, "edges": e}
    for e in pair_states(3, opts):
        yield {"n": 3, "edges": e}
    for n in (10, 18):
        for p in (.1, .4, .9):
            sp = rand_graph(rng, n, p, .2, "DUB")
            yield {**sp, "ids": [f"n{(i * 7) % n}" for i in range(n)]}
        for k in "DU":
            yield {"n": n, "ids": [f"n{i}" for i in range(n)], "edges": [x for j in range(1, n) for x in [[j, 0, k, False], [0, j, k, False]][:1 + (k == "U")]]}
    for _ in range(5000 if tier == "quick" else 40000):
        sp = rand_graph(rng, rng.choice([3, 4, 5, 6, 6, 8]), rng.choice([.2, .5, .8]), .3, "DUB")
        if rng.random() < .5:     # some edges physically removed again
            sp["removed"] = [e[:2] for e in sp["edges"] if rng.random() < .2]
        if rng.random() < .3:
            sp["purge"] = True
        if rng.random() < .3:
            sp["warm"] = rng.randrange(10 ** 6)
        yield sp


def nontrivial(inp):
    return bool(inp["edges"])


def check(inp):
    g, ns = build(inp)
    for i, j in inp.get("removed", []):
        g.remove_directed_edge(ns[i], ns[j])
    if inp.get("purge"):
        g.purge_soft_deleted_edges()
    ids = [n.id for n in ns]
    em = {}
    for i, j, t, dead in inp["edges"]:
        em[(ids[i], ids[j])] = (dead, t, {"v": i * 10 + j})
    for i, j in inp.get("removed", []):
        em.pop((ids[i], ids[j]), None)
    if inp.get("purge"):
        em = {k: v for k, v in em.items() if not v[0]}
    lv = {k for k, v in em.items() if not v[0]}
    before = snapshot(g)
    for gr, what in ((g, "GraphManager"), (g.graph, "Graph")):
        r = queries(gr, what, ns, ids, em, lv)
        if r:
            return r
    d = diff(before, snapshot(g))
    if d:
        return f"a query changed the graph: {d}"
    return None


def both(f, u, v, nodes):
    a = f(u, v)
    if u in nodes and v in nodes:
        b, c, d = f(nodes[u], nodes[v]), f(nodes[u], v), f(u, nodes[v])
        if not (a == b == c == d):
            raise Diff(f"by id ({u},{v}): {a}, by node: {b}, mixed: {c}, {d}")
    return a


class Diff(Exception):
    pass


def queries(g, what, ns, ids, em, lv):
    nodes = {n.id: n for n in ns}
    try:
        for u in ids + ["unknown"]:
            for v in ids + ["unknown"]:
                exp = {"edge_exists": (u, v) in lv or (v, u) in lv, "directed_edge_exists": (u, v) in lv,
                       "undirected_edge_exists": (u, v) in lv and (v, u) in lv,
                       "only_directed_edge_exists": (u, v) in lv and (v, u) not in lv,
                       "directed_edge_is_soft_deleted": (u, v) in em and em[(u, v)][0]}
                for q, e in exp.items():
                    a = both(getattr(g, q), u, v, nodes)
                    if bool(a) != e:
                        return f"{what}.{q}({u},{v}) is {a}, expected {e}"
                for t in "DUB":
                    a = both(lambda x, y: g.edge_of_type_exists(x, y, etype(t)), u, v, nodes)
                    if bool(a) != ((u, v) in lv and em[(u, v)][1] == t):
                        return f"{what}.edge_of_type_exists({u},{v},{t}) is {a}"
                src = (u, v) if (u, v) in lv else (v, u) if (v, u) in lv else None
                a = both(g.edge_value, u, v, nodes)
                if a != (em[src][2] if src else None):
                    return f"{what}.edge_value({u},{v}) is {a}, expected {em[src][2] if src else None}"
                a = both(lambda x, y: tname(g.edge_type(x, y)) if g.edge_type(x, y) is not None else None, u, v, nodes)
                if a != (em[src][1] if src else None):
                    return f"{what}.edge_type({u},{v}) is {a}, expected {em[src][1] if src else None}"
        for u in ids:
            for x in (u, nodes[u]):
                p = [n.id for n in g.parents_of_node(x)]
                if sorted(p) != sorted(a for a, b in lv if b == u):
                    return f"{what}.parents_of_node({u}) is {p}, present edges {sorted(lv)}"
                s = [getattr(n, "id", n) for n in g.get_siblings(x)]
                if sorted(s) != sorted(w for w in ids if (u, w) in lv and (w, u) in lv):
                    return f"{what}.get_siblings({u}) is {sorted(s)}, present edges {sorted(lv)}"
            if g.node_by_id(u) is not nodes[u] or g.node_by_id("unknown") is not None:
                return f"{what}.node_by_id({u})"
        es = [(e.u.id, e.v.id) for e in g.retrieve_edges()]
        if sorted(es) != sorted(lv):
            return f"{what}.retrieve_edges() lists {sorted(es)}, present edges {sorted(lv)}"
    except Diff as e:
        return f"{what}: {e}"
    except Exception as e:
        return f"{what}: a query raised {type(e).__name__}: {e}"
    return None
