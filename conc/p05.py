"""Every DAG over 4 labelled nodes (up to relabelling of the order: edges i->j with i<j, node insertion order permuted), random DAGs over 5-6 nodes, every pair and every conditioning set, sparse DAGs with long paths over 7-10 nodes with sampled pairs and conditioning sets (favouring colliders and their descendants), given as nodes, as ids and mixed, in several orders; oracle: moralised ancestral graph; non-trivial: at least two edges."""
import itertools
from util import *
from dsep import dsep_dag
RULE = __doc__


def cases(rng, tier):
    prs = list(itertools.combinations(range(4), 2))
    perms = list(itertools.permutations(range(4)))
    for k in range(2 ** 6):
        for pm in [perms[0]] + rng.sample(perms[1:], 3 if tier == "quick" else 10):
            yield {"n": 4, "edges": [[pm[i], pm[j], "D", False] for b, (i, j) in enumerate(prs) if k >> b & 1], "dead": []}
    for _ in range(400 if tier == "quick" else 4000):
        yield sparse(rng, 1)
    for _ in range(1500 if tier == "quick" else 8000):
        n = rng.randint(5, 6 if tier == "quick" else 7)
        o = list(range(n))
        rng.shuffle(o)
        e = [[o[i], o[j], "D", False] for i, j in itertools.combinations(range(n), 2) if rng.random() < rng.choice([.3, .5])]
        free = [(a, b) for a in range(n) for b in range(n) if a != b and not any({a, b} == {x[0], x[1]} for x in e)]
        rng.shuffle(free)
        rng.shuffle(e)
        yield {"n": n, "edges": e, "dead": [[a, b, "D", True] for a, b in free[:rng.choice([0, 0, 1, 2])]], **({"warm": rng.randrange(10 ** 6)} if rng.random() < .3 else {})}



def sparse(rng, directed):
    """a chain through 7-10 nodes (and up to two more edges): long paths, few of them"""
    n = rng.randint(7, 10)
    path = list(range(n))
    rng.shuffle(path)
    rank = list(range(n))
    rng.shuffle(rank)
    if rng.random() < .5:
        # few colliders
        rank = [i for _, i in sorted((rank[i] if rng.random() < .2 else -abs(path.index(i) - rng.choice([0, n // 2])), i) for i in range(n))]
        rank = [rank.index(i) for i in range(n)]
    und = {frozenset(x) for x in zip(path, path[1:])}
    for _ in range(rng.choice([0, 0, 1, 2])):
        und.add(frozenset(rng.sample(range(n), 2)))
    e = []
    for a, b in sorted(tuple(sorted(x)) for x in und):
        if rank[a] > rank[b]:
            a, b = b, a
        e += [[a, b, "D", False]] if rng.random() < directed else [[a, b, "U", False], [b, a, "U", False]]
    rng.shuffle(e)
    pa = {i: [x[0] for x in e if x[1] == i and x[2] == "D"] for i in range(n)}
    col = [i for i in range(n) if len(pa[i]) > 1]
    ask = []
    for k in range(30):
        i, j = sorted(rng.sample(range(n), 2)) if k % 3 else (rng.choice([0, 0, 1]), n - 1)
        u, v = path[i], path[j]
        if rng.random() < .5:
            u, v = v, u
        z = {c for c in col if rng.random() < rng.choice([.5, .9, 1])} | {c for c in range(n) if rng.random() < rng.choice([0, 0, .1, .3])}
        if rng.random() < .3:
            z = {rng.choice([x[1] for x in e if x[0] == c and x[2] == "D"] or [c]) for c in z}
        ask.append([u, v, sorted(z - {u, v})])
    return {"n": n, "edges": e, "dead": [], "ask": ask}


def questions(inp, ids):
    if "ask" in inp:
        for u, v, zs in inp["ask"]:
            yield ids[u], ids[v], [[ids[z] for z in zs]]
        return
    for u, v in itertools.permutations(ids, 2):
        rest = [x for x in ids if x not in (u, v)]
        yield u, v, (zs for r in range(len(rest) + 1) for zs in itertools.combinations(rest, r))


def nontrivial(inp):
    return len(inp["edges"]) > 1


def forms(zs, nodes, k):
    zs = sorted(zs)
    if k % 4 == 0:
        return [nodes[z] for z in zs]
    if k % 4 == 1:
        return list(reversed(zs))
    if k % 4 == 2:
        return [nodes[z] if i % 2 else z for i, z in enumerate(zs)]
    return [nodes[z] for z in reversed(zs)]


def check(inp):
    sp = {**inp, "edges": inp["edges"] + inp.get("dead", [])}
    g, ns = build(sp)
    ids = [n.id for n in ns]
    nodes = {n.id: n for n in ns}
    d = {(ids[i], ids[j]) for i, j, t, dead in inp["edges"]}
    before = snapshot(g)
    k = 0
    for u, v, sets in questions(inp, ids):
        rest = [x for x in ids if x not in (u, v)]
        for zs in sets:
            k += 1
            exp = dsep_dag(ids, d, u, v, set(zs))
            gr = g if k % 2 else g.graph
            a, b = (u, v) if k % 3 else (nodes[u], nodes[v])
            for kk in (k, k + 1):
                try:
                    got = gr.are_nodes_d_separated_dag(a, b, forms(zs, nodes, kk))
                except Exception as e:
                    return f"are_nodes_d_separated_dag({u},{v},{sorted(zs)}) raised {type(e).__name__}: {e}; edges {sorted(d)}"
                if bool(got) != exp:
                    return f"are_nodes_d_separated_dag({u},{v},{sorted(zs)}) = {got}, expected {exp}; edges {sorted(d)}"
        for bad in ([u], [nodes[v]], rest[:1] + [v], [nodes[x] for x in rest] + [nodes[u]]):
            try:
                g.are_nodes_d_separated_dag(u, v, bad)
                return f"are_nodes_d_separated_dag({u},{v},..) accepts a conditioning set that contains one of the two nodes"
            except Exception:
                pass
    x = diff(before, snapshot(g))
    return f"the query changed the graph: {x}" if x else None
