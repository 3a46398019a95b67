"""Every graph over 4 labelled nodes with each pair none / -> / <- / undirected (4096; sampled in the quick tier) and random partially directed graphs over 5 nodes, every pair and conditioning set, sparse graphs with long paths over 7-10 nodes with sampled pairs and conditioning sets, as nodes / ids / mixed; oracle: definition over all simple paths; non-trivial: at least two edges."""
import itertools
from util import *
from dsep import dsep_cpdag
from p05 import forms, nontrivial, sparse, questions
RULE = __doc__


def cases(rng, tier):
    yield from all_pdags(3)
    al = list(all_pdags(4))
    if tier == "quick":
        al = rng.sample(al, 900)
    yield from al
    for _ in range(500 if tier == "quick" else 4000):
        yield sparse(rng, rng.choice([.3, .6, .8, 1]))
    for _ in range(2000 if tier == "quick" else 8000):
        n = rng.randint(5, 5 if tier == "quick" else 6)
        sp = rand_pdag(rng, n, rng.choice([.3, .5, .7]), rng.choice([.2, .5, .8]), .15)
        if rng.random() < .3:
            sp["warm"] = rng.randrange(10 ** 6)
        yield sp


def check(inp):
    g, ns = build(inp)
    ids = [n.id for n in ns]
    nodes = {n.id: n for n in ns}
    lv = {(ids[i], ids[j]) for i, j, t, dead in inp["edges"] if not dead}
    d = {(a, b) for a, b in lv if (b, a) not in lv}
    un = lv - d
    k = 0
    before = snapshot(g)
    for u, v, sets in questions(inp, ids):
        rest = [x for x in ids if x not in (u, v)]
        for zs in sets:
            k += 1
            exp = dsep_cpdag(ids, d, un, u, v, set(zs))
            gr = g if k % 2 else g.graph
            a, b = (u, v) if k % 3 else (nodes[u], nodes[v])
            try:
                got = gr.are_nodes_d_separated_cpdag(a, b, forms(zs, nodes, k))
            except Exception as e:
                return f"are_nodes_d_separated_cpdag({u},{v},{sorted(zs)}) raised {type(e).__name__}: {e}; directed {sorted(d)} undirected {sorted(un)}"
            if bool(got) != exp:
                return f"are_nodes_d_separated_cpdag({u},{v},{sorted(zs)}) = {got}, expected {exp}; directed {sorted(d)} undirected {sorted(un)}"
        for bad in ([u], [nodes[v]], rest[:1] + [v], [nodes[x] for x in rest] + [nodes[u]]):
            try:
                g.are_nodes_d_separated_cpdag(u, v, bad)
                return f"are_nodes_d_separated_cpdag({u},{v},..) accepts a conditioning set that contains one of the two nodes"
            except Exception:
                pass
    x = diff(before, snapshot(g))
    return f"the query changed the graph: {x}" if x else None
