"""Edit sequences on the real graph compared, after every edit, with an executable specification of each edit (all edges, types, values, histories, nodes); same sequences as P01."""
from edits import *
RULE = __doc__


def cases(rng, tier):
    yield from sequences(rng, tier)


def nontrivial(inp):
    return any(o[0].startswith("add") for o in inp["ops"])


def check(inp):
    g, ns = new_graph(inp["n"])
    nodes = {n.id: n for n in ns}
    m = Model([n.id for n in ns])
    vals = {n.id: n.values.tolist() for n in ns}
    for i, o in enumerate(inp["ops"]):
        ok = apply_real(g, nodes, o)
        ok2 = m.op(o)
        if ok != ok2:
            return f"edit {i} {o} was {'accepted' if ok else 'rejected'}, expected {'accepted' if ok2 else 'rejected'}"
        s = snapshot(g)
        if s["edges"] != m.view():
            d = diff({"edges": m.view()}, {"edges": s["edges"]})
            return f"after edit {i} {o}: expected -> actual: {d}"
        if sorted(g.nodes) != sorted(m.nodes) or any(k != n.id for k, n in g.nodes.items()):
            return f"after edit {i} {o}: nodes are {sorted(g.nodes)}, expected {sorted(m.nodes)}"
        for k, v in vals.items():
            if g.nodes[k].values.tolist() != v:
                return f"after edit {i} {o}: values of node {k} changed"
        if {k: v for k, v in hist_map(g).items()} != m.hist:
            return f"after edit {i} {o}: edge histories are {hist_map(g)}, expected {m.hist}"
    return None
