"""Edit sequences on the real graph: every sequence of 1-3 edits on one node pair with bystanders, then random sequences of 3-25 edits on 2-5 nodes; non-trivial: at least one edge was added."""
from edits import *
RULE = __doc__


def cases(rng, tier):
    yield from sequences(rng, tier)


def nontrivial(inp):
    return any(o[0].startswith("add") for o in inp["ops"])


def check(inp):
    g, ns = new_graph(inp["n"])
    nodes = {n.id: n for n in ns}
    for i, o in enumerate(inp["ops"]):
        before = snapshot(g)
        ok = apply_real(g, nodes, o)
        if not ok:
            d = diff(before, snapshot(g))
            if d:
                return f"edit {i} {o} was rejected but changed the graph: {d}"
        c = coherent(g)
        if c:
            return f"after edit {i} {o}: {c}"
    return None
