"""Building and observing real graphs."""
import itertools, random
from causy.graph import GraphManager, Graph, Node, Edge, GraphError
from causy.edge_types import DirectedEdge, UndirectedEdge, BiDirectedEdge
from causy.models import TestResult, TestResultAction

try:
    from main import Skip
except Exception:
    class Skip(Exception):
        pass

ETYPES = {"D": DirectedEdge, "U": UndirectedEdge, "B": BiDirectedEdge}
NAMES = ["x", "same", "same", "x1", "y", "same", "", "w", "same", "v"]      # names need not be unique, nor equal to the ids
IDS = ["x", "y", "x1", "10", "y_2", "z", "a b", "w", "9", "v"]
_cls = []


def graph_class():
    """Graph with the access mixins of all edge types, as the graph model factory builds it"""
    if not _cls:
        class G2(Graph, DirectedEdge.GraphAccessMixin):
            pass
        _cls.append(G2)
    return _cls[0]


_mgr = []


def manager_class():
    if not _mgr:
        class M2(GraphManager, DirectedEdge.GraphAccessMixin):
            pass
        _mgr.append(M2)
    return _mgr[0]


def etype(t):
    return ETYPES[t]()


def tname(e):
    n = type(e).__name__
    return {"DirectedEdge": "D", "UndirectedEdge": "U", "BiDirectedEdge": "B"}.get(n, n)


def new_graph(n, ids=None, values=None):
    g = manager_class()(graph_class=graph_class())
    nodes = []
    for i in range(n):
        nodes.append(g.add_node(NAMES[i] if ids is None else "name of " + ids[i], (values[i] if values else [1.0 * i, 2.0, 3.0]), id_=(ids or IDS)[i]))
    return g, nodes


def build(spec):
    """spec: {"n": k, "edges": [[i, j, type, dead]], "meta": bool}"""
    g, nodes = new_graph(spec["n"], spec.get("ids"), spec.get("values"))
    if spec.get("warm") is not None:
        return detour(g, nodes, spec)
    for i, j, t, dead in spec["edges"]:
        g.add_directed_edge(nodes[i], nodes[j], {"v": i * 10 + j}, etype(t))
        if dead:
            g.remove_directed_edge(nodes[i], nodes[j], soft_delete=True)
    return g, nodes


def detour(g, nodes, spec):
    """the same graph, reached through another one on which every query was asked before the last edits"""
    import random
    rng = random.Random(spec["warm"])
    n, want = spec["n"], {(i, j): (t, dead) for i, j, t, dead in spec["edges"]}
    extra = [(i, j) for i in range(n) for j in range(n) if i != j and (i, j) not in want and rng.random() < .3]
    late = [k for k in want if rng.random() < .2]
    for i, j, t, dead in spec["edges"]:
        if (i, j) not in late:
            g.add_directed_edge(nodes[i], nodes[j], {"v": -1}, etype(rng.choice("DUB")))
            if rng.random() < .4:
                g.remove_directed_edge(nodes[i], nodes[j], soft_delete=True)
    for i, j in extra:
        g.add_directed_edge(nodes[i], nodes[j], {"v": -2}, etype(rng.choice("DUB")))
    for gr in (g, g.graph):
        for a in nodes:
            for one in (lambda: gr.parents_of_node(a), lambda: gr.get_siblings(a), lambda: gr.descendants_of_node(a), lambda: gr.get_siblings(a.id), lambda: gr.descendants_of_node(a.id)):
                ask(one)
            for b in nodes:
                for f in ("edge_exists", "directed_edge_exists", "undirected_edge_exists", "only_directed_edge_exists", "directed_edge_is_soft_deleted", "edge_value", "edge_type", "edge_of_type_exists",
                          "directed_path_exists", "retrieve_edge_history") + (("directed_paths",) if n < 6 else ()):
                    ask(lambda: getattr(gr, f)(a, b))
                    ask(lambda: getattr(gr, f)(a.id, b.id))
                if a is not b and n < 6:
                    rest = [c for c in nodes if c not in (a, b)]
                    for zs in ([], rest[:1], rest):
                        ask(lambda: gr.are_nodes_d_separated_dag(a, b, zs))
                        ask(lambda: gr.are_nodes_d_separated_cpdag(a.id, b.id, zs))
        ask(lambda: gr.retrieve_edges())
    for i, j in extra:
        if rng.random() < .5:
            g.remove_directed_edge(nodes[i], nodes[j], soft_delete=True)
        elif (j, i) in extra and rng.random() < .5:
            g.remove_edge(nodes[i], nodes[j])
        else:
            g.remove_directed_edge(nodes[i], nodes[j])
    for i, j, t, dead in spec["edges"]:     # nothing of the wanted graph is soft-deleted when the rest is purged
        if (i, j) not in late:
            g.restore_directed_edge(nodes[i], nodes[j])
    g.purge_soft_deleted_edges()
    for i, j, t, dead in spec["edges"]:
        if (i, j) in late:
            g.add_directed_edge(nodes[i], nodes[j], {"v": i * 10 + j}, etype(t))
        else:
            g.update_directed_edge(nodes[i], nodes[j], {"v": i * 10 + j}, etype(t))
        if dead:
            g.remove_directed_edge(nodes[i], nodes[j], soft_delete=True)
    return g, nodes


def ask(f):
    try:
        r = f()
        if r is not None and not isinstance(r, (bool, str)) and hasattr(r, "__iter__"):
            list(r)
    except Exception:
        pass


def edge_map(g):
    """(u,v) -> (deleted, type, metadata) of the stored edge records"""
    out = {}
    for u, d in g.edges.items():
        for v, e in d.items():
            out[(u, v)] = (bool(e.deleted), tname(e.edge_type), e.metadata)
    return out


def live(g):
    return {p for p, e in edge_map(g).items() if not e[0]}


def hist_map(g):
    return {k: list(v) for k, v in g.edge_history.items() if len(v)}


def snapshot(g):
    return {"nodes": [(k, n.id, n.name, n.values.tolist() if n.values is not None else None) for k, n in g.nodes.items()],
            "edges": {f"{u}|{v}": (d, t, repr(m)) for (u, v), (d, t, m) in edge_map(g).items()},
            "hist": {f"{k[0]}|{k[1]}": [repr_item(x) for x in v] for k, v in g.edge_history.items() if len(v)}}


def repr_item(x):
    if isinstance(x, TestResult):
        return (x.u.id, x.v.id, str(x.action), repr(x.data))
    return repr(x)


def diff(a, b):
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                for q in set(a[k]) | set(b[k]):
                    if a[k].get(q) != b[k].get(q):
                        return f"{k} {q}: {a[k].get(q)} -> {b[k].get(q)}"
            return f"{k}: {a[k]} -> {b[k]}"
    return None


def coherent(g):
    """P01's invariant on the real object; None or a description"""
    em = edge_map(g)
    nodes = set(g.nodes)
    seen = {}
    for u, d in g.edges.items():
        for v, e in d.items():
            if u == v:
                return f"self loop at {u}"
            if u not in nodes or v not in nodes:
                return f"edge {u}->{v} joins an unknown node"
            if (e.u.id, e.v.id) != (u, v):
                return f"edge stored for {u}->{v} says it is {e.u.id}->{e.v.id}"
            if id(e) in seen:
                return f"pairs {seen[id(e)]} and {(u, v)} share one record"
            seen[id(e)] = (u, v)
    rev = getattr(g, "_reverse_edges", None)
    if isinstance(rev, dict):
        inc = {}
        for v, d in rev.items():
            for u, e in d.items():
                inc[(u, v)] = e
        if set(inc) != set(em):
            return f"outgoing view {sorted(em)} differs from incoming view {sorted(inc)}"
        for (u, v), e in inc.items():
            if g.edges[u][v] is not e and (bool(e.deleted), tname(e.edge_type), e.metadata) != em[(u, v)]:
                return f"incoming record of {u}->{v} differs from the outgoing one"
    lv = live(g)
    for v in nodes:
        try:
            ps = [p.id for p in g.parents_of_node(v)]
        except KeyError as e:
            return f"parents of {v} cannot be listed: KeyError {e}"
        if sorted(ps) != sorted(u for (u, w) in lv if w == v):
            return f"parents of {v} are {sorted(ps)} but the present edges are {sorted(lv)}"
    return None


def pair_states(n, opts):
    """all assignments of opts to the ordered pairs of n nodes"""
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    for combo in itertools.product(opts, repeat=len(pairs)):
        yield [[i, j, *o] for (i, j), o in zip(pairs, combo) if o is not None]


def rand_graph(rng, n, p=0.4, dead=0.2, types="DU"):
    edges = []
    for i in range(n):
        for j in range(n):
            if i != j and rng.random() < p:
                edges.append([i, j, rng.choice(types), rng.random() < dead])
    rng.shuffle(edges)
    return {"n": n, "edges": edges}


def rand_pdag(rng, n, p=0.5, und=0.4, extra_dead=0.1):
    """random partially directed acyclic graph; undirected edges are stored in both directions"""
    order = list(range(n))
    rng.shuffle(order)
    edges = []
    for a in range(n):
        for b in range(a + 1, n):
            i, j = order[a], order[b]
            if rng.random() < p:
                if rng.random() < und:
                    edges += [[i, j, "U", False], [j, i, "U", False]]
                else:
                    edges.append([i, j, "D", False])
                    if rng.random() < 2 * extra_dead:     # an oriented edge whose other direction is soft-deleted
                        edges.append([j, i, rng.choice("DU"), True])
            elif rng.random() < extra_dead:
                edges.append([i, j, "D", True])
    rng.shuffle(edges)
    return {"n": n, "edges": edges}


def all_pdags(n, types=("none", "ij", "ji", "und")):
    """every graph over n labelled nodes with none / directed / undirected edges"""
    pairs = list(itertools.combinations(range(n), 2))
    for combo in itertools.product(types, repeat=len(pairs)):
        edges = []
        for (i, j), c in zip(pairs, combo):
            if c == "ij":
                edges.append([i, j, "D", False])
            elif c == "ji":
                edges.append([j, i, "D", False])
            elif c == "und":
                edges += [[i, j, "U", False], [j, i, "U", False]]
        yield {"n": n, "edges": edges}


def acyclic(spec):
    """directed part has no cycle"""
    lv = {(i, j) for i, j, t, d in spec["edges"] if not d}
    ch = {}
    for i, j in lv:
        if (j, i) not in lv:
            ch.setdefault(i, []).append(j)
    state = {}

    def dfs(x):
        state[x] = 1
        for y in ch.get(x, ()):
            if state.get(y) == 1 or (y not in state and dfs(y)):
                return True
        state[x] = 2
        return False
    return not any(x not in state and dfs(x) for x in range(spec["n"]))
