"""Oracle of action application on top of the edit oracle, and access to a real graph model."""
from edits import *
from causy.graph_model import graph_model_factory
from causy.models import Algorithm, TestResult, TestResultAction
A = TestResultAction
KINDS = ["REMOVE_EDGE_UNDIRECTED", "REMOVE_EDGE_DIRECTED", "UPDATE_EDGE", "UPDATE_EDGE_DIRECTED", "UPDATE_EDGE_TYPE", "UPDATE_EDGE_TYPE_DIRECTED",
         "RESTORE_EDGE", "RESTORE_EDGE_DIRECTED", "DO_NOTHING"]


def new_model(steps=(), pre=None, post=None, variables=None):
    alg = Algorithm(name="t", pipeline_steps=list(steps), edge_types=[DirectedEdge(), UndirectedEdge()], extensions=[], pre_graph_update_hooks=pre, post_graph_update_hooks=post)
    m = graph_model_factory(alg)()
    m.graph = None
    return m


def model_graph(m, spec):
    """real graph for the model from a spec, the same edges in the oracle"""
    g = GraphManager(graph_class=m._graph_class)
    ids = (spec.get("ids") or IDS)[:spec["n"]]
    nodes = {i: g.add_node("n" + i, [1.0, 2.0, 4.0], id_=i) for i in ids}
    o = Model(ids)
    for i, j, t, dead in spec["edges"]:
        meta = {"v": i * 10 + j}
        g.add_directed_edge(nodes[ids[i]], nodes[ids[j]], meta, etype(t))
        o.op(["add_dir", ids[i], ids[j], meta, t])
        if dead:
            g.remove_directed_edge(nodes[ids[i]], nodes[ids[j]], soft_delete=True)
            o.op(["soft_dir", ids[i], ids[j]])
    for i, j in spec.get("removed", []):
        g.remove_directed_edge(nodes[ids[i]], nodes[ids[j]])
        o.op(["hard_dir", ids[i], ids[j]])
    m.graph = g
    return g, nodes, o


def apply_oracle(o, a):
    """a: [kind, u, v, data]; True if taken"""
    k, u, v, data = a
    lv = lambda p, q: (p, q) in o.raw and not o.raw[(p, q)][0]
    adj = lv(u, v) or lv(v, u)
    both = lv(u, v) and lv(v, u)
    h = lambda p, q: o.hist.setdefault((p, q), []).append(a)
    if k == "DO_NOTHING":
        return False
    if k == "REMOVE_EDGE_UNDIRECTED":
        if not both:
            return False
        o.op(["soft_edge", u, v]); h(u, v); h(v, u)
        return True
    if k == "REMOVE_EDGE_DIRECTED":
        if not adj:
            return False
        o.op(["soft_dir", u, v])
        if lv(v, u):
            o.op(["update_dir", v, u, None, "D"])
        h(u, v)
        return True
    if k in ("UPDATE_EDGE", "UPDATE_EDGE_TYPE"):
        if not adj:
            return False
        d, t = (data, None) if k == "UPDATE_EDGE" else (None, data["edge_type"])
        if both:
            o.op(["update_edge", u, v, d, t])
        elif lv(u, v):
            o.op(["update_dir", u, v, d, t])
        else:
            o.op(["update_dir", v, u, d, t])
        h(u, v); h(v, u)
        return True
    if k in ("UPDATE_EDGE_DIRECTED", "UPDATE_EDGE_TYPE_DIRECTED"):
        if not lv(u, v):
            return False
        d, t = (data, None) if k == "UPDATE_EDGE_DIRECTED" else (None, data["edge_type"])
        o.op(["update_dir", u, v, d, t])
        h(u, v)
        return True
    if k == "RESTORE_EDGE":
        if adj or not o.op(["restore_edge", u, v]):
            return False
        h(u, v); h(v, u)
        return True
    if k == "RESTORE_EDGE_DIRECTED":
        if lv(u, v) or not o.op(["restore_dir", u, v]):
            return False
        h(u, v)
        return True
    raise AssertionError(k)


def real_result(a, nodes):
    k, u, v, data = a
    if data is not None and "edge_type" in data and isinstance(data["edge_type"], str):
        data = {**data, "edge_type": etype(data["edge_type"])}
    return TestResult(u=nodes[u], v=nodes[v], action=A[k], data=data)


def rand_action(rng, ids):
    k = rng.choice(KINDS)
    u, v = rng.sample(ids, 2)
    data = None
    if k in ("UPDATE_EDGE", "UPDATE_EDGE_DIRECTED"):
        data = rng.choice([{"c": rng.randrange(9)}, {"c": 1, "d": 2}, {}])
    elif "TYPE" in k:
        data = {"edge_type": rng.choice("DUB")}
    elif rng.random() < .3:
        data = {"separatedBy": ["q"]}
    return [k, u, v, data]


def compare(g, o, real_of):
    """real graph against the oracle: edges, types, values, histories (by identity of the result)"""
    s = snapshot(g)
    if s["edges"] != o.view():
        return "expected -> actual: " + str(diff({"edges": o.view()}, {"edges": s["edges"]}))
    want = {k: [id(a) for a in v] for k, v in o.hist.items()}
    got = {}
    for k, v in g.edge_history.items():
        if len(v):
            got[k] = [real_of(x) for x in v]
    if got != want:
        return f"edge histories {got} differ from the expected {want}" if len(str(got)) < 300 else f"edge histories differ for {[k for k in set(got) | set(want) if got.get(k) != want.get(k)][:3]}"
    if set(g.nodes) != set(o.nodes):
        return "the set of nodes changed"
    return None


def ident(tbl):
    """real result -> id of the abstract action; tbl: list of (real, abstract); by identity, else by equal content"""
    by = {id(r): id(a) for r, a in tbl}

    def f(x):
        if id(x) in by:
            return by[id(x)]
        for r, a in tbl:
            if x.u.id == r.u.id and x.v.id == r.v.id and x.action == r.action and x.data == r.data:
                return id(a)
        return ("unknown result", str(x)[:80])
    return f
