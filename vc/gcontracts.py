"""Contracts of causy/graph.py and causy/edge_types.py (queries and edits)."""
import z3
from .base import *
from .interp import *
from .graphspec import View, RI, SEL, sel2
from .verify import Obl, Unit

G = "causy/graph.py"
MIX = "GraphBaseAccessMixin."
ETF = "causy/edge_types.py"


def toid(x):
    if isinstance(x, NodeV):
        return x.id
    if isz(x) and x.sort() == Id:
        return x
    if isinstance(x, Poison):
        raise LoopCarried(x.name)
    raise Unsupported(f"argument is neither node nor id: {x!r}")


def heap_same(a, b):
    return all(k in b and (a[k] is b[k] or a[k].eq(b[k])) for k in HEAP if k in a)


def need_ri(eng, st, what):
    if any(heap_same(h, st.heap) for h in eng.ri_heaps):
        return
    for n, f in RI(st.heap, True):
        eng.obls.append(Obl(f"invariant holds when calling {what}: {n}", list(st.pc), f))
    eng.ri_heaps.append({k: st.heap[k] for k in HEAP})


class Query:
    """pure query: result described by a specification function of the abstract view"""
    def __init__(self, key, params, kind, spec, argkinds=None, raises=None):
        self.key, self.params, self.kind, self.spec = key, params, kind, spec
        self.argkinds = argkinds or {}
        self.raises = raises

    def conv(self, bound):
        out = []
        for p in self.params:
            x = bound[p]
            k = self.argkinds.get(p, "id")
            out.append(toid(x) if k in ("id", "node") else x)
        return out

    def apply(self, eng, st, bound):
        a = self.conv(bound)
        need_ri(eng, st, self.key)
        V = View(st.heap)
        if self.kind == "bool":
            return [(st, self.spec(V, *a))]
        if self.kind == "opt":
            c, val = self.spec(V, *a)
            yes, no = eng.split(st, c)
            return ([(yes, val)] if yes is not None else []) + ([(no, None)] if no is not None else [])
        if self.kind in ("list", "set"):
            s = st.copy()
            return [(s, s.new(Cont(self.kind, self.spec(V, *a))))]
        if self.kind == "raising":
            c, val = self.spec(V, *a)
            yes, no = eng.split(st, c)
            return ([(yes, val)] if yes is not None else []) + ([(no, Raised(self.raises))] if no is not None else [])

    def variants(self):
        import itertools
        ks = [p for p in self.params]
        opts = []
        for p in ks:
            k = self.argkinds.get(p, "id")
            opts.append({"id": ["id", "node"], "node": ["node"], "onlyid": ["id"], "etype": ["etype"]}[k])
        # all ids / all nodes / mixed
        return list(itertools.product(*opts))

    def gen(self, ctx, contracts, recv_kinds=("Graph", "GraphManager")):
        fn = find(ctx.prog, self.key)
        for rk in recv_kinds:
            for var in self.variants():
                eng = ctx.engine(contracts, self.key)
                st = ctx.start(eng)
                args = []
                for p, k in zip(self.params, var):
                    c = z3.Const(p, EType if k == "etype" else Id)
                    args.append(NodeV(c) if k == "node" else c)
                lab = f"{fn.qual} on {rk} called with {'/'.join(var) or 'nothing'}"
                h0 = dict(st.heap)
                names = [a.arg for a in fn.node.args.args]
                recv = GraphV() if rk == "Graph" else ManagerV()
                if len(names) - 1 < len(args):
                    raise Unsupported("signature")
                res = eng.call_fn(FuncV(fn, recv), args, {}, st)
                ids = [toid(a) if k != "etype" else a for a, k in zip(args, var)]
                V = View(h0)
                for o in eng.obls:
                    yield Obl(lab + ": " + o.name, o.hyps, o.goal)
                for s, v in res:
                    yield from self.post(eng, V, s, v, ids, lab)
                    if not heap_same(h0, s.heap):
                        for k in HEAP:
                            if not h0[k].eq(s.heap[k]):
                                yield Obl(f"{lab}: does not change {k}", s.pc, h0[k] == s.heap[k])
                ctx.close(eng)

    def post(self, eng, V, s, v, ids, lab):
        if isinstance(v, Raised) and self.kind != "raising":
            yield Obl(f"{lab}: never raises {v.exc}", s.pc, False)
            return
        if self.kind == "bool":
            if not isbool(v):
                v = eng.truth(v, s)
            yield Obl(f"{lab}: answer is exact", s.pc, Iff(tob(v), tob(self.spec(V, *ids))))
        elif self.kind == "opt":
            c, val = self.spec(V, *ids)
            if v is None:
                yield Obl(f"{lab}: nothing is reported only if there is nothing", s.pc, Not(c))
            else:
                yield Obl(f"{lab}: value reported only for a present edge", s.pc, c)
                yield Obl(f"{lab}: the reported value is the right one", s.pc, eng.eqv(v, val, s))
        elif self.kind == "raising":
            c, val = self.spec(V, *ids)
            if isinstance(v, Raised):
                yield Obl(f"{lab}: rejected only if there is nothing", s.pc, Not(c))
            else:
                yield Obl(f"{lab}: answer only for an existing edge", s.pc, c)
                yield Obl(f"{lab}: right record", s.pc, v.ref == val.ref)
        else:
            yield from coll_post(eng, s, v, self.spec(V, *ids), lab, self.kind)


def key_of(x):
    if isinstance(x, NodeV):
        return ("node", (x.id,))
    if isinstance(x, EdgeV):
        return ("edge", (x.ref,))
    if isz(x):
        return ("term" + str(x.sort()), (x,))
    if isinstance(x, tuple):
        ks = [key_of(y) for y in x]
        return ("tuple(" + ",".join(k[0] for k in ks) + ")", tuple(t for k in ks for t in k[1]))
    if isinstance(x, (str, int, bool, type(None))):
        return (f"const {x!r}", ())
    raise Unsupported(f"element {x!r}")


def coll_post(eng, s, v, spec, lab, kind):
    """the container holds exactly the specified elements, and lists hold each once"""
    got = eng.segs(v, s)
    sk = [key_of(g.elem) for g in spec]
    for g in map(rename_seg, got):
        k, ts = key_of(g.elem)
        alts = []
        for h, (k2, ts2) in zip(spec, sk):
            if k == k2:
                alts.append(Exists(h.bvs, And(h.guard, *[a == b for a, b in zip(ts, ts2)])))
        yield Obl(f"{lab}: nothing is reported that should not be", s.pc + [g.guard], Or(*alts))
    for g in map(rename_seg, spec):
        k, ts = key_of(g.elem)
        alts = []
        for h in got:
            k2, ts2 = key_of(h.elem)
            if k == k2:
                alts.append(Exists(h.bvs, And(h.guard, *[a == b for a, b in zip(ts, ts2)])))
        yield Obl(f"{lab}: nothing is missed", s.pc + [g.guard], Or(*alts))
    is_set = isinstance(v, CRef) and s.store[v.oid].kind == "set"
    if kind == "list" and not is_set:
        yield from once(got, s.pc, lab)


def once(got, pc, lab):
    for i, g in enumerate(got):
        a = rename_seg(g)
        for j, h in enumerate(got):
            if j < i:
                continue
            b = rename_seg(h)
            ka, ta = key_of(a.elem)
            kb, tb = key_of(b.elem)
            if ka != kb:
                continue
            same = And(*[x == y for x, y in zip(ta, tb)])
            if i == j:
                if not a.bvs:
                    continue
                goal = Implies(And(a.guard, b.guard, same), And(*[x == y for x, y in zip(a.bvs, b.bvs)]))
            else:
                goal = Not(And(a.guard, b.guard, same))
            yield Obl(f"{lab}: each is reported once", pc, goal)


def find(prog, key):
    rel, q = key.split(":")
    fn = prog.fn(rel, q)
    if fn is None:
        # the method may have moved to another class of the hierarchy
        name = q.split(".")[-1]
        if rel == G:
            for c in ("GraphManager", "GraphBaseAccessMixin", "Graph"):
                f = prog.fn(rel, f"{c}.{name}")
                if f:
                    return f
        raise Unsupported(f"function {key} not found")
    return fn


def k(name):
    return f"{G}:{MIX}{name}"


def seg1(f, elem):
    x = z3.Const(fresh_name("x"), Id)
    return [Seg([x], tob(f(x)), elem(x))]


def seg_edges(V):
    x, y = z3.Const(fresh_name("x"), Id), z3.Const(fresh_name("y"), Id)
    return [Seg([x, y], V.live(x, y), EdgeV(V.ref(x, y)))]


def is_collider(V, u, v, w):
    d = lambda a, b: And(V.live(a, b), V.etype(a, b) == ET_DIRECTED)
    return And(d(u, v), d(w, v))


def is_def_noncoll(V, u, v, w):
    d = lambda a, b: And(V.live(a, b), V.etype(a, b) == ET_DIRECTED)
    return Or(d(v, u), d(v, w), And(Not(V.adj(u, w)), Not(is_collider(V, u, v, w))))


QUERIES = {q.key: q for q in [
    Query(k("directed_edge_is_soft_deleted"), ["u", "v"], "bool", lambda V, u, v: And(V.raw(u, v), V.dead(u, v))),
    Query(k("edge_exists"), ["u", "v"], "bool", lambda V, u, v: V.adj(u, v)),
    Query(k("directed_edge_exists"), ["u", "v"], "bool", lambda V, u, v: V.live(u, v)),
    Query(k("undirected_edge_exists"), ["u", "v"], "bool", lambda V, u, v: V.und(u, v)),
    Query(k("edge_of_type_exists"), ["u", "v", "edge_type"], "bool", lambda V, u, v, t: And(V.live(u, v), V.etype(u, v) == t), {"edge_type": "etype"}),
    Query(k("edge_value"), ["u", "v"], "opt", lambda V, u, v: (V.adj(u, v), z3.If(V.live(u, v), V.meta(u, v), V.meta(v, u)))),
    Query(k("edge_type"), ["u", "v"], "opt", lambda V, u, v: (V.adj(u, v), z3.If(V.live(u, v), V.etype(u, v), V.etype(v, u)))),
    Query(k("node_by_id"), ["id_"], "opt", lambda V, u: (V.node(u), NodeV(u)), {"id_": "onlyid"}),
    Query(k("parents_of_node"), ["u"], "list", lambda V, u: seg1(lambda x: V.live(x, u), lambda x: NodeV(x))),
    Query(k("get_siblings"), ["v"], "set", lambda V, u: seg1(lambda x: And(V.und(u, x)), lambda x: x)),
    Query(k("retrieve_edges"), [], "list", lambda V: seg_edges(V)),
    Query(k("_is_collider"), ["u", "v", "w"], "bool", is_collider, {"u": "node", "v": "node", "w": "node"}),
    Query(k("_is_definite_noncollider"), ["u", "v", "w"], "bool", is_def_noncoll, {"u": "node", "v": "node", "w": "node"}),
    Query(f"{ETF}:DirectedEdge.GraphAccessMixin.only_directed_edge_exists", ["u", "v"], "bool", lambda V, u, v: V.only(u, v)),
    Query(f"{G}:GraphManager.get_edge", ["u", "v"], "raising", lambda V, u, v: (V.raw(u, v), EdgeV(V.ref(u, v))), {"u": "node", "v": "node"}, "GraphError"),
]}


def query_unit(key, contracts=None):
    q = QUERIES[key]
    kinds = ("GraphManager",) if ":GraphManager." in key else ("Graph", "GraphManager")
    # callees are used through their contracts
    others = {k2: c for k2, c in QUERIES.items() if k2 != key}
    return Unit(key.split(":")[1].split(".")[-1], lambda ctx: q.gen(ctx, {**others, key: q}, kinds), keys=[key])
