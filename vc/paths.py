"""Contracts of the path listings (P04) and of d-separation over them (P05, P06).

Paths are values of an abstract sort with their length and positions; the sets of simple paths are defined by recursion on
the path (each recursive occurrence is about the shorter rest of the path)."""
import z3
from .base import *
from .interp import *
from .graphspec import View
from .verify import Obl, Unit
from .gcontracts import G, MIX, ETF, QUERIES, toid, heap_same, find, k, is_collider, is_def_noncoll
from .reach import SetId, ReachO, mem_fn, arr_seg, ids, DESC

ALLP = k("all_paths_on_underlying_undirected_graph")
DIRP = f"{ETF}:DirectedEdge.GraphAccessMixin.directed_paths"
Path = z3.DeclareSort("Path")
F = z3.Function
nil = z3.Const("path:nil", Path)
sing = F("path:one", Id, Path)
cons = F("path:cons", Id, Path, Path)
snoc = F("path:snoc", Path, Id, Path)
app = F("path:append", Path, Path, Path)
plen = F("path:length", Path, I)
pat = F("path:at", Path, I, Id)
head = F("path:head", Path, Id)
tail = F("path:tail", Path, Path)
suff = F("path:suffix_of", Path, Path, Path)       # suff(p, app(p, q)) = q
Simple = F("simple_path", Id, Id, SetId, Path, B)
EMPTY = z3.K(Id, z3.BoolVal(False))
# directed paths: lists of edges
DPathS = z3.DeclareSort("EdgePath")
dsing = F("edges:one", Id, Id, DPathS)
dcons = F("edges:cons", Id, Id, DPathS, DPathS)
dhead = F("edges:source", DPathS, Id)
dfirst = F("edges:first_target", DPathS, Id)
dtail = F("edges:tail", DPathS, DPathS)
dlong = F("edges:longer", DPathS, B)
DSimple = F("simple_edge_path", Id, Id, SetId, DPathS, B)


def path_axioms():
    p, q = z3.Consts("pa_p pa_q", Path)
    x = z3.Const("pa_x", Id)
    return [z3.ForAll([q], app(nil, q) == q, patterns=[app(nil, q)]),
            z3.ForAll([p, x], snoc(p, x) == app(p, sing(x)), patterns=[snoc(p, x)]),
            z3.ForAll([p, x, q], app(snoc(p, x), q) == app(p, cons(x, q)), patterns=[app(snoc(p, x), q)]),
            z3.ForAll([p, q], suff(p, app(p, q)) == q, patterns=[app(p, q)]),
            z3.ForAll([x], z3.And(head(sing(x)) == x, plen(sing(x)) == 1), patterns=[sing(x)]),
            z3.ForAll([x, q], z3.And(head(cons(x, q)) == x, tail(cons(x, q)) == q, plen(cons(x, q)) == 1 + plen(q)), patterns=[cons(x, q)]),
            z3.ForAll([p], plen(p) >= 0, patterns=[plen(p)])]


def unfold(V, u, v, S, q, w, r):
    """definition of the simple paths from u to v outside S"""
    return tob(Iff(Simple(u, v, S, q), And(Not(z3.Select(S, u)),
                   Or(And(u == v, q == sing(u)),
                      And(u != v, z3.Exists([w, r], tob(And(q == cons(u, r), V.node(w), V.adj(u, w), Simple(w, v, z3.Store(S, u, True), r)))))))))


def unfold_ax(V, u, v, S):
    q, r = z3.Const(fresh_name("q"), Path), z3.Const(fresh_name("r"), Path)
    w = z3.Const(fresh_name("w"), Id)
    return z3.ForAll([q], unfold(V, u, v, S, q, w, r), patterns=[Simple(u, v, S, q)])


def head_ax():
    """a simple path starts at its first node, outside the excluded nodes (follows by unfolding the definition once)"""
    a, b = z3.Consts("h_a h_b", Id)
    S = z3.Const("h_S", SetId)
    q = z3.Const("h_q", Path)
    return z3.ForAll([a, b, S, q], z3.Implies(Simple(a, b, S, q), z3.And(head(q) == a, z3.Not(z3.Select(S, a)))), patterns=[Simple(a, b, S, q)])


class PathV:
    """a list of nodes that is a path"""
    def __init__(self, q):
        self.q = q

    def subst(self, pairs):
        return PathV(z3.substitute(self.q, *pairs))

    def __repr__(self):
        return f"PathV({self.q})"

    def iter_segs(self, eng, st):
        i = z3.Const(fresh_name("i"), I)
        return [Seg([i], z3.And(i >= 0, i < plen(self.q)), NodeV(pat(self.q, i)))]

    def length(self, eng, st):
        return [(st, plen(self.q))]

    def truth(self, eng, st):
        return plen(self.q) > 0

    def item(self, eng, st, i):
        n = plen(self.q)
        if isinstance(i, int):
            i = n + i if i < 0 else z3.IntVal(i)
        elif not (isz(i) and i.sort() == I):
            raise Unsupported("index of a path")
        return eng.guarded(st, z3.And(i >= 0, i < n), lambda s: NodeV(pat(self.q, i)), "IndexError")


class EPathV:
    """a list of edges (pairs of nodes) that is a directed path"""
    def __init__(self, q):
        self.q = q

    def subst(self, pairs):
        return EPathV(z3.substitute(self.q, *pairs))

    def bin(self, eng, st, op, other, rev):
        if op != "Add" or not rev:
            raise Unsupported("operator on a path")
        sg = eng.segs(other, st)
        if len(sg) != 1 or sg[0].bvs or sg[0].guard is not True:
            raise Unsupported("prefix of a path")
        a, b = sg[0].elem
        return [(st, EPathV(dcons(toid(a), toid(b), self.q)))]

    def iter_segs(self, eng, st):
        raise Unsupported("iteration over an edge path")


def set_term(c):
    """container of ids as a set"""
    t = None
    rest = []
    for s in c.segs:
        e = toid(s.elem)
        if s.bvs:
            g = tob(s.guard)
            if len(s.bvs) == 1 and e.eq(s.bvs[0]) and g.decl().kind() == z3.Z3_OP_SELECT and g.arg(1).eq(e) and t is None:
                t = g.arg(0)
                continue
            raise Unsupported("set of excluded nodes")
        if s.guard is not True:
            raise Unsupported("set of excluded nodes")
        rest.append(e)
    t = EMPTY if t is None else t
    for e in rest:
        t = z3.Store(t, e, True)
    return t


def whole_seg(p):
    i = z3.Const(fresh_name("i"), I)
    return Seg([i], z3.And(i >= 0, i < plen(p)), pat(p, i))


def list_term(eng, st, segs):
    """list of ids / nodes built from a whole path and single nodes, as a path"""
    t = nil
    for s in segs:
        if isinstance(s.elem, PathV):
            raise Unsupported("list of paths")
        e = toid(s.elem)
        if not s.bvs and s.guard is True:
            t = snoc(t, e)
            continue
        if len(s.bvs) == 1 and e.decl().eq(pat) and e.arg(1).eq(s.bvs[0]):
            p = e.arg(0)
            i = s.bvs[0]
            eng.obls.append(Obl("every position of the path is used", list(st.pc) + [i >= 0, i < plen(p)], s.guard))
            t = p if t.eq(nil) else app(t, p)
            continue
        raise Unsupported("list of nodes")
    return t


def as_path(eng, st, v):
    if isinstance(v, PathV):
        return v.q
    if isinstance(v, (CRef, Cont)):
        return list_term(eng, st, eng.segs(v, st))
    raise Unsupported(f"path {v!r}")


class AllPathsContract:
    """yields prefix + q for exactly the simple paths q from u to v outside visited, each once; visited and prefix are restored"""
    def apply(self, eng, st, bound):
        V = View(st.heap)
        if not heap_same(eng.reach_heap, st.heap):
            return None
        names = [n for n in bound if n != "self"]
        u, v = toid(bound[names[0]]), toid(bound[names[1]])
        vis, path = bound[names[2]], bound[names[3]]
        S = EMPTY if vis is None else set_term(st.store[vis.oid] if isinstance(vis, CRef) else vis)
        P = nil if path is None else as_path(eng, st, path)
        eng.obls.append(Obl("the path starts at a node", list(st.pc), V.node(u)))
        if eng.target == ALLP:
            S0, u0 = eng.rec_in
            eng.obls.append(Obl("termination: every recursive call excludes one more node", list(st.pc),
                                And(V.node(u0), Not(z3.Select(S0, u0)), S == z3.Store(S0, u0, True), Not(z3.Select(S, u)))))
        s = st.copy()
        q = z3.Const(fresh_name("q"), Path)
        if path is None:
            return [(s, s.new(Cont("list", [Seg([q], Simple(u, v, S, q), PathV(q))])))]
        return [(s, s.new(Cont("list", [Seg([q], Simple(u, v, S, q), PathV(app(P, q)))])))]


def allpaths_unit():
    def gen(ctx):
        fn = find(ctx.prog, ALLP)
        con = AllPathsContract()
        for kind in ("id", "node"):
            for rk in (GraphV, ManagerV):
                for top in (True, False):
                    eng = ctx.engine({**QUERIES, ALLP: con}, ALLP)
                    st = ctx.start(eng)
                    V = View(st.heap)
                    eng.reach_heap = dict(st.heap)
                    u, v = z3.Consts("u v", Id)
                    S0 = EMPTY if top else z3.Const("visited", SetId)
                    p0 = nil if top else z3.Const("prefix", Path)
                    st.pc += [tob(V.node(u)), tob(V.node(v))] + path_axioms() + [head_ax()]
                    eng.rec_in = (S0, u)
                    args = [NodeV(u), NodeV(v)] if kind == "node" else [u, v]
                    if not top:
                        j = z3.Const("j", I)
                        st.pc += [z3.Not(z3.Select(S0, u)), z3.ForAll([j], tob(Implies(z3.And(j >= 0, j < plen(p0)), V.node(pat(p0, j)))))]
                        vis = st.new(Cont("set", arr_seg(S0)))
                        path = st.new(Cont("list", [whole_seg(p0)]))
                        args += [vis, path]
                    lab = f"all_paths_on_underlying_undirected_graph on {rk.kind} called with {kind}{'' if top else ' and a prefix'}"
                    x = z3.Const(fresh_name("x"), Id)
                    for s, r in eng.call_fn(FuncV(fn, rk()), args, {}, st):
                        if isinstance(r, Raised):
                            yield Obl(f"{lab}: never raises {r.exc}", s.pc, False)
                            continue
                        pc = s.pc + [unfold_ax(V, u, v, S0)]
                        got = [Seg(g.bvs, g.guard, as_path(eng, s, g.elem)) for g in eng.segs(r, s)]
                        for g in map(rename_seg, got):
                            q = z3.Const(fresh_name("q"), Path)
                            yield Obl(f"{lab}: only simple paths are listed", pc + [tob(g.guard)], Simple(u, v, S0, suff(p0, g.elem)))
                            yield Obl(f"{lab}: listed paths continue the prefix", pc + [tob(g.guard)], g.elem == app(p0, suff(p0, g.elem)))
                        q = z3.Const(fresh_name("q"), Path)
                        yield Obl(f"{lab}: every simple path is listed", pc + [Simple(u, v, S0, q), app(p0, q) == app(p0, q)],
                                  Or(*[Exists(g.bvs, And(g.guard, g.elem == app(p0, q))) for g in map(rename_seg, got)]))
                        for i, g in enumerate(got):
                            a = rename_seg(g)
                            for h in got[i:]:
                                b = rename_seg(h)
                                if h is g:
                                    if not a.bvs:
                                        continue
                                    yield Obl(f"{lab}: each path is listed once", pc + [tob(a.guard), tob(b.guard), a.elem == b.elem], And(*[m == n for m, n in zip(a.bvs, b.bvs)]))
                                else:
                                    yield Obl(f"{lab}: each path is listed once", pc + [tob(a.guard), tob(b.guard)], a.elem != b.elem)
                        if not top:
                            S1 = mem_fn(eng, s.store[vis.oid])
                            yield Obl(f"{lab}: the visited nodes are restored", s.pc, z3.ForAll([x], tob(Iff(S1(x), z3.Select(S0, x)))))
                            yield Obl(f"{lab}: the prefix is restored", s.pc, list_term(eng, s, s.store[path.oid].segs) == p0)
                    for o in eng.obls:
                        yield Obl(f"{lab}: {o.name}", o.hyps, o.goal)
                    ctx.close(eng)
    return Unit("all_paths_on_underlying_undirected_graph", gen, keys=[ALLP])


def dpath_axioms():
    a, b = z3.Consts("da db", Id)
    q = z3.Const("dq", DPathS)
    return [z3.ForAll([a, b], z3.And(dhead(dsing(a, b)) == a, dfirst(dsing(a, b)) == b, z3.Not(dlong(dsing(a, b)))), patterns=[dsing(a, b)]),
            z3.ForAll([a, b, q], z3.And(dhead(dcons(a, b, q)) == a, dfirst(dcons(a, b, q)) == b, dtail(dcons(a, b, q)) == q, dlong(dcons(a, b, q))), patterns=[dcons(a, b, q)])]


def dunfold_ax(V, u, v, S):
    q, r = z3.Const(fresh_name("q"), DPathS), z3.Const(fresh_name("r"), DPathS)
    w = z3.Const(fresh_name("w"), Id)
    S1 = z3.Store(S, u, True)
    return z3.ForAll([q], tob(Iff(DSimple(u, v, S, q),
                     Or(And(V.live(u, v), q == dsing(u, v)),
                        z3.Exists([w, r], tob(And(w != v, Not(z3.Select(S1, w)), V.live(u, w), q == dcons(u, w, r), DSimple(w, v, S1, r))))))),
                     patterns=[DSimple(u, v, S, q)])


class DirPathsContract:
    def apply(self, eng, st, bound):
        V = View(st.heap)
        if not heap_same(eng.reach_heap, st.heap):
            return None
        names = [n for n in bound if n != "self"]
        u, v = toid(bound[names[0]]), toid(bound[names[1]])
        vis = bound[names[2]]
        if isinstance(vis, tuple):
            vis = Cont("list", [Seg((), True, x) for x in vis])
        S = set_term(st.store[vis.oid] if isinstance(vis, CRef) else vis)
        if eng.target == DIRP:
            S0, u0 = eng.rec_in
            eng.obls.append(Obl("termination: every recursive call excludes one more node", list(st.pc),
                                And(V.node(u0), Not(z3.Select(S0, u0)), S == z3.Store(S0, u0, True), Not(z3.Select(S, u)), V.node(u))))
        s = st.copy()
        q = z3.Const(fresh_name("q"), DPathS)
        return [(s, s.new(Cont("list", [Seg([q], DSimple(u, v, S, q), EPathV(q))])))]


def as_epath(eng, st, v):
    if isinstance(v, EPathV):
        return v.q
    if isinstance(v, (CRef, Cont)):
        sg = eng.segs(v, st)
        if len(sg) == 1 and not sg[0].bvs and sg[0].guard is True and isinstance(sg[0].elem, tuple) and len(sg[0].elem) == 2:
            return dsing(*[toid(x) for x in sg[0].elem])
    raise Unsupported(f"edge path {v!r}")


def dirpaths_unit():
    def gen(ctx):
        fn = find(ctx.prog, DIRP)
        con = DirPathsContract()
        for kind in ("id", "node"):
            for rk in (ManagerV,):
                for top in (True, False):
                    eng = ctx.engine({**QUERIES, DIRP: con}, DIRP)
                    st = ctx.start(eng)
                    V = View(st.heap)
                    eng.reach_heap = dict(st.heap)
                    u, v = z3.Consts("u v", Id)
                    S0 = EMPTY if top else z3.Const("visited", SetId)
                    st.pc += [tob(V.node(u)), tob(V.node(v)), nonempty_str(v)] + dpath_axioms()
                    ctx.assumed.add("node ids are not empty strings (directed_paths)")
                    eng.rec_in = (S0, u)
                    args = [NodeV(u), NodeV(v)] if kind == "node" else [u, v]
                    if not top:
                        st.pc += [z3.Not(z3.Select(S0, u))]
                        args += [Cont("list", arr_seg(S0))]
                    lab = f"directed_paths called with {kind}{'' if top else ' and visited nodes'}"
                    for s, r in eng.call_fn(FuncV(fn, rk()), args, {}, st):
                        if isinstance(r, Raised):
                            yield Obl(f"{lab}: never raises {r.exc}", s.pc, False)
                            continue
                        pc = s.pc + [dunfold_ax(V, u, v, S0)]
                        got = [Seg(g.bvs, g.guard, as_epath(eng, s, g.elem)) for g in eng.segs(r, s)]
                        q = z3.Const(fresh_name("q"), DPathS)
                        for g in map(rename_seg, got):
                            yield Obl(f"{lab}: only simple directed paths are listed", pc + [tob(g.guard)], DSimple(u, v, S0, g.elem))
                        yield Obl(f"{lab}: every simple directed path is listed", pc + [DSimple(u, v, S0, q)],
                                  Or(*[Exists(g.bvs, And(g.guard, g.elem == q)) for g in map(rename_seg, got)]))
                        for i, g in enumerate(got):
                            a = rename_seg(g)
                            for h in got[i:]:
                                b = rename_seg(h)
                                if h is g:
                                    if not a.bvs:
                                        continue
                                    yield Obl(f"{lab}: each path is listed once", pc + [tob(a.guard), tob(b.guard), a.elem == b.elem], And(*[m == n for m, n in zip(a.bvs, b.bvs)]))
                                else:
                                    yield Obl(f"{lab}: each path is listed once", pc + [tob(a.guard), tob(b.guard)], a.elem != b.elem)
                    for o in eng.obls:
                        yield Obl(f"{lab}: {o.name}", o.hyps, o.goal)
                    ctx.close(eng)
    return Unit("directed_paths", gen, keys=[DIRP])


# ---------------------------------------------------------------- d-separation
def inner(q, i):
    return z3.And(i >= 1, i < plen(q) - 1)


def some_inner(q, f):
    i = z3.Const(fresh_name("i"), I)
    return z3.Exists([i], z3.And(inner(q, i), tob(f(pat(q, i - 1), pat(q, i), pat(q, i + 1)))))


def no_desc(V, b, Z):
    d = z3.Const(fresh_name("d"), Id)
    return z3.ForAll([d], tob(Implies(ReachO(b, d), Not(Z(d)))))


def coll_block(V, q, Z):
    return some_inner(q, lambda a, b, c: And(is_collider(V, a, b, c), no_desc(V, b, Z)))


def nonc_block(V, q, Z):
    return some_inner(q, lambda a, b, c: And(Z(b), Not(is_collider(V, a, b, c))))


def def_status(V, q, Z=None):
    return Not(some_inner(q, lambda a, b, c: And(Not(is_collider(V, a, b, c)), Not(is_def_noncoll(V, a, b, c)))))


def defnc_block(V, q, Z):
    return some_inner(q, lambda a, b, c: And(Z(b), is_def_noncoll(V, a, b, c)))


def all_nodes(V, q):
    j = z3.Const(fresh_name("j"), I)
    return z3.ForAll([j], tob(Implies(z3.And(j >= 0, j < plen(q)), V.node(pat(q, j)))), patterns=[pat(q, j)])


class DescTop:
    """descendants_of_node without a visited set (proved in the unit of that function)"""
    def apply(self, eng, st, bound):
        V = View(st.heap)
        if not heap_same(eng.reach_heap, st.heap):
            return None
        names = [n for n in bound if n != "self"]
        if bound[names[1]] is not None:
            return None
        u = toid(bound[names[0]])
        eng.obls.append(Obl("descendants are asked of a node", list(st.pc), V.node(u)))
        x = z3.Const(fresh_name("d"), Id)
        s = st.copy()
        return [(s, s.new(Cont("list", [Seg([x], ReachO(u, x), NodeV(x))])))]


class PathQuery:
    def __init__(self, name, spec, has_set=True):
        self.name, self.key, self.spec, self.has_set = name, k(name), spec, has_set

    def apply(self, eng, st, bound):
        V = View(st.heap)
        if not heap_same(eng.reach_heap, st.heap):
            return None
        names = [n for n in bound if n != "self"]
        p = bound[names[0]]
        if not isinstance(p, PathV):
            raise Unsupported("path argument")
        Z = None
        if self.has_set:
            c = bound[names[1]]
            Z = mem_fn(eng, st.store[c.oid] if isinstance(c, CRef) else c)
        eng.obls.append(Obl(f"{self.name} is asked about a path of nodes", list(st.pc), all_nodes(V, p.q)))
        return [(st, self.spec(V, p.q, Z))]


PQ = {q.key: q for q in [PathQuery("_is_a_collider_blocking", coll_block), PathQuery("_is_a_non_collider_in_conditioning_set", nonc_block),
                         PathQuery("_is_path_of_definite_status", def_status, False), PathQuery("_is_definite_noncollider_in_conditioning_set", defnc_block)]}


def pq_unit(name):
    q_ = PQ[k(name)]

    def gen(ctx):
        fn = find(ctx.prog, q_.key)
        for rk in (GraphV, ManagerV):
            eng = ctx.engine({**QUERIES, **{a: b for a, b in PQ.items() if a != q_.key}, DESC: DescTop()}, q_.key)
            st = ctx.start(eng)
            V = View(st.heap)
            eng.reach_heap = dict(st.heap)
            q = z3.Const("path", Path)
            Zs = z3.Const("conditioning_set", SetId)
            Z = lambda x: z3.Select(Zs, x)
            st.pc += [all_nodes(V, q), plen(q) >= 0]
            args = [PathV(q)] + ([Cont("list", arr_seg(Zs, True))] if q_.has_set else [])
            lab = f"{name} on {rk.kind}"
            for s, r in eng.call_fn(FuncV(fn, rk()), args, {}, st):
                if isinstance(r, Raised):
                    yield Obl(f"{lab}: never raises {r.exc}", s.pc, False)
                    continue
                yield Obl(f"{lab}: answer is exact", s.pc, Iff(tob(eng.truth(r, s)), tob(q_.spec(V, q, Z))))
                if not heap_same(eng.reach_heap, s.heap):
                    yield Obl(f"{lab}: changes nothing", s.pc, False)
            for o in eng.obls:
                yield Obl(f"{lab}: {o.name}", o.hyps, o.goal)
            ctx.close(eng)
    return Unit(name, gen, keys=[q_.key])


def dag_spec(V, u, v, q, Z):
    return Or(coll_block(V, q, Z), nonc_block(V, q, Z))


def dsep_unit(name, cp):
    key = k(name)

    def gen(ctx):
        fn = find(ctx.prog, key)
        for kind in ("id", "node"):
            for zk in ("id", "node"):
                for rk in (GraphV, ManagerV):
                    eng = ctx.engine({**QUERIES, **PQ, ALLP: AllPathsContract()}, key)
                    st = ctx.start(eng)
                    V = View(st.heap)
                    eng.reach_heap = dict(st.heap)
                    u, v = z3.Consts("u v", Id)
                    Zs = z3.Const("conditioning_set", SetId)
                    Z = lambda x: z3.Select(Zs, x)
                    z = z3.Const("z", Id)
                    q = z3.Const("lq", Path)
                    st.pc += [tob(V.node(u)), tob(V.node(v)), u != v, z3.ForAll([z], tob(Implies(Z(z), V.node(z)))),
                              # lemmas about simple paths (own unit)
                              z3.ForAll([q], tob(Implies(Simple(u, v, EMPTY, q), And(all_nodes(V, q), plen(q) >= 2))), patterns=[Simple(u, v, EMPTY, q)]),
                              tob(Iff(z3.Exists([q], z3.And(Simple(u, v, EMPTY, q), plen(q) == 2)), V.adj(u, v)))]
                    if not cp:
                        a, b = z3.Consts("dag_a dag_b", Id)
                        st.pc.append(z3.ForAll([a, b], tob(Implies(V.live(a, b), And(V.etype(a, b) == ET_DIRECTED, Not(V.live(b, a)))))))
                    args = ([NodeV(u), NodeV(v)] if kind == "node" else [u, v]) + [Cont("list", arr_seg(Zs, zk == "node"))]
                    lab = f"{name} on {rk.kind} called with {kind}, set of {zk}s"
                    for s, r in eng.call_fn(FuncV(fn, rk()), args, {}, st):
                        if isinstance(r, Raised):
                            if r.exc == "ValueError":
                                yield Obl(f"{lab}: rejects only sets that hold one of the nodes", s.pc, Or(Z(u), Z(v)))
                            else:
                                yield Obl(f"{lab}: never raises {r.exc}", s.pc, False)
                            continue
                        yield Obl(f"{lab}: rejects sets that hold one of the nodes", s.pc, And(Not(Z(u)), Not(Z(v))))
                        t = tob(eng.truth(r, s))
                        q = z3.Const(fresh_name("q"), Path)
                        if cp:
                            blocked = Implies(def_status(V, q), Or(defnc_block(V, q, Z), coll_block(V, q, Z)))
                            spec = And(Not(V.adj(u, v)), z3.ForAll([q], tob(Implies(Simple(u, v, EMPTY, q), blocked))))
                        else:
                            pt = lambda a, b: V.live(a, b)
                            ncoll = lambda a, b, c: And(pt(a, b), pt(c, b))
                            blocked = Or(some_inner(q, lambda a, b, c: And(ncoll(a, b, c), no_desc(V, b, Z))), some_inner(q, lambda a, b, c: And(Not(ncoll(a, b, c)), Z(b))))
                            spec = z3.ForAll([q], tob(Implies(Simple(u, v, EMPTY, q), blocked)))
                        yield Obl(f"{lab}: separated is reported only if every path is blocked", s.pc + [t], spec)
                        yield Obl(f"{lab}: separated is reported if every path is blocked", s.pc + [tob(spec)], t)
                    for o in eng.obls:
                        yield Obl(f"{lab}: {o.name}", o.hyps, o.goal)
                    ctx.close(eng)
    return Unit(name, gen, keys=[key])


def lemma_unit():
    """facts about the defined notion of simple path, proved from its definition"""
    def gen(ctx):
        eng = ctx.engine({}, None)
        st = ctx.start(eng)
        V = View(st.heap)
        u, v, w = z3.Consts("u v w", Id)
        q, r = z3.Consts("q r", Path)
        S = z3.Const("S", SetId)
        x = z3.Const("x", Id)
        j = z3.Const("j", I)
        p = z3.Const("p", Path)
        S1 = z3.Store(S, u, True)
        S2 = z3.Store(S1, w, True)
        ax = path_axioms() + [z3.ForAll([x], pat(sing(x), 0) == x, patterns=[sing(x)]),
                              z3.ForAll([x, p], pat(cons(x, p), 0) == x, patterns=[cons(x, p)]),
                              z3.ForAll([x, p, j], z3.Implies(j >= 1, pat(cons(x, p), j) == pat(p, j - 1)), patterns=[pat(cons(x, p), j)])]
        ww, rr = z3.Const("ww", Id), z3.Const("rr", Path)
        base = ax + [unfold_ax(V, u, v, S), tob(V.node(u)), Simple(u, v, S, q)]
        yield Obl("a simple path starts at its first node", base, z3.And(head(q) == u, z3.Not(z3.Select(S, u))))
        # induction on the path: the rest of the path has the property
        ih = lambda f: z3.ForAll([ww, rr], tob(Implies(And(V.node(ww), Simple(ww, v, S1, rr), q == cons(u, rr)), f(rr))))
        yield Obl("all positions of a simple path are nodes", base + [ih(lambda t: all_nodes(V, t)), j >= 0, j < plen(q)], V.node(pat(q, j)))
        yield Obl("a simple path has at least one node", base + [ih(lambda t: plen(t) >= 1)], plen(q) >= 1)
        yield Obl("a simple path between two nodes has at least two", base + [u != v, ih(lambda t: plen(t) >= 1)], plen(q) >= 2)
        hyp = ax + [unfold_ax(V, u, v, S), tob(V.node(u)), tob(V.node(v)), u != v]
        un2 = z3.ForAll([ww, rr], tob(Iff(Simple(ww, v, S1, rr), And(Not(z3.Select(S1, ww)), Or(And(ww == v, rr == sing(ww)),
              And(ww != v, z3.Exists([x, p], tob(And(rr == cons(ww, p), V.node(x), V.adj(ww, x), Simple(x, v, z3.Store(S1, ww, True), p))))))))), patterns=[Simple(ww, v, S1, rr)])
        ge1 = z3.ForAll([ww, x, rr], z3.Implies(Simple(x, v, z3.Store(S1, ww, True), rr), plen(rr) >= 1), patterns=[Simple(x, v, z3.Store(S1, ww, True), rr)])
        yield Obl("a simple path of two nodes joins adjacent nodes", hyp + [un2, ge1, Simple(u, v, S, q), plen(q) == 2], V.adj(u, v))
        yield Obl("adjacent nodes are joined by a simple path of two nodes", hyp + [un2, z3.Not(z3.Select(S, u)), z3.Not(z3.Select(S, v)), tob(V.adj(u, v)), plen(cons(u, sing(v))) == 2,
                  Simple(v, v, S1, sing(v)) == Simple(v, v, S1, sing(v)), Simple(u, v, S, cons(u, sing(v))) == Simple(u, v, S, cons(u, sing(v)))],
                  z3.And(Simple(u, v, S, cons(u, sing(v))), plen(cons(u, sing(v))) == 2))
    return Unit("lemmas on simple paths", gen)


def p04_units():
    return [dirpaths_unit()]


def p05_units():
    return [lemma_unit(), allpaths_unit(), pq_unit("_is_a_collider_blocking"), pq_unit("_is_a_non_collider_in_conditioning_set"), dsep_unit("are_nodes_d_separated_dag", False)]


def p06_units():
    return [lemma_unit(), allpaths_unit(), pq_unit("_is_a_collider_blocking"), pq_unit("_is_path_of_definite_status"), pq_unit("_is_definite_noncollider_in_conditioning_set"),
            dsep_unit("are_nodes_d_separated_cpdag", True)]


def units():
    return [allpaths_unit(), dirpaths_unit()]
