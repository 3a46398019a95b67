"""Contracts of the reachability queries (P04): descendants, directed path existence, path listings."""
import z3
from .base import *
from .interp import *
from .graphspec import View
from .verify import Obl, Unit
from .gcontracts import G, MIX, ETF, QUERIES, toid, heap_same, find, k

DESC = k("descendants_of_node")
DPE = k("directed_path_exists")
SetId = z3.ArraySort(Id, B)
# reachability over one-way edges / over all present edges (reflexive transitive closure), for the heap of the unit
ReachO = z3.Function("reach_one_way", Id, Id, B)
ReachL = z3.Function("reach_present", Id, Id, B)


def closure_axioms(F, edge, u):
    """true facts about the reflexive transitive closure (induction is used through explicit instances)"""
    x, y, z = z3.Consts("cx cy cz", Id)
    e = lambda a, b: tob(edge(a, b))
    return [z3.ForAll([x], F(x, x)),
            # first step of a path, for the node asked for
            z3.ForAll([y, z], z3.Implies(z3.And(e(u, y), F(y, z)), F(u, z)), patterns=[F(y, z)])]


def induct(F, edge, u, P):
    """induction instance: a set that holds u and is closed under the edges holds everything reachable from u"""
    x, y = z3.Consts("ix iy", Id)
    return Implies(And(P(u), z3.ForAll([x, y], tob(Implies(And(P(x), edge(x, y)), P(y))))), z3.ForAll([x], tob(Implies(F(u, x), P(x)))))


def mem_fn(eng, c):
    """membership of an id in a container of ids or nodes, as a function"""
    segs = [Seg(s.bvs, s.guard, s.elem) for s in c.segs]

    def m(x):
        alts = []
        for s in map(rename_seg, segs):
            e = s.elem
            if isinstance(e, NodeV):
                e = e.id
            if not (isz(e) and e.sort() == Id):
                raise Unsupported(f"element {e!r} in an id container")
            if len(s.bvs) == 1 and s.bvs[0].eq(e):
                alts.append(z3.substitute(tob(s.guard), (e, x)))
            else:
                alts.append(Exists(s.bvs, And(s.guard, e == x)))
        return Or(*alts)
    return m


def arr_seg(S, node=False):
    x = z3.Const(fresh_name("m"), Id)
    return [Seg([x], z3.Select(S, x), NodeV(x) if node else x)]


def cont_loop(eng, st, seg, body, names, node, inv):
    """for-loop that changes containers through calls: proved with an invariant over the processed elements"""
    vis = st.env["$visited"]() if callable(st.env.get("$visited")) else None
    vis = inv.visited(eng, st)
    seg = rename_seg(seg)
    # which containers does the body change?
    t = st.copy()
    t.pc.append(tob(seg.guard))
    for n in names:
        if n in t.env:
            t.env[n] = Poison(n)
    pre = {o: list(c.segs) for o, c in t.store.items()}
    changed = set()
    n_obls = len(eng.obls)
    for s2, o in body(t, seg.elem):
        if any(not (isz(v) and v.eq(s2.heap[kk])) for kk, v in st.heap.items() if isz(v)):
            raise Unsupported("loop changes the graph")
        for oid, segs in pre.items():
            d = s2.store[oid].segs
            if len(d) != len(segs) or any(p is not q for p, q in zip(segs, d)):
                changed.add(oid)
    del eng.obls[n_obls:]
    acc = sorted(changed - {vis.oid})
    if len(acc) > 1:
        raise Unsupported("loop changes several containers")
    before = {o: mem_fn(eng, st.store[o]) for o in changed | {vis.oid}}
    kk = seg.elem
    if not (isz(kk) and kk.sort() == Id) or len(seg.bvs) != 1 or not seg.bvs[0].eq(kk):
        raise Unsupported("loop is not over node ids")

    def in_seq(x):
        return z3.substitute(tob(seg.guard), (kk, x))

    def havoc(s, tag):
        now = {}
        for o in changed:
            c = s.store[o]
            isnode = o != vis.oid
            S = z3.Const(fresh_name(f"{tag}_{'acc' if isnode else 'visited'}"), SetId)
            eng.havoc(s, S)
            s.store[o] = Cont(c.kind, arr_seg(S, isnode))
            now[o] = lambda x, S=S: z3.Select(S, x)
        if vis.oid not in changed:
            now[vis.oid] = before[vis.oid]
        return now

    def parts(now, done):
        return inv.parts(eng, st, before[vis.oid], now[vis.oid], before[acc[0]] if acc else None, now[acc[0]] if acc else None, done)
    start = {o: before[o] for o in before}
    for n, f in parts(start, lambda x: False):
        eng.obls.append(Obl(f"loop invariant holds initially: {n}", list(st.pc), f))
    s = st.copy()
    now = havoc(s, "loop")
    done = z3.Const(fresh_name("done"), SetId)
    for n in names:
        if n in s.env:
            s.env[n] = Poison(n)
    s.pc += [tob(f) for _, f in parts(now, lambda x: z3.Select(done, x))]
    s.pc += [tob(seg.guard), z3.Not(z3.Select(done, kk))]
    q = z3.Const("dq", Id)
    s.pc.append(z3.ForAll([q], z3.Implies(z3.Select(done, q), in_seq(q))))
    out = []
    for s2, o in body(s, kk):
        if not (o is NORMAL or o[0] == "continue"):
            s2 = s2.copy()
            s2.fresh = st.fresh + [kk, done] + s2.fresh[len(st.fresh):]
            out.append((s2, NORMAL if o[0] == "break" else o))
            if o[0] == "break":
                raise Unsupported("break in a loop with invariant")
            continue
        end = {o2: mem_fn(eng, s2.store[o2]) for o2 in before}
        for n, f in parts(end, lambda x: Or(z3.Select(done, x), x == kk)):
            eng.obls.append(Obl(f"loop invariant is kept: {n}", list(s2.pc), f))
    r = st.copy()
    fin = havoc(r, "after")
    r.pc += [tob(f) for _, f in parts(fin, in_seq)]
    for n in names:
        r.env[n] = Poison(n)
    out.append((r, NORMAL))
    return out


class Visited:
    """the container passed as `visited` (found by its role: the set created or received under this parameter)"""


class DescInv:
    def visited(self, eng, st):
        v = st.env.get(self.param)
        if not isinstance(v, CRef):
            raise Unsupported("visited set not found")
        return v

    def __init__(self, param, u, parts):
        self.param, self.u, self.parts_ = param, u, parts

    def parts(self, eng, st, S0, S, D0, D, done):
        return self.parts_(eng, st, S0, S, D0, D, done)


def ids(*ns):
    return [z3.Const(fresh_name(n), Id) for n in ns]


def visited_param(fn):
    """name of the parameter that carries the visited nodes"""
    a = [x.arg for x in fn.node.args.args]
    if len(a) < 3 and fn.node.name == "descendants_of_node" and len(a) == 3:
        return a[2]
    return a[-1]


class DescContract:
    """descendants_of_node: marks exactly new nodes, all reachable, closed under one-way edges; returns what it marked"""
    def apply(self, eng, st, bound):
        V = View(st.heap)
        if not heap_same(eng.reach_heap, st.heap):
            return None
        names = [n for n in bound if n != "self"]
        u, vis = toid(bound[names[0]]), bound[names[1]]
        if vis is None:
            s = st.copy()
            return [(s, s.new(Cont("list", [Seg([x := z3.Const(fresh_name("d"), Id)], ReachO(u, x), NodeV(x))])))]
        if not isinstance(vis, CRef):
            raise Unsupported("visited argument")
        eng.obls.append(Obl("the node asked for is a node", list(st.pc), V.node(u)))
        S0 = mem_fn(eng, st.store[vis.oid])
        if eng.target == DESC:
            x, = ids("x")
            Sin, u0 = eng.rec_in
            eng.obls.append(Obl("termination: every recursive call has marked one more node", list(st.pc),
                                And(V.node(u0), Not(Sin(u0)), S0(u0), z3.ForAll([x], tob(Implies(Sin(x), S0(x)))))))
        yes, no = eng.split(st, S0(u))
        out = []
        if yes is not None:
            s = yes.copy()
            out.append((s, s.new(Cont("list", []))))
        if no is not None:
            s = no.copy()
            S1 = z3.Const(fresh_name("marked"), SetId)
            eng.havoc(s, S1)
            m1 = lambda x: z3.Select(S1, x)
            s.pc += [tob(f) for _, f in self.post(V, u, S0, m1)]
            s.store[vis.oid] = Cont("set", arr_seg(S1))
            x = z3.Const(fresh_name("d"), Id)
            out.append((s, s.new(Cont("list", [Seg([x], And(m1(x), Not(S0(x))), NodeV(x))]))))
        return out

    def post(self, V, u, S0, S1):
        x, y = ids("x", "y")
        return [("marked nodes stay marked", z3.ForAll([x], tob(Implies(S0(x), S1(x))))),
                ("the node itself is marked", S1(u)),
                ("only reachable nodes are marked", z3.ForAll([x], tob(Implies(And(S1(x), Not(S0(x))), ReachO(u, x))))),
                ("the marked nodes are closed under one-way edges", z3.ForAll([x, y], tob(Implies(And(S1(x), Not(S0(x)), V.only(x, y)), S1(y)))))]


def desc_unit():
    def gen(ctx):
        fn = find(ctx.prog, DESC)
        params = [a.arg for a in fn.node.args.args]
        if len(params) < 3:
            raise Unsupported("signature of descendants_of_node")
        con = DescContract()
        for kind in ("id", "node"):
            for rk in (GraphV, ManagerV):
                for top in (True, False):
                    eng = ctx.engine({**QUERIES, DESC: con}, DESC)
                    st = ctx.start(eng)
                    V = View(st.heap)
                    eng.reach_heap = dict(st.heap)
                    u = z3.Const("u", Id)
                    st.pc += closure_axioms(ReachO, V.only, u)
                    st.pc.append(tob(V.node(u)))
                    arg = NodeV(u) if kind == "node" else u
                    S0a = z3.Const("visited", SetId)
                    S0 = (lambda x: False) if top else (lambda x: z3.Select(S0a, x))
                    eng.rec_in = (S0, u)
                    h0 = dict(st.heap)
                    if top:
                        visv = None
                    else:
                        visv = st.new(Cont("set", arr_seg(S0a)))

                    def parts(eng, st_, B0, S, D0, D, done):
                        x, y = ids("x", "y")
                        new = lambda z: And(S(z), Not(B0(z)))
                        fs = [("marked nodes stay marked", z3.ForAll([x], tob(Implies(B0(x), S(x))))),
                              ("only reachable nodes are marked", z3.ForAll([x], tob(Implies(new(x), ReachO(u, x))))),
                              ("newly marked nodes are closed under one-way edges", z3.ForAll([x, y], tob(Implies(And(new(x), V.only(x, y)), S(y))))),
                              ("children seen so far are marked", z3.ForAll([x], tob(Implies(And(done(x), V.only(u, x)), S(x)))))]
                        if D is not None:
                            fs.append(("collected are the nodes marked since", z3.ForAll([x], tob(Iff(D(x), Or(D0(x), new(x)))))))
                        return fs
                    inv = DescInv(params[2], u, parts)
                    eng.cont_invs = {DESC: inv}
                    lab = f"descendants_of_node on {rk.kind} called with {kind}{'' if top else ' and visited nodes'}"
                    for s, r in eng.call_fn(FuncV(fn, rk()), [arg] + ([] if top else [visv]), {}, st):
                        if isinstance(r, Raised):
                            yield Obl(f"{lab}: never raises {r.exc}", s.pc, False)
                            continue
                        R_ = mem_fn(eng, s.store[r.oid] if isinstance(r, CRef) else r)
                        x, = ids("x")
                        if top:
                            # the visited set of this call: everything collected, closed
                            cands = [c for c in s.store.values() if c.kind == "set" and any(isz(g.elem) and g.elem.sort() == Id for g in c.segs)]
                            ind = [tob(induct(ReachO, V.only, u, mem_fn(eng, c))) for c in cands] + [tob(induct(ReachO, V.only, u, R_))]
                            yield Obl(f"{lab}: exactly the reachable nodes", s.pc + ind, z3.ForAll([x], tob(Iff(R_(x), ReachO(u, x)))))
                        else:
                            S1 = mem_fn(eng, s.store[visv.oid])
                            for n, f in con.post(V, u, S0, S1):
                                yield Obl(f"{lab}: {n}", s.pc + ([] if "itself" in n else [Not(S0(u))]), f)
                            yield Obl(f"{lab}: a visited node changes nothing", s.pc + [S0(u)], z3.ForAll([x], tob(And(Iff(S1(x), S0(x)), Not(R_(x))))))
                            yield Obl(f"{lab}: returns the nodes it marked", s.pc + [Not(S0(u))], z3.ForAll([x], tob(Iff(R_(x), And(S1(x), Not(S0(x)))))))
                    for o in eng.obls:
                        yield Obl(f"{lab}: {o.name}", o.hyps, o.goal)
                    ctx.close(eng)
    return Unit("descendants_of_node", gen, keys=[DESC])


class DpeContract:
    """directed_path_exists: True only with a path; False leaves a set of marked nodes closed under present edges without an edge to v"""
    def apply(self, eng, st, bound):
        V = View(st.heap)
        if not heap_same(eng.reach_heap, st.heap):
            return None
        names = [n for n in bound if n != "self"]
        u, v, vis = toid(bound[names[0]]), toid(bound[names[1]]), bound[names[2]]
        if vis is None:
            return [(st, plus(V, u, v))]
        if not isinstance(vis, CRef):
            raise Unsupported("visited argument")
        S0 = mem_fn(eng, st.store[vis.oid])
        if eng.target == DPE:
            x, = ids("x")
            Sin, u0 = eng.rec_in
            eng.obls.append(Obl("termination: every recursive call has marked one more node", list(st.pc),
                                And(Not(Sin(u0)), S0(u0), z3.ForAll([x], tob(Implies(Sin(x), S0(x)))))))
            eng.obls.append(Obl("termination: only unmarked nodes are visited", list(st.pc), Not(S0(u))))
            eng.obls.append(Obl("termination: visited ids are nodes", list(st.pc), V.node(u)))
        t = st.copy()
        S1 = z3.Const(fresh_name("marked"), SetId)
        r = z3.Const(fresh_name("found"), B)
        eng.havoc(t, S1, r)
        m1 = lambda x: z3.Select(S1, x)
        t.pc += [tob(Implies(r, plus(V, u, v)))] + [tob(Implies(Not(r), f)) for _, f in self.post(V, u, v, S0, m1)]
        t.store[vis.oid] = Cont("set", arr_seg(S1))
        return [(t, r)]

    def post(self, V, u, v, S0, S1):
        x, y = ids("x", "y")
        new = lambda z: And(S1(z), Not(S0(z)))
        return [("marked nodes stay marked", z3.ForAll([x], tob(Implies(S0(x), S1(x))))),
                ("the node itself is marked", S1(u)),
                ("no marked node has an edge to the target", z3.ForAll([x], tob(Implies(new(x), Not(V.live(x, v)))))),
                ("the marked nodes are closed under present edges", z3.ForAll([x, y], tob(Implies(And(new(x), V.live(x, y)), S1(y)))))]


def plus(V, u, v):
    x, = ids("x")
    return z3.Exists([x], tob(And(ReachL(u, x), V.live(x, v))))


def dpe_unit():
    def gen(ctx):
        fn = find(ctx.prog, DPE)
        params = [a.arg for a in fn.node.args.args]
        if len(params) < 4:
            raise Unsupported("signature of directed_path_exists")
        con = DpeContract()
        for kind in ("id", "node"):
            for rk in (GraphV, ManagerV):
                for top in (True, False):
                    eng = ctx.engine({**QUERIES, DPE: con}, DPE)
                    st = ctx.start(eng)
                    V = View(st.heap)
                    eng.reach_heap = dict(st.heap)
                    u, v = z3.Consts("u v", Id)
                    st.pc += closure_axioms(ReachL, V.live, u)
                    st.pc += [tob(V.node(u)), tob(V.node(v))]
                    args = [NodeV(u), NodeV(v)] if kind == "node" else [u, v]
                    S0a = z3.Const("visited", SetId)
                    S0 = (lambda x: False) if top else (lambda x: z3.Select(S0a, x))
                    eng.rec_in = (S0, u)
                    if not top:
                        visv = st.new(Cont("set", arr_seg(S0a)))
                        st.pc.append(z3.Not(z3.Select(S0a, u)))

                    def parts(eng, st_, B0, S, D0, D, done):
                        x, y = ids("x", "y")
                        new = lambda z: And(S(z), Not(B0(z)))
                        if D is not None:
                            raise Unsupported("loop changes another container")
                        return [("marked nodes stay marked", z3.ForAll([x], tob(Implies(B0(x), S(x))))),
                                ("no newly marked node has an edge to the target", z3.ForAll([x], tob(Implies(new(x), Not(V.live(x, v)))))),
                                ("newly marked nodes are closed under present edges", z3.ForAll([x, y], tob(Implies(And(new(x), V.live(x, y)), S(y))))),
                                ("successors seen so far are marked", z3.ForAll([x], tob(Implies(And(done(x), V.live(u, x)), S(x)))))]
                    eng.cont_invs = {DPE: DescInv(params[3], u, parts)}
                    lab = f"directed_path_exists on {rk.kind} called with {kind}{'' if top else ' and visited nodes'}"
                    for s, r in eng.call_fn(FuncV(fn, rk()), args + ([] if top else [visv]), {}, st):
                        if isinstance(r, Raised):
                            yield Obl(f"{lab}: never raises {r.exc}", s.pc, False)
                            continue
                        r = tob(eng.truth(r, s))
                        yield Obl(f"{lab}: a path is reported only if there is one", s.pc + [r], plus(V, u, v))
                        if top:
                            cands = [c for c in s.store.values() if c.kind == "set" and c.segs]
                            if z3.is_true(z3.simplify(r)):
                                continue
                            if len(cands) != 1:
                                raise Unsupported("which set holds the visited nodes")
                            S = mem_fn(eng, cands[0])
                            x, y = ids("x", "y")
                            hy = s.pc + [z3.Not(r)]
                            # induction over the path, with the visited set as the induction predicate
                            yield Obl(f"{lab}: a path is reported if there is one (base)", hy, S(u))
                            yield Obl(f"{lab}: a path is reported if there is one (step)", hy + [tob(S(x)), tob(V.live(x, y))], S(y))
                            yield Obl(f"{lab}: a path is reported if there is one (end)", hy + [tob(S(x)), tob(V.live(x, v))], False)
                        else:
                            S1 = mem_fn(eng, s.store[visv.oid])
                            for n, f in con.post(V, u, v, S0, S1):
                                yield Obl(f"{lab}: {n}", s.pc + [z3.Not(r)], f)
                    for o in eng.obls:
                        yield Obl(f"{lab}: {o.name}", o.hyps, o.goal)
                    ctx.close(eng)
    return Unit("directed_path_exists", gen, keys=[DPE])


def units():
    return [desc_unit(), dpe_unit()]


def desc_units():
    return [desc_unit()]
