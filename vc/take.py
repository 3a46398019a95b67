"""Contract of action application (P07): AbstractGraphModel._take_action.

Every iteration is verified from an arbitrary graph that satisfies the representation invariant (step contract); the effect of a
whole run is the fold of these steps in the order of the proposals (induction over the proposals)."""
import z3
from .base import *
from .interp import *
from .graphspec import View, RI
from .verify import Obl, Unit
from .gcontracts import heap_same, QUERIES
from .mutators import Change, MUTATORS, NONE, dirs, ite, restore_change, setup, same, hist_app, hist_empty
from .rules import ACTIONS, ACT_DISTINCT, act, res_action, res_u, res_v

GMF = "causy/graph_model.py"
TAKE = f"{GMF}:AbstractGraphModel._take_action"
HOOK = f"{GMF}:AbstractGraphModel._execute_hook"
res_meta = z3.Function("res_value", Obj, Meta)
res_etype = z3.Function("res_edge_type", Obj, EType)
batch_at = z3.Function("batch_item", Obj, I, Obj)
batch_len = z3.Function("batch_len", Obj, I)
took = z3.Function("is_taken", Obj, I, B)


class PropV:
    """a proposal: action, two nodes, data"""
    def __init__(self, r, kind=None):
        self.r, self.kind = r, kind
    def subst(self, pairs):
        return PropV(z3.substitute(self.r, *pairs), self.kind)
    def attr(self, eng, st, a):
        if a == "action":
            return [(st, res_action(self.r))]
        if a in ("u", "v"):
            return [(st, NodeV((res_u if a == "u" else res_v)(self.r)))]
        if a == "data":
            return [(st, TypeData(self.r) if self.kind in ("UPDATE_EDGE_TYPE", "UPDATE_EDGE_TYPE_DIRECTED") else res_meta(self.r))]
        raise Unsupported(f"proposal attribute {a}")
    def term_obj(self, eng, st):
        return self.r
    def truth(self, eng, st):
        return True
    def is_none(self, eng, st):
        return False
    def isinst(self, eng, st, n):
        return n == "TestResult"


class TypeData:
    def __init__(self, r):
        self.r = r
    def subst(self, pairs):
        return TypeData(z3.substitute(self.r, *pairs))
    def item(self, eng, st, k):
        if k != "edge_type":
            raise Unsupported(f"key {k!r} of an edge type update")
        eng.assumed.add("edge type updates carry their edge type in data['edge_type']")
        return [(st, res_etype(self.r))]


class BatchL:
    """a list of proposals of unknown length"""
    def __init__(self, b):
        self.b = b
    def subst(self, pairs):
        return BatchL(z3.substitute(self.b, *pairs))
    def iter_segs(self, eng, st):
        j = z3.Const(fresh_name("j"), I)
        return [Seg([j], z3.And(j >= 0, j < batch_len(self.b)), PropV(batch_at(self.b, j)))]
    def is_none(self, eng, st):
        return False
    def isinst(self, eng, st, n):
        return n == "list"
    def slice(self, eng, st, ps):
        ps = list(ps) + [None] * (3 - len(ps))
        if ps[2] not in (None, 1) or any(p is not None and (isinstance(p, bool) or not isinstance(p, int) or p < 0) for p in ps[:2]):
            raise Unsupported("slice of a list of proposals")
        if not ps[0] and ps[1] is None:
            return [(st, self)]         # a copy; proposals of a step are never edited in place
        return [(st, BatchPart(self, ps[0] or 0, ps[1]))]


class BatchPart:
    """some of the proposals of a list"""
    def __init__(self, of, lo, hi):
        self.of, self.lo, self.hi = of, lo, hi
    def subst(self, pairs):
        return BatchPart(self.of.subst(pairs), self.lo, self.hi)
    def iter_segs(self, eng, st):
        (g,) = self.of.iter_segs(eng, st)
        j = g.bvs[0]
        return [Seg(g.bvs, z3.And(g.guard, j >= self.lo, True if self.hi is None else j < self.hi), g.elem)]
    def is_none(self, eng, st):
        return False
    def isinst(self, eng, st, n):
        return n == "list"


class ResultsL:
    """the list of what the calls of a step returned: None, one proposal or a list of proposals each"""
    closed = True
    def iter_segs(self, eng, st):
        k = z3.Const(fresh_name("k"), I)
        return [Seg([k], z3.And(k >= 0), EntryV(k))]
    def is_none(self, eng, st):
        return False


class EntryV:
    def __init__(self, k):
        self.k = k
    def subst(self, pairs):
        return EntryV(z3.substitute(self.k, *pairs))


def applicable(kind, V, u, v):
    known = Or(V.raw(u, v), V.raw(v, u), V.rec(u, v), V.rec(v, u))
    return {"REMOVE_EDGE_UNDIRECTED": lambda: V.und(u, v), "REMOVE_EDGE_DIRECTED": lambda: V.adj(u, v),
            "UPDATE_EDGE": lambda: V.adj(u, v), "UPDATE_EDGE_DIRECTED": lambda: V.live(u, v),
            "UPDATE_EDGE_TYPE": lambda: V.adj(u, v), "UPDATE_EDGE_TYPE_DIRECTED": lambda: V.live(u, v),
            "RESTORE_EDGE": lambda: And(Not(V.adj(u, v)), known), "RESTORE_EDGE_DIRECTED": lambda: And(Not(V.live(u, v)), Or(V.raw(u, v), V.rec(u, v))),
            "DO_NOTHING": lambda: False}[kind]()


def effect(kind, u, v, r):
    """the documented effect of an applicable proposal"""
    both_hist = kind in ("REMOVE_EDGE_UNDIRECTED", "UPDATE_EDGE", "UPDATE_EDGE_TYPE", "RESTORE_EDGE")

    def pair(V, W, a, b):
        d = {}
        fwd = And(a == u, b == v)
        t = dirs(a, b, u, v, True)
        if kind == "REMOVE_EDGE_UNDIRECTED":
            d["dead"] = Or(V.dead(a, b), t)
        elif kind == "REMOVE_EDGE_DIRECTED":
            d["dead"] = Or(V.dead(a, b), fwd)
            d["etype"] = ite(And(a == v, b == u, V.live(v, u)), ET_DIRECTED, V.etype(a, b))
        elif kind.startswith("UPDATE"):
            one = And(fwd, V.live(u, v))
            tgt = one if kind.endswith("_DIRECTED") else Or(And(t, V.und(u, v)), And(Not(V.und(u, v)), Or(one, And(a == v, b == u, Not(V.live(u, v))))))
            if "TYPE" in kind:
                d["etype"] = ite(And(tgt, res_etype(r) != NONE["etype"]), res_etype(r), V.etype(a, b))
            else:
                d["meta"] = ite(And(tgt, res_meta(r) != NONE["meta"]), res_meta(r), V.meta(a, b))
        elif kind.startswith("RESTORE"):
            d = restore_change(kind == "RESTORE_EDGE")(V, u, v).pair(V, W, a, b)
        h = t if both_hist else fwd
        old = ite(V.hist(a, b), V.hlist(a, b), hist_empty)
        d["hist"] = Or(d.get("hist", V.hist(a, b)), h)
        d["hlist"] = ite(h, hist_app(old, r), d.get("hlist", V.hlist(a, b)))
        return d
    return Change(pair)


class HookContract:
    def apply(self, eng, st, bound):
        eng.assumed.add("hooks of edge types do not edit the graph (those of the built-in edge types do nothing)")
        return [(st, None)]


def accumulators(st):
    """containers that exist before the step: what they hold is arbitrary, what is appended is observed"""
    s = st.copy()
    ids = list(s.store)
    for o in ids:
        s.store[o] = Cont(s.store[o].kind, [], acc=o)
    return s, ids


def fresh_graph(eng, s):
    nh = fresh_heap("any")
    s.heap.update(nh)
    s.pc += RI(nh)
    eng.ri_heaps.append(dict(nh))
    return View(nh)


def props(eng, s, segs):
    out = []
    for g in segs:
        if not isinstance(g.elem, PropV):
            raise Unsupported("something else than a proposal is reported")
        out.append(g)
    return out


class TakeLoop:
    def __init__(self, dry, lab, sink):
        self.dry, self.lab, self.sink = dry, lab, sink
        self.roles, self.ids = {}, []

    def emit(self, name, hyps, goal):
        self.sink.append(Obl(f"{self.lab}: {name}", hyps, goal))

    def __call__(self, eng, st, seg, body, names, node):
        if isinstance(seg.elem, EntryV):
            return self.outer(eng, st, body, names)
        if isinstance(seg.elem, PropV):
            return self.inner(eng, st, seg, body, names)
        return None

    def check_step(self, eng, V, s2, r, kind, where):
        """effect of one proposal on the graph; returns the condition under which it counts as taken"""
        u, v = res_u(r), res_v(r)
        W = View(s2.heap)
        if self.dry:
            for o in same(V, W, s2, f"{where}{kind}: a dry run changes nothing"):
                self.emit(o.name, s2.pc, o.goal)
            return True
        ok = tob(applicable(kind, V, u, v))
        yes, no = eng.split(s2, ok)
        if yes is not None:
            for n, f in effect(kind, u, v, r).parts(V, W):
                self.emit(f"{where}{kind}, applicable: {n}", yes.pc, f)
        if no is not None:
            for o in same(V, W, no, f"{where}{kind}, not applicable: changes nothing"):
                self.emit(o.name, no.pc, o.goal)
        if not any(heap_same(h, s2.heap) for h in eng.ri_heaps):
            for n, f in RI(s2.heap, True):
                self.emit(f"{where}{kind}: invariant: {n}", s2.pc, f)
        return ok

    def start(self, eng, st, names):
        s, ids = accumulators(st)
        for n in names:
            if n in s.env:
                s.env[n] = Poison(n)
        V = fresh_graph(eng, s)
        return s, ids, V

    def proposal(self, s, V, kind, r):
        s.pc += [res_action(r) == act(kind), tob(V.node(res_u(r))), tob(V.node(res_v(r))), ET_DIRECTED != NONE["etype"]]
        return PropV(r, kind)

    def inner(self, eng, st, seg, body, names):
        b = seg.elem.r.arg(0) if z3.is_app(seg.elem.r) and seg.elem.r.decl().eq(batch_at) else None
        if b is None or len(seg.bvs) != 1:
            raise Unsupported("loop over proposals")
        role = set()
        for kind in ACTIONS:
            s, ids, V = self.start(eng, st, names)
            r = z3.Const(fresh_name("proposal"), Obj)
            elem = self.proposal(s, V, kind, r)
            for s2, o in body(s, elem):
                if not (o is NORMAL or o[0] == "continue"):
                    self.emit(f"in a list, {kind}: the proposal is neither skipped nor fails", s2.pc, False)
                    continue
                taken = self.check_step(eng, V, s2, r, kind, "in a list, ")
                app = {x: props(eng, s2, s2.store[x].segs) for x in ids if s2.store[x].segs}
                if not app:
                    self.emit(f"in a list, {kind}: taken proposals are reported", s2.pc, Not(taken))
                    continue
                role |= set(app)
                self.emit(f"in a list, {kind}: only taken proposals are reported", s2.pc, taken)
                for x, gs in app.items():
                    good = len(gs) == 1 and not gs[0].bvs and gs[0].guard is True and gs[0].elem.r.eq(r)
                    self.emit(f"in a list, {kind}: the proposal itself is reported once", s2.pc, good)
        if len(role) != 1:
            raise Unsupported("which list holds the actions taken")
        t = st.copy()
        fresh_graph(eng, t) if not self.dry else None
        x = role.pop()
        j = z3.Const(fresh_name("j"), I)
        g = z3.And(j >= 0, j < batch_len(b))
        t.store[x].segs.append(Seg([j], g if self.dry else z3.And(g, took(b, j)), PropV(batch_at(b, j))))
        for n in names:
            t.env[n] = Poison(n)
        return [(t, NORMAL)]

    def outer(self, eng, st, body, names):
        roles = {}

        def vote(o, what):
            roles.setdefault(o, set()).add(what)
        # nothing was returned
        s, ids, V = self.start(eng, st, names)
        for s2, o in body(s, None):
            fine = o is NORMAL or o[0] == "continue"
            self.emit("an empty result neither fails nor stops the others", s2.pc, fine)
            self.emit("an empty result reports nothing", s2.pc, not any(s2.store[x].segs for x in ids))
            for ob in same(V, View(s2.heap), s2, "an empty result changes nothing"):
                self.emit(ob.name, s2.pc, ob.goal)
        # one proposal
        for kind in ACTIONS:
            s, ids, V = self.start(eng, st, names)
            r = z3.Const(fresh_name("proposal"), Obj)
            elem = self.proposal(s, V, kind, r)
            for s2, o in body(s, elem):
                if not (o is NORMAL or o[0] == "continue"):
                    self.emit(f"alone, {kind}: the proposal does not fail or stop the others", s2.pc, False)
                    continue
                taken = self.check_step(eng, V, s2, r, kind, "alone, ")
                app = {x: props(eng, s2, s2.store[x].segs) for x in ids if s2.store[x].segs}
                for x, gs in app.items():
                    good = len(gs) == 1 and not gs[0].bvs and gs[0].guard is True and gs[0].elem.r.eq(r)
                    self.emit(f"alone, {kind}: the proposal itself is reported once", s2.pc, good)
                self.sink.append(("single", list(s2.pc), set(app), taken, kind))
        # a list of proposals
        s, ids, V = self.start(eng, st, names)
        b = z3.Const(fresh_name("batch"), Obj)
        s.pc.append(batch_len(b) >= 0)
        for s2, o in body(s, BatchL(b)):
            if not (o is NORMAL or o[0] == "continue"):
                self.emit("a list of proposals neither fails nor stops the others", s2.pc, False)
                continue
            for x in ids:
                gs = props(eng, s2, s2.store[x].segs)
                if not gs:
                    continue
                if len(gs) != 1 or len(gs[0].bvs) != 1:
                    self.emit("the proposals of a list are reported once and in order", s2.pc, False)
                    continue
                j = gs[0].bvs[0]
                roles.setdefault(x, set())
                if not gs[0].elem.r.eq(batch_at(b, j)):
                    raise Unsupported("order of the reported proposals")
                full = z3.And(j >= 0, j < batch_len(b))
                if z3_equiv(gs[0].guard, full):
                    vote(x, "all")
                if self.dry or z3_equiv(gs[0].guard, z3.And(full, took(b, j))):
                    vote(x, "taken")
        self.roles, self.ids = roles, ids
        t = st.copy()
        if not self.dry:
            fresh_graph(eng, t)
        for x in ids:
            t.store[x] = Cont(t.store[x].kind, list(t.store[x].segs) + [Seg((), True, ObjV(f"accumulated {x}"))])
        for n in names:
            t.env[n] = Poison(n)
        return [(t, NORMAL)]


hooked = z3.Function("answer_of_pre_hooks", Obj, Obj)      # the list of proposals the pre graph update hooks make of a list
hooked_one = z3.Function("answer_of_pre_hooks_for_one", Obj, Obj)


class PreHooks:
    """contract of _execute_pre_graph_update_hooks (verified in vc/classes.py): some list of proposals, a function of the list given"""
    def __init__(self, hooks):
        self.hooks = hooks
    def apply(self, eng, st, bound):
        if bound.get("hooks") is not self.hooks or not isinstance(bound.get("graph"), ManagerV):
            raise Unsupported("which hooks are called")
        v = bound.get("results")
        if isinstance(v, BatchL):
            b = hooked(v.b)
        else:
            gs = eng.segs(v, st)
            if len(gs) != 1 or gs[0].bvs or gs[0].guard is not True or not isinstance(gs[0].elem, PropV):
                raise Unsupported("what the hooks are given")
            b = hooked_one(gs[0].elem.r)
        s = st.copy()
        s.pc.append(batch_len(b) >= 0)
        s.heap[("o", "hooks", "calls")] = s.heap.get(("o", "hooks", "calls"), ()) + (b,)
        return [(s, BatchL(b))]


class PostHooks:
    def apply(self, eng, st, bound):
        eng.assumed.add("graph update hooks do not edit the graph themselves")
        return [(st, None)]


class HookedLoop(TakeLoop):
    """with graph update hooks: the proposals applied and reported are those the pre hooks answered, for a single proposal and for a list"""
    def outer(self, eng, st, body, names):
        roles = {}
        s, ids, V = self.start(eng, st, names)
        for s2, o in body(s, None):
            self.emit("an empty result neither fails nor stops the others", s2.pc, o is NORMAL or o[0] == "continue")
            self.emit("an empty result reports nothing", s2.pc, not any(s2.store[x].segs for x in ids))
        for one in (True, False):
            s, ids, V = self.start(eng, st, names)
            what = "a single proposal" if one else "a list"
            if one:
                r = z3.Const(fresh_name("proposal"), Obj)
                elem, b = PropV(r), hooked_one(r)
            else:
                r = z3.Const(fresh_name("batch"), Obj)
                s.pc.append(batch_len(r) >= 0)
                elem, b = BatchL(r), hooked(r)
            for s2, o in body(s, elem):
                if not (o is NORMAL or o[0] == "continue"):
                    self.emit(f"{what} neither fails nor stops the others", s2.pc, False)
                    continue
                calls = s2.heap.get(("o", "hooks", "calls"), ())
                self.emit(f"{what} passes the pre hooks once", s2.pc, len(calls) == 1 and calls[0].eq(b))
                for x in ids:
                    gs = props(eng, s2, s2.store[x].segs)
                    if len(gs) != 1 or len(gs[0].bvs) != 1 or not (z3.is_app(gs[0].elem.r) and gs[0].elem.r.decl().eq(batch_at)):
                        raise Unsupported("how the proposals are reported")
                    j = gs[0].bvs[0]
                    self.emit(f"{what}: what is reported is what the pre hooks answered", s2.pc, gs[0].elem.r.eq(batch_at(b, j)))
                    full = z3.And(j >= 0, j < batch_len(b))
                    roles.setdefault((x, one), set())
                    if z3_equiv(gs[0].guard, full):
                        roles[(x, one)].add("all")
                    if self.dry or z3_equiv(gs[0].guard, z3.And(full, took(b, j))):
                        roles[(x, one)].add("taken")
        self.ids = ids
        self.roles = {x: roles.get((x, True), set()) & roles.get((x, False), set()) for x in ids}
        t = st.copy()
        if not self.dry:
            fresh_graph(eng, t)
        for x in ids:
            t.store[x] = Cont(t.store[x].kind, list(t.store[x].segs) + [Seg((), True, ObjV(f"accumulated {x}"))])
        for n in names:
            t.env[n] = Poison(n)
        return [(t, NORMAL)]


def hooked_unit():
    """applying proposals of an algorithm with graph update hooks"""
    def gen(ctx):
        c = ctx.prog.mod(GMF).classes.get("AbstractGraphModel")
        fn = ctx.prog.method(c, "_take_action")
        if fn is None:
            raise Unsupported("_take_action not found")
        for dry in (False, True):
            pre, post = ObjV("pre hooks"), ObjV("post hooks")
            eng = ctx.engine({**QUERIES, **MUTATORS, HOOK: HookContract(), f"{GMF}:AbstractGraphModel._execute_pre_graph_update_hooks": PreHooks(pre),
                              f"{GMF}:AbstractGraphModel._execute_post_graph_update_hooks": PostHooks()}, fn.key)
            setup(eng)
            st = ctx.start(eng)
            st.pc.append(ACT_DISTINCT)
            sink = []
            lab = "_take_action (with graph update hooks" + (", dry run)" if dry else ")")
            loop = HookedLoop(dry, lab, sink)
            eng.loop_hook = loop
            alg = ObjV("algorithm", None, {"pre_graph_update_hooks": pre, "post_graph_update_hooks": post})
            me = ObjV("model", c, {"graph": ManagerV(), "algorithm": alg})
            for s, v in eng.call_fn(FuncV(fn, me), [ResultsL()], {"dry_run": dry}, st):
                if isinstance(v, Raised):
                    yield Obl(f"{lab}: never raises {v.exc}", s.pc, False)
                    continue
                if not (isinstance(v, tuple) and len(v) == 2 and all(isinstance(x, CRef) and x.oid in loop.ids for x in v)):
                    raise Unsupported("value returned")
                for x, what in ((v[1].oid, "all"), (v[0].oid, "taken")):
                    if what not in loop.roles[x]:
                        raise Unsupported("which proposals of a list are reported")
                    yield Obl(f"{lab}: exactly the {'proposals the hooks answered' if what == 'all' else 'taken ones of them'} are reported", s.pc, True)
            for e in sink:
                yield e
            for o in eng.obls:
                yield Obl(f"{lab}: {o.name}", o.hyps, o.goal)
            ctx.close(eng)
    return Unit("_take_action with graph update hooks", gen, keys=[TAKE])


def z3_equiv(a, b):
    s = z3.Solver()
    s.set("timeout", 2000)
    s.add(tob(a) != tob(b))
    return s.check() == z3.unsat


def take_unit():
    def gen(ctx):
        c = ctx.prog.mod(GMF).classes.get("AbstractGraphModel")
        fn = ctx.prog.method(c, "_take_action")
        if fn is None:
            raise Unsupported("_take_action not found")
        for dry in (False, True):
            eng = ctx.engine({**QUERIES, **MUTATORS, HOOK: HookContract()}, fn.key)
            setup(eng)
            st = ctx.start(eng)
            st.pc.append(ACT_DISTINCT)
            h0 = dict(st.heap)
            sink = []
            lab = "_take_action" + (" (dry run)" if dry else "")
            loop = TakeLoop(dry, lab, sink)
            eng.loop_hook = loop
            alg = ObjV("algorithm", None, {"pre_graph_update_hooks": None, "post_graph_update_hooks": None})
            me = ObjV("model", c, {"graph": ManagerV(), "algorithm": alg})
            for s, v in eng.call_fn(FuncV(fn, me), [ResultsL()], {"dry_run": dry}, st):
                if isinstance(v, Raised):
                    yield Obl(f"{lab}: never raises {v.exc}", s.pc, False)
                    continue
                if not (isinstance(v, tuple) and len(v) == 2 and all(isinstance(x, CRef) for x in v)):
                    raise Unsupported("value returned")
                tk, al = v[0].oid, v[1].oid
                if tk not in loop.ids or al not in loop.ids:
                    raise Unsupported("how the reported proposals are collected")
                for x, what in ((al, "all"), (tk, "taken")):
                    if loop.roles.get(x) is not None and what not in loop.roles[x]:
                        raise Unsupported("which proposals of a list are reported")
                yield Obl(f"{lab}: every proposal of a list is reported as proposed", s.pc, "all" in loop.roles.get(al, ()))
                yield Obl(f"{lab}: exactly the taken proposals of a list are reported as taken", s.pc, "taken" in loop.roles.get(tk, ()))
                if dry and not heap_same(h0, s.heap):
                    yield Obl(f"{lab}: a dry run changes nothing", s.pc, False)
                for e in sink:
                    if isinstance(e, tuple):
                        _, pc, app, taken, kind = e
                        yield Obl(f"{lab}: alone, {kind}: reported as proposed", pc, al in app)
                        yield Obl(f"{lab}: alone, {kind}: reported as taken exactly if taken", pc, taken if tk in app else Not(taken))
            for e in sink:
                if not isinstance(e, tuple):
                    yield e
            for o in eng.obls:
                yield Obl(f"{lab}: {o.name}", o.hyps, o.goal)
            ctx.close(eng)
    return Unit("_take_action", gen, keys=[TAKE])


def units():
    return [take_unit(), hooked_unit()]
