"""Contracts of the orientation rules (P10, P11): exact proposals for every graph, pair, history and pending list."""
import z3
from .base import *
from .interp import *
from .graphspec import View
from .verify import Obl, Unit
from .gcontracts import G, MIX, QUERIES, heap_same

PC = "causy/causal_discovery/constraint/orientation_rules/pc.py"
FCI = "causy/causal_discovery/constraint/orientation_rules/fci.py"

res_action = z3.Function("res_action", Obj, Obj)
res_u = z3.Function("res_u", Obj, Id)
res_v = z3.Function("res_v", Obj, Id)
res_has = z3.Function("res_has_separatedBy", Obj, B)
res_sep = z3.Function("res_separatedBy", Obj, Id, B)
hist_mem = z3.Function("hist_mem", Hist, Obj, B)
ACTIONS = ["UPDATE_EDGE", "UPDATE_EDGE_DIRECTED", "UPDATE_EDGE_TYPE", "UPDATE_EDGE_TYPE_DIRECTED", "REMOVE_EDGE_UNDIRECTED",
           "REMOVE_EDGE_DIRECTED", "RESTORE_EDGE", "RESTORE_EDGE_DIRECTED", "DO_NOTHING"]


def act(n):
    return z3.Const(f"enum:TestResultAction.{n}", Obj)


ACT_DISTINCT = z3.Distinct(*[act(a) for a in ACTIONS])


class ResV:
    """a TestResult given by a term"""
    def __init__(self, t):
        self.t = t
    def subst(self, pairs):
        return type(self)(z3.substitute(self.t, *pairs))
    def attr(self, eng, st, a):
        if a == "action":
            return [(st, res_action(self.t))]
        if a in ("u", "v"):
            return [(st, NodeV((res_u if a == "u" else res_v)(self.t)))]
        if a == "data":
            return [(st, DataV(self.t))]
        raise Unsupported(f"result attribute {a}")
    def term_obj(self, eng, st):
        return self.t
    def truth(self, eng, st):
        return True
    def is_none(self, eng, st):
        return False


class DataV:
    """the data of a recorded result"""
    def __init__(self, t):
        self.t = t
    def subst(self, pairs):
        return type(self)(z3.substitute(self.t, *pairs))
    def contains(self, eng, st, x):
        if x != "separatedBy":
            raise Unsupported(f"key {x!r} of result data")
        eng.assumed.add("recorded edge removals carry a data dictionary (not None)")
        return res_has(self.t)
    def item(self, eng, st, k):
        if k != "separatedBy":
            raise Unsupported(f"key {k!r} of result data")
        return eng.guarded(st, res_has(self.t), lambda s: SepV(self.t), "KeyError")
    def method(self, eng, st, name, args, kws):
        if name == "get" and args and args[0] == "separatedBy":
            a, b = eng.split(st, res_has(self.t))
            out = [(a, SepV(self.t))] if a is not None else []
            return out + ([(b, args[1] if len(args) > 1 else None)] if b is not None else [])
        raise Unsupported(f"result data .{name}")
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def truth(self, eng, st):
        raise Unsupported("truth of result data")
    def is_none(self, eng, st):
        return False


class SepV:
    def __init__(self, t):
        self.t = t
    def subst(self, pairs):
        return type(self)(z3.substitute(self.t, *pairs))
    def iter_segs(self, eng, st):
        x = z3.Const(fresh_name("sep"), Id)
        return [Seg([x], res_sep(self.t, x), NodeV(x))]
    def truth(self, eng, st):
        return eng.nonempty(self.iter_segs(eng, st))
    def contains(self, eng, st, x):
        return res_sep(self.t, x.id) if isinstance(x, NodeV) else False


class Pending:
    """the list of result sets proposed but not applied so far: Optional[list of results] each"""
    inb = z3.Function("in_batch", Obj, Obj, B)
    isn = z3.Function("batch_is_none", Obj, B)
    listed = z3.Function("pending_batch", Obj, B)
    closed = True
    def iter_segs(self, eng, st):
        b = z3.Const(fresh_name("batch"), Obj)
        return [Seg([b], self.listed(b), Batch(b))]
    def is_none(self, eng, st):
        return False
    def truth(self, eng, st):
        return eng.nonempty(self.iter_segs(eng, st))
    @classmethod
    def has(cls, r):
        b = z3.Const(fresh_name("batch"), Obj)
        return z3.Exists([b], z3.And(cls.listed(b), z3.Not(cls.isn(b)), cls.inb(b, r)))


class Batch:
    def __init__(self, b):
        self.b = b
    def subst(self, pairs):
        return Batch(z3.substitute(self.b, *pairs))
    def is_none(self, eng, st):
        return Pending.isn(self.b)
    def truth(self, eng, st):
        r = z3.Const(fresh_name("r"), Obj)
        return And(Not(Pending.isn(self.b)), z3.Exists([r], Pending.inb(self.b, r)))
    def iter_segs(self, eng, st):
        a, n = eng.split(st, Pending.isn(self.b))
        if a is not None:
            raise Unsupported("iteration over a result set that may be None")
        r = z3.Const(fresh_name("r"), Obj)
        return [Seg([r], Pending.inb(self.b, r), ResV(r))]


class HistQuery:
    """contract of retrieve_edge_history(u, v, action)"""
    def apply(self, eng, st, bound):
        from .gcontracts import toid
        u, v, a = toid(bound["u"]), toid(bound["v"]), bound.get("action")
        if not isinstance(a, EnumC):
            return None
        V = View(st.heap)
        r = z3.Const(fresh_name("h"), Obj)
        s = st.copy()
        return [(s, s.new(Cont("list", [Seg([r], And(V.hist(u, v), hist_mem(V.hlist(u, v), r), res_action(r) == a.term()), ResV(r))])))]


HQ = f"{G}:{MIX}retrieve_edge_history"


class HistListV:
    pass


def hist_unit():
    """the contract of retrieve_edge_history is met by its body"""
    def gen(ctx):
        from .gcontracts import find, coll_post
        fn = find(ctx.prog, HQ)
        for kind in ("id", "node"):
            for rk in (GraphV, ManagerV):
                eng = ctx.engine(QUERIES, fn.key)
                st = ctx.start(eng)
                st.pc.append(ACT_DISTINCT)
                u, v = z3.Consts("u v", Id)
                a = EnumC("TestResultAction", "REMOVE_EDGE_UNDIRECTED")
                args = [NodeV(u), NodeV(v)] if kind == "node" else [u, v]
                V = View(st.heap)
                for s, r in eng.call_fn(FuncV(fn, rk()), args + [a], {}, st):
                    lab = f"retrieve_edge_history on {rk.kind} called with {kind}"
                    if isinstance(r, Raised):
                        yield Obl(f"{lab}: never raises {r.exc}", s.pc, False)
                        continue
                    x = z3.Const(fresh_name("x"), Obj)
                    want = And(V.hist(u, v), hist_mem(V.hlist(u, v), x), res_action(x) == a.term())
                    got = Or(*[Exists(g.bvs, And(g.guard, g.elem.t == x)) for g in eng.segs(r, s)])
                    yield Obl(f"{lab}: exactly the entries of this pair with this action", s.pc, z3.ForAll([x], tob(Iff(got, want))))
                ctx.close(eng)
    return Unit("retrieve_edge_history", gen, keys=[HQ])


def step_contracts():
    return {**QUERIES, HQ: HistQuery()}


def results(eng, s, v):
    """normal form of the value returned by process(): segments of (action, u, v, rec)"""
    if v is None:
        return []
    if isinstance(v, RecV):
        sg = [Seg((), True, v)]
    else:
        sg = eng.segs(v, s)
    out = []
    for g in sg:
        r = g.elem
        if r is None:
            continue
        if not isinstance(r, RecV) or r.cls != "TestResult":
            raise Unsupported(f"result {r!r}")
        a, u, w = r.fields.get("action"), r.fields.get("u"), r.fields.get("v")
        if not (isinstance(a, EnumC) and isinstance(u, NodeV) and isinstance(w, NodeV)):
            raise Unsupported("result fields")
        out.append((Seg(g.bvs, g.guard, None), a.name, u.id, w.id, r))
    return out


def rule_unit(rel, cls, spec, attrs=None, variants=(("", {}),), extra=None, pre=None, name=None):
    def gen(ctx):
        c = ctx.prog.mod(rel).classes.get(cls)
        if c is None:
            raise Unsupported(f"class {cls} not found")
        fn = ctx.prog.method(c, "process")
        for vl, va in variants:
            eng = ctx.engine(step_contracts(), fn.key)
            st = ctx.start(eng)
            st.pc.append(ACT_DISTINCT)
            x, y = z3.Consts("x y", Id)
            V = View(st.heap)
            st.pc += [tob(V.node(x)), tob(V.node(y)), x != y]
            if pre:
                st.pc += pre(vl)
            h0 = dict(st.heap)
            args = [(x, y), GraphV()] + (extra() if extra else [])
            lab = f"{cls}{' ' + vl if vl else ''}"
            for s, v in eng.call_fn(FuncV(fn, ObjV("step", c, dict(va))), args, {}, st):
                if isinstance(v, Raised):
                    yield Obl(f"{lab}: never raises {v.exc}", s.pc, False)
                    continue
                if not heap_same(h0, s.heap):
                    for k in HEAP:
                        if not h0[k].eq(s.heap[k]):
                            yield Obl(f"{lab}: deciding does not change {k}", s.pc, h0[k] == s.heap[k])
                for n, pc, goal in spec(V, x, y, results(eng, s, v), vl):
                    yield Obl(f"{lab}: {n}", s.pc + pc, goal)
            for o in eng.obls:
                yield Obl(f"{lab}: {o.name}", o.hyps, o.goal)
            ctx.close(eng)
    return Unit(name or cls, gen, keys=[f"{rel}:{cls}.process"])


def ids(*ns):
    return [z3.Const(fresh_name(n), Id) for n in ns]


# -------------------------------------------------------------- Meek rules
# premise of rule k for the pair (x, y): orientation a -> b of the undirected edge a - b is warranted

def prem1(V, x, y, a, b):
    """c -> a - b, c and b not adjacent; the pair is {c, b}"""
    f = lambda c, b2: And(b2 == b, V.only(c, a), V.und(a, b), Not(V.adj(c, b)))
    return Or(f(x, y), f(y, x))


def conf1(V, a, b):
    d, = ids("d")
    return z3.Exists([d], tob(And(V.only(d, b), Not(V.adj(d, a)), d != a)))


def prem2(V, x, y, a, b):
    c, = ids("c")
    return And(Or(And(a == x, b == y), And(a == y, b == x)), V.und(a, b), z3.Exists([c], tob(And(V.only(a, c), V.only(c, b)))))


def prem3(V, x, y, a, b):
    return And(V.und(a, b), V.und(a, x), V.und(a, y), V.only(x, b), V.only(y, b), Not(V.adj(x, y)))


def prem4(V, x, y, a, b):
    """a - c -> d -> b, a - d, c and b not adjacent; the pair is {a, d}"""
    c, = ids("c")
    f = lambda d: And(V.und(a, b), V.und(a, d), V.only(d, b), z3.Exists([c], tob(And(V.und(a, c), V.only(c, d), Not(V.adj(c, b))))))
    return Or(And(a == x, f(y)), And(a == y, f(x)))


def meek_spec(prem, conf=None):
    def spec(V, x, y, res, vl):
        a0, b0 = ids("a", "b")
        for g, n, u, v, r in res:
            g2 = g
            a, b = v, u                      # removing u -> v orients v -> u
            if n == "REMOVE_EDGE_DIRECTED":
                yield "orients undirected edges only", [g.guard], V.und(a, b)
                yield "orients only what the premise warrants", [g.guard], prem(V, x, y, a, b)
                if conf:
                    yield "an orientation creates no new unshielded collider", [g.guard], Not(conf(V, a, b))
            elif n == "DO_NOTHING" and conf:
                yield "a conflict is reported only where the rule applies", [g.guard], prem(V, x, y, a, b)
                yield "a conflict is reported only if there is one", [g.guard], conf(V, a, b)
            else:
                yield f"proposes orientations only (not {n})", [g.guard], False
        some = Or(*[Exists(g.bvs, g.guard) for g, *_ in res])
        yield "the rule proposes something whenever its premise holds", [prem(V, x, y, a0, b0)], some
    return spec


# -------------------------------------------------------------- collider rules

def sepd(V, x, y, z):
    r = z3.Const(fresh_name("rec"), Obj)
    return z3.Exists([r], tob(And(V.hist(x, y), hist_mem(V.hlist(x, y), r), res_action(r) == act("REMOVE_EDGE_UNDIRECTED"), res_has(r), res_sep(r, z))))


def cand(V, x, y, z):
    return And(Not(V.adj(x, y)), V.live(x, z), V.live(y, z), Not(sepd(V, x, y, z)))


def pend(u, v, kind="REMOVE_EDGE_DIRECTED"):
    r = z3.Const(fresh_name("pr"), Obj)
    return z3.Exists([r], tob(And(Pending.has(r), res_action(r) == act(kind), res_u(r) == u, res_v(r) == v)))


def exact(res, kind, want, what, once=True, both=True):
    """proposals of this kind are exactly those wanted: want(u, v)"""
    mine = [(rename_res(t)) for t in res if t[1] == kind]
    for g, n, u, v, r in mine:
        yield f"{what}: only where warranted", [g.guard], want(u, v)
    u0, v0 = ids("u", "v")
    yield f"{what}: always where warranted", [want(u0, v0)], Or(*[Exists(g.bvs, And(g.guard, u == u0, v == v0)) for g, n, u, v, r in mine])
    if once:
        for i, t in enumerate(mine):
            for j, t2 in enumerate(mine):
                if j < i:
                    continue
                (g, _, u, v, _), (h, _, u2, v2, _) = rename_res(t), rename_res(t2)
                same = And(g.guard, h.guard, u == u2, v == v2)
                if i == j:
                    if g.bvs:
                        yield f"{what}: proposed once", [], Implies(same, And(*[p == q for p, q in zip(g.bvs, h.bvs)]))
                else:
                    yield f"{what}: proposed once", [], Not(same)


def rename_res(t):
    g, n, u, v, r = t
    s = rename_seg(Seg(g.bvs, g.guard, (u, v)))
    return (Seg(s.bvs, s.guard, None), n, s.elem[0], s.elem[1], r)


def collider_spec(V, x, y, res, strat):
    keep_first = strat.startswith("KEEP_FIRST")
    other = lambda w: z3.If(w == x, y, x)

    def conflict(z):
        return Or(pend(x, z), pend(y, z))

    def rem(u, v):          # remove z -> v: orients v -> z
        ok = And(Or(v == x, v == y), cand(V, x, y, u))
        return And(ok, Not(conflict(u))) if keep_first else ok

    def rep(u, v):
        return And(Or(v == x, v == y), cand(V, x, y, u), pend(v, u)) if keep_first else False

    def resto(u, v):
        return False if keep_first else And(Or(u == x, u == y), cand(V, x, y, v), pend(u, v))
    for t in res:
        if t[1] not in ("REMOVE_EDGE_DIRECTED", "DO_NOTHING", "RESTORE_EDGE_DIRECTED"):
            yield f"nothing else is proposed ({t[1]})", [t[0].guard], False
        if t[1] == "DO_NOTHING":
            d = t[4].fields.get("data")
            ok = isinstance(d, Cont) and any(g.elem[0] == "orientation_conflict" and g.elem[1] is True for g in d.segs)
            yield "conflicts are marked as orientation conflicts", [t[0].guard], bool(ok)
    yield from exact(res, "REMOVE_EDGE_DIRECTED", rem, "orientation of the collider")
    yield from exact(res, "DO_NOTHING", rep, "conflict report", once=False)
    yield from exact(res, "RESTORE_EDGE_DIRECTED", resto, "restoring the edges removed earlier", once=False)


def pending_pre(vl):
    r = z3.Const("pre_r", Obj)
    kinds = ["REMOVE_EDGE_DIRECTED", "DO_NOTHING"] + ([] if vl.startswith("KEEP_FIRST") else ["RESTORE_EDGE_DIRECTED"])
    return [z3.ForAll([r], z3.Implies(Pending.has(r), z3.Or(*[res_action(r) == act(k) for k in kinds])))]


def fci_spec(V, x, y, res, vl):
    def upd(u, v):
        return And(Or(u == x, u == y), cand(V, x, y, v))
    for t in res:
        if t[1] != "UPDATE_EDGE_DIRECTED":
            yield f"nothing else is proposed ({t[1]})", [t[0].guard], False
    yield from exact(res, "UPDATE_EDGE_DIRECTED", upd, "orientation of the collider")


STRATS = [("KEEP_FIRST", {"conflict_resolution_strategy": EnumC("ColliderTestConflictResolutionStrategies", "KEEP_FIRST")}),
          ("KEEP_LAST", {"conflict_resolution_strategy": EnumC("ColliderTestConflictResolutionStrategies", "KEEP_LAST")})]


def p10_units():
    return [rule_unit(PC, "ColliderTest", collider_spec, variants=STRATS, extra=lambda: [Pending()], pre=pending_pre),
            rule_unit(FCI, "ColliderRuleFCI", fci_spec), hist_unit()]


def p11_units():
    return [rule_unit(PC, "NonColliderTest", meek_spec(prem1, conf1)),
            rule_unit(PC, "FurtherOrientTripleTest", meek_spec(prem2)),
            rule_unit(PC, "OrientQuadrupleTest", meek_spec(prem3)),
            rule_unit(PC, "FurtherOrientQuadrupleTest", meek_spec(prem4))]
