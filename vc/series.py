"""The time series sample generator (P24).

Edges as in sample.py with a lag (at least one).  The data are described by their trace: the first value of every variable, then for every
step and every variable one appended sum; a sum is the bag of its summands (weighted earlier values and noise)."""
import z3
from .base import *
from .interp import *
from .verify import Obl, Unit
from .trace import *
from .load import GraphC, bad
from .sample import SG, NE, NV, SIZE, frm, to, weight, var, pos, is_var, RefO, EdgeO, EdgesV, VarsV, OutD, VecO, Ingoing
from .sample import variables_unit, ingoing_unit

lag = z3.Function("lag", I, I)
CLS = "TimeseriesSampleGenerator"
LMAX = z3.Const("longest_lag", I)


class TRef(RefO):
    def subst(self, pairs):
        return TRef(z3.substitute(self.i, *pairs), self.f)
    def attr(self, eng, st, a):
        if a == "point_in_time":
            return [(st, -lag(self.i) if self.f is frm else z3.IntVal(0))]
        return RefO.attr(self, eng, st, a)


class TEdge(EdgeO):
    def subst(self, pairs):
        return TEdge(z3.substitute(self.i, *pairs) if isz(self.i) else self.i)
    def attr(self, eng, st, a):
        if a in ("from_node", "to_node"):
            return [(st, TRef(self.i, frm if a == "from_node" else to))]
        return EdgeO.attr(self, eng, st, a)


class TEdges(EdgesV):
    def iter_segs(self, eng, st):
        i = z3.Const(fresh_name("i"), I)
        return [Seg([i], z3.And(i >= 0, i < NE), TEdge(i))]


class TIngoing(Ingoing):
    def apply(self, eng, st, b):
        x = eng.as_id(b["node"])
        i = z3.Const(fresh_name("e"), I)
        s = st.copy()
        return [(s, s.new(Cont("list", [Seg([i], z3.And(i >= 0, i < NE, to(i) == x), TEdge(i))])))]


def axioms():
    i, p = z3.Const("i", I), z3.Const("p", I)
    rng = z3.And(i >= 0, i < NE)
    return [NE >= 1, NV >= 0, SIZE >= 1,
            z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < NV), pos(var(p)) == p)),
            z3.ForAll([i], z3.Implies(rng, z3.And(is_var(frm(i)), is_var(to(i)), lag(i) >= 1)))]


def the_class(ctx, name):
    c = ctx.prog.mod(SG).classes.get(CLS)
    if c is None:
        raise Unsupported(f"{CLS} not found")
    fn = ctx.prog.method(c, name)
    if fn is None:
        raise Unsupported(f"{name} not found")
    return c, fn


# ---------------------------------------------------------------- data

class Summand:
    closed = True
    def iter_segs(self, eng, st):
        return [Seg((), True, self)]
    def is_none(self, eng, st):
        return False


class Earlier(Summand):
    """value of a variable at a step"""
    def __init__(self, k, i):
        self.k, self.i = k, i
    def subst(self, pairs):
        return Earlier(z3.substitute(self.k, *pairs), z3.substitute(self.i, *pairs))
    def bin(self, eng, st, op, o, swap):
        if op == "Mult" and is_num(o):
            return [(st, Weighted(toreal(o), self.k, self.i))]
        if op == "Add":
            return add(eng, st, self, o)
        raise Unsupported(f"operator {op} on a value")


class Weighted(Summand):
    def __init__(self, w, k, i):
        self.w, self.k, self.i = w, k, i
    def subst(self, pairs):
        f = lambda x: z3.substitute(x, *pairs)
        return Weighted(f(self.w), f(self.k), f(self.i))
    def bin(self, eng, st, op, o, swap):
        if op == "Add":
            return add(eng, st, self, o)
        raise Unsupported(f"operator {op} on a weighted value")


class Draw(Summand):
    def __init__(self, t):
        self.t = t
    def subst(self, pairs):
        return Draw(z3.substitute(self.t, *pairs))
    def bin(self, eng, st, op, o, swap):
        if op == "Add":
            return add(eng, st, self, o)
        raise Unsupported(f"operator {op} on noise")


def add(eng, st, a, o):
    if isinstance(o, Summand) or (isinstance(o, CRef) and st.store[o.oid].kind == "list"):
        s = st.copy()
        return [(s, s.new(Cont("list", eng.segs(a, s) + [Seg(g.bvs, g.guard, eng.freeze(g.elem, s)) for g in eng.segs(o, s)])))]
    raise Unsupported("sum")


class Series:
    """the list of the values of one variable"""
    closed = True
    def __init__(self, k):
        self.k = k
    def subst(self, pairs):
        return Series(z3.substitute(self.k, *pairs))
    def item(self, eng, st, i):
        return [(st, Earlier(self.k, z3.IntVal(i) if isinstance(i, int) else i))]
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def is_none(self, eng, st):
        return False
    def method(self, eng, st, name, args, kws):
        if name != "append" or len(args) != 1 or kws:
            raise Unsupported(f"list.{name}")
        s = st.copy()
        v = args[0]
        if isinstance(v, Summand):
            c = Cont("list", [Seg((), True, v)])
        elif isinstance(v, CRef) and s.store[v.oid].kind == "list":
            c = eng.freeze(v, s)
            # a sum is stored as it is now: not changed afterwards
            s.store[v.oid] = s.store[v.oid].copy()
            s.store[v.oid].frozen = True
        else:
            raise Mismatch("appended value")
        event(s, "append", x=self.k, val=c)
        return [(s, None)]


class Stacked:
    closed = True
    def __init__(self, k):
        self.k = k
    def subst(self, pairs):
        return Stacked(z3.substitute(self.k, *pairs))


class SeriesD:
    """variable -> list of its values"""
    closed = True
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def is_none(self, eng, st):
        return False
    def truth(self, eng, st):
        raise Unsupported("truth")
    def contains(self, eng, st, x):
        return is_var(eng.as_id(x))
    def iter_segs(self, eng, st):
        return VarsV().iter_segs(eng, st)
    def item(self, eng, st, k):
        return [(st, Series(eng.as_id(k)))]
    def method(self, eng, st, name, args, kws):
        if name not in ("items", "keys", "values") or args:
            raise Unsupported(f"dict.{name}")
        return [(st, Cont("list", [Seg(g.bvs, g.guard, {"items": (g.elem, Series(g.elem)), "keys": g.elem, "values": Series(g.elem)}[name]) for g in self.iter_segs(eng, st)]))]
    def set_item(self, eng, st, k, v):
        s = st.copy()
        k = eng.as_id(k)
        if isinstance(v, Stacked):
            event(s, "stack", x=k, of=v.k)
        else:
            event(s, "init", x=k, val=one_value(eng, s, v))
        return [(s, NORMAL)]


def one_value(eng, s, v):
    if not isinstance(v, (CRef, Cont)):
        raise Mismatch("first values")
    g = eng.segs(v, s)
    if len(g) != 1 or g[0].bvs or g[0].guard is not True or not isinstance(g[0].elem, Earlier):
        raise Mismatch("first values")
    return g[0].elem


class InitialC:
    """contract of _calculate_initial_values: a value for every variable (the first of its series)"""
    def apply(self, eng, st, b):
        return [(st, InitD())]


class InitD:
    closed = True
    def item(self, eng, st, k):
        k = eng.as_id(k)
        return eng.guarded(st, is_var(k), lambda s: Earlier(k, z3.IntVal(0)), "KeyError")
    def iter_segs(self, eng, st):
        return VarsV().iter_segs(eng, st)
    def contains(self, eng, st, x):
        return is_var(eng.as_id(x))
    def is_none(self, eng, st):
        return False
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name not in ("items", "keys", "values") or args:
            raise Unsupported(f"dict.{name}")
        v = lambda k: Earlier(k, z3.IntVal(0))
        return [(st, Cont("list", [Seg(g.bvs, g.guard, {"items": (g.elem, v(g.elem)), "keys": g.elem, "values": v(g.elem)}[name]) for g in self.iter_segs(eng, st)]))]


def data_unit():
    def gen(ctx):
        c, fn = the_class(ctx, "_generate_data")
        eng = TraceEngine(ctx, fn.key)
        eng.contracts[ctx.prog.mod(SG).classes["AbstractSampleGenerator"].methods["_get_edges_for_node_to"].key] = TIngoing()
        eng.contracts[the_class(ctx, "_calculate_initial_values")[1].key] = InitialC()
        first = []

        def new_dict(e, st):
            s = st.copy()
            if not first:
                first.append(1)
                return [(s, SeriesD())]
            return [(s, s.new(Cont("dict")))]

        def dict_comp(e, st, ref):
            d = st.store[ref.oid]
            if not first and len(d.segs) == 1 and isinstance(d.segs[0].elem[1], Cont) and d.segs[0].elem[1].kind == "list":
                first.append(1)
                g = d.segs[0]
                s = st.copy()
                s.store[TR].segs.append(Seg(g.bvs, g.guard, RecV("event", {"kind": "init", "x": e.as_id(g.elem[0]), "val": one_value(e, s, g.elem[1])})))
                return s, SeriesD()
            return st, ref
        eng.dict_hook, eng.dict_comp_hook = new_dict, dict_comp

        def tensor(e, st, a, k):
            d = k.get("dtype")
            if len(a) != 1 or not isinstance(d, ExtV) or d.name not in ("torch.float64", "torch.double") or isinstance(a[0], bool) or not isinstance(a[0], (int, float)) or a[0] != 0:
                raise Mismatch("start of a sum")
            s = st.copy()
            return [(s, s.new(Cont("list")))]
        eng.externals["torch.tensor"] = tensor

        def stack(e, st, a, k):
            if len(a) != 1 or k or not isinstance(a[0], Series):
                raise Mismatch("stack")
            return [(st, Stacked(a[0].k))]
        eng.externals["torch.stack"] = stack

        class Rand:
            closed = True
            def call(self, e, st, a, k):
                s = st.copy()
                return [(s, Draw(skolem(s, "draw", R)))]
        me = ObjV("self", c, {"_edges": TEdges(), "_variables": VarsV(), "random_fn": Rand(), "_longest_lag": LMAX})
        st = start(ctx)
        st.pc += axioms()
        ctx.vacuity.append(("edges", list(st.pc)))
        m = Match(eng, "_generate_data")
        for s, v in eng.call_fn(FuncV(fn, me), [SIZE], {}, st):
            if isinstance(v, Raised):
                m.ob(f"never raises {v.exc}", s.pc, False)
                continue
            check_data(m, eng, s, v)
        yield from m.out
        ctx.close(eng)
    return Unit("Timeseries._generate_data", gen, keys=[f"{SG}:{CLS}._generate_data"])


def check_data(m, eng, s, v):
    from .wspace import flat
    from .vars import flat_segs
    evs = flat(s.store[TR].segs)
    kinds = [g.elem.fields["kind"] for g in evs]
    if kinds[:2] != ["init", "append"] or len(kinds) > 3 or set(kinds[2:]) - {"stack"}:
        raise Mismatch("trace: first values, then the steps")
    init, app = evs[:2]
    # first values
    if len(init.bvs) != 1 or init.bvs[0].sort() != I:
        raise Mismatch("first values")
    p = init.bvs[0]
    m.ob("every variable gets a first value", s.pc, ForAll([p], Iff(init.guard, z3.And(p >= 0, p < NV))))
    f = init.elem.fields
    m.ob("the first value is the initial value of the variable itself", s.pc + [tob(init.guard)], And(f["x"] == var(p), f["val"].k == var(p)))
    # steps
    if len(app.bvs) != 2 or any(b.sort() != I for b in app.bvs):
        raise Mismatch("steps")
    t, p = app.bvs
    f = app.elem.fields
    inr = z3.And(t >= 1, t < SIZE, p >= 0, p < NV)
    m.ob("one value per step and variable, step after step", s.pc, ForAll([t, p], Iff(app.guard, inr)))
    pc = s.pc + [inr]
    m.ob("the value is appended to the variable itself", pc, f["x"] == var(p))
    draws, lins = [], []
    for g in flat_segs(f["val"].segs):
        if isinstance(g.elem, Draw):
            draws.append(g)
        elif isinstance(g.elem, Weighted):
            lins.append(g)
        elif isinstance(g.elem, Earlier):
            lins.append(Seg(g.bvs, g.guard, Weighted(z3.RealVal(1), g.elem.k, g.elem.i)))
        else:
            raise Mismatch("summand")
    if len(draws) > 1 or any(g.bvs for g in draws):
        raise Mismatch("noise")
    m.ob("one noise value is added", pc, Or(*[tob(g.guard) for g in draws]))
    if draws:
        d = draws[0].elem.t
        m.ob("every noise value is a draw of its own", s.pc, bool(all(any(a.eq(b) for a in d.children()) for b in (t, p))))
    e = z3.Const("$e", I)
    cover = []
    for g in lins:
        if len(g.bvs) != 1 or g.bvs[0].sort() != I:
            raise Mismatch("causes")
        b, x = g.bvs[0], g.elem
        gp = pc + [tob(g.guard)]
        m.ob("only edges into the variable add to it", gp, z3.And(b >= 0, b < NE, to(b) == var(p)))
        m.ob("what is added is the weight of the edge times its cause", gp, And(x.w == weight(b), x.k == frm(b)))
        m.ob("the cause is taken lag steps earlier (its first value before the start)", gp, x.i == z3.If(t - lag(b) < 0, z3.IntVal(0), t - lag(b)))
        cover.append(z3.substitute(tob(g.guard), (b, e)))
    ine = z3.And(e >= 0, e < NE, to(e) == var(p))
    m.ob("every edge into the variable adds", pc, Implies(ine, Or(*cover)))
    for i in range(len(cover)):
        for j in range(i):
            m.ob("an edge adds once", pc + [ine], Not(And(cover[i], cover[j])))
    # result
    x = z3.Const("$x", Id)
    if isinstance(v, SeriesD):
        if kinds[2:] != ["stack"]:
            raise Mismatch("series are not stacked")
        st_ = evs[2]
        sf = st_.elem.fields
        m.ob("every series is returned whole under its own name", s.pc + [tob(st_.guard)], sf["x"] == sf["of"])
        m.ob("every series is returned", s.pc, Implies(is_var(x), Exists(st_.bvs, And(st_.guard, sf["x"] == x))))
    elif isinstance(v, CRef) and s.store[v.oid].kind == "dict" and len(kinds) == 2:
        segs = s.store[v.oid].segs
        if len(segs) != 1 or not isinstance(segs[0].elem[1], Stacked):
            raise Mismatch("value returned")
        g = segs[0]
        m.ob("every series is returned whole under its own name", s.pc + [tob(g.guard)], eng.as_id(g.elem[0]) == g.elem[1].k)
        m.ob("every series is returned", s.pc, Implies(is_var(x), Exists(g.bvs, And(g.guard, eng.as_id(g.elem[0]) == x))))
    else:
        raise Mismatch("value returned")


# ---------------------------------------------------------------- the unrolled graph

class TimeName:
    """f"{variable}-t{step}" / f"{variable} - t{step}" """
    closed = True
    def __init__(self, kind, k, t):
        self.kind, self.k, self.t = kind, k, t
    def subst(self, pairs):
        return TimeName(self.kind, z3.substitute(self.k, *pairs), z3.substitute(self.t, *pairs))
    def is_none(self, eng, st):
        return False


def fstring(eng, st, parts):
    if len(parts) == 3 and parts[1] in ("-t", " - t") and eng.can_id(parts[0]) and (isinstance(parts[2], int) or (isz(parts[2]) and parts[2].sort() == I)):
        t = parts[2]
        return TimeName(parts[1], eng.as_id(parts[0]), z3.IntVal(t) if isinstance(t, int) else t)
    return StrV()


class TNode:
    closed = True
    def __init__(self, k, t):
        self.k, self.t = k, t
    def subst(self, pairs):
        return TNode(z3.substitute(self.k, *pairs), z3.substitute(self.t, *pairs))


class TNodes:
    closed = True
    def item(self, eng, st, k):
        if not isinstance(k, TimeName) or k.kind != "-t":
            raise Unsupported("node by another id")
        return eng.guarded(st, z3.And(is_var(k.k), k.t >= 0, k.t < SIZE), lambda s: TNode(k.k, k.t), "KeyError")
    def contains(self, eng, st, k):
        if not isinstance(k, TimeName) or k.kind != "-t":
            raise Unsupported("node by another id")
        return z3.And(is_var(k.k), k.t >= 0, k.t < SIZE)
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]


class TGraph(GraphC):
    def attr(self, eng, st, a):
        if a == "nodes":
            return [(st, TNodes())]
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name == "node_by_id" and len(args) == 1:
            return TNodes().item(eng, st, args[0])
        if name == "add_directed_edge":
            b = bind_args(["u", "v", "metadata", "edge_type"], args, kws, name)
            s = st.copy()
            event(s, "edge", u=b["u"], v=b["v"], type=b.get("edge_type", ET_DIRECTED))
            return [(s, None)]
        return GraphC.method(self, eng, st, name, args, kws)


class DataC:
    def apply(self, eng, st, b):
        s = st.copy()
        event(s, "data", size=b.get("size"))
        return [(s, OutD())]


def generate_unit():
    def gen(ctx):
        c, fn = the_class(ctx, "generate")
        eng = TraceEngine(ctx, fn.key)
        eng.fstring = fstring
        eng.contracts[the_class(ctx, "_generate_data")[1].key] = DataC()
        eng.externals["builtins.sorted"] = lambda e, s, a, k: bad("sorted")

        def new(e, st, a, k):
            if a or k:
                raise Mismatch("arguments of the graph")
            s = st.copy()
            event(s, "graph", graph="graph")
            return [(s, TGraph("graph"))]
        eng.externals["new:GraphManager"] = new
        me = ObjV("self", c, {"_edges": TEdges(), "_variables": VarsV(), "random_fn": SV(z3.Const("self.random_fn", Obj)), "_longest_lag": LMAX})
        st = start(ctx)
        st.pc += axioms()
        m = Match(eng, "generate")
        for s, v in eng.call_fn(FuncV(fn, me), [SIZE], {}, st):
            if isinstance(v, Raised):
                m.ob(f"never raises {v.exc}", s.pc, False)
                continue
            if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], OutD) and isinstance(v[1], TGraph)):
                raise Mismatch("value returned")
            check_graph(m, eng, s)
        yield from m.out
        ctx.close(eng)
    return Unit("Timeseries.generate", gen, keys=[f"{SG}:{CLS}.generate"])


def check_graph(m, eng, s):
    from .wspace import flat
    evs = flat(s.store[TR].segs)
    kinds = [g.elem.fields["kind"] for g in evs]
    if kinds.count("graph") != 1 or kinds.count("data") != 1 or set(kinds) - {"graph", "data", "node", "edge"} or kinds.count("node") != 1:
        raise Mismatch("trace of generate")
    if "edge" in kinds and kinds.index("edge") < kinds.index("node"):
        raise Mismatch("edges before nodes")
    for g in evs:
        if g.elem.fields["kind"] == "data":
            m.ob("as many steps as asked for", s.pc, And(g.guard, m.eng.eqv(g.elem.fields["size"], SIZE, s)))
    x, t = z3.Const("$x", Id), z3.Const("$t", I)
    g = [g for g in evs if g.elem.fields["kind"] == "node"][0]
    f = g.elem.fields
    i, n, v = f["id"], f["name"], f["values"]
    if not isinstance(i, TimeName) or i.kind != "-t" or not isinstance(n, TimeName) or n.kind != " - t" or not isinstance(v, Cont) or v.kind != "list":
        raise Mismatch("node")
    vs = v.segs
    if len(vs) != 1 or vs[0].bvs or vs[0].guard is not True or not isinstance(vs[0].elem, SV):
        raise Mismatch("values of a node")
    pc = s.pc + [tob(g.guard)]
    m.ob("only steps of variables become nodes", pc, And(is_var(i.k), i.t >= 0, i.t < SIZE))
    m.ob("a node is named after its variable and step", pc, And(n.k == i.k, n.t == i.t))
    m.ob("a node carries the value of its variable at its step", pc, vs[0].elem.t == OutD.at(i.k, i.t))
    h = rename_seg(g)
    j = h.elem.fields["id"]
    m.ob("one node per variable and step", pc + [tob(h.guard), i.k == j.k, i.t == j.t], And(*[a == b for a, b in zip(g.bvs, h.bvs)]))
    m.ob("every step of every variable becomes a node", s.pc, Implies(And(is_var(x), t >= 0, t < SIZE), Exists(g.bvs, And(g.guard, i.k == x, i.t == t))))
    edges = [g for g in evs if g.elem.fields["kind"] == "edge"]
    e = z3.Const("$e", I)
    cover = []
    for g in edges:
        f = g.elem.fields
        u, v = f["u"], f["v"]
        if not isinstance(u, TNode) or not isinstance(v, TNode) or not (isz(f["type"]) and f["type"].sort() == EType):
            raise Mismatch("edge")
        pc = s.pc + [tob(g.guard)]
        q = z3.Const("$f", I)
        m.ob("only the given edges are added, from the cause lag steps earlier to the effect", pc,
             And(z3.Exists([q], z3.And(q >= 0, q < NE, frm(q) == u.k, to(q) == v.k, u.t == v.t - lag(q))), u.t >= 0, v.t < SIZE))
        m.ob("edges are directed", pc, f["type"] == ET_DIRECTED)
        cover.append(Exists(g.bvs, And(g.guard, u.k == frm(e), v.k == to(e), v.t == t, u.t == t - lag(e))))
    m.ob("every given edge is added at every step it fits", s.pc, Implies(z3.And(e >= 0, e < NE, t >= lag(e), t < SIZE), Or(*cover)))


def p24_units():
    from .initial import initial_units
    return [variables_unit(), ingoing_unit(), data_unit(), generate_unit()] + initial_units()
