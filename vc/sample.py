"""The i.i.d. sample generator (P21).

Edges are a finite list: frm(i), to(i), weight(i) for 0 <= i < n.  The topological sort is verified by a step contract of its loop
(each round moves one variable whose causes were all moved before), the generation by its trace (noise first, then one weighted addition
per edge, in the order of the variables)."""
import z3
from .base import *
from .interp import *
from .verify import Obl, Unit
from .trace import *
from .load import GraphC, m_sorted, bad

SG = "causy/sample_generator.py"
NE = z3.Const("number_of_edges", I)
frm, to = z3.Function("from_node", I, Id), z3.Function("to_node", I, Id)
weight = z3.Function("weight", I, R)
var, NV = z3.Function("variable", I, Id), z3.Const("number_of_variables", I)
pos = z3.Function("position", Id, I)
SIZE = z3.Const("size", I)


class RefO(SV):
    """node reference of an edge"""
    def __init__(self, i, f):
        self.i, self.f = i, f
    def subst(self, pairs):
        return RefO(z3.substitute(self.i, *pairs), self.f)
    def attr(self, eng, st, a):
        if a == "node":
            return [(st, self.f(self.i))]
        raise Unsupported(f"node reference .{a}")


class EdgeO(SV):
    def __init__(self, i):
        self.i = i
    def subst(self, pairs):
        return EdgeO(z3.substitute(self.i, *pairs) if isz(self.i) else self.i)
    def attr(self, eng, st, a):
        if a == "from_node":
            return [(st, RefO(self.i, frm))]
        if a == "to_node":
            return [(st, RefO(self.i, to))]
        if a == "value":
            return [(st, weight(self.i))]
        raise Unsupported(f"edge .{a}")
    def eq_to(self, eng, st, o):
        raise Unsupported("equality of edges")
    def truth(self, eng, st):
        return True


class EdgesV:
    closed = True
    def iter_segs(self, eng, st):
        i = z3.Const(fresh_name("i"), I)
        return [Seg([i], z3.And(i >= 0, i < NE), EdgeO(i))]
    def truth(self, eng, st):
        return NE > 0
    def length(self, eng, st):
        return [(st, NE)]
    def is_none(self, eng, st):
        return False


class VarsV:
    """the variables in topological order"""
    closed = True
    def iter_segs(self, eng, st):
        p = z3.Const(fresh_name("p"), I)
        return [Seg([p], z3.And(p >= 0, p < NV), var(p))]
    def contains(self, eng, st, x):
        x = eng.as_id(x)
        return is_var(x)
    def truth(self, eng, st):
        return NV > 0
    def length(self, eng, st):
        return [(st, NV)]


def is_var(x):
    return z3.And(pos(x) >= 0, pos(x) < NV, var(pos(x)) == x)


def order_axioms():
    """the variables are those of the edges, each once, causes first (contract of topologic_sort and __init__)"""
    i, p, x = z3.Const("i", I), z3.Const("p", I), z3.Const("x", Id)
    rng = z3.And(i >= 0, i < NE)
    return [NE >= 0, NV >= 0, SIZE >= 1,
            z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < NV), pos(var(p)) == p)),
            z3.ForAll([i], z3.Implies(rng, z3.And(is_var(frm(i)), is_var(to(i)), pos(frm(i)) < pos(to(i)))))]


def gen_class(ctx, name):
    for cn in ("IIDSampleGenerator", "AbstractSampleGenerator"):
        c = ctx.prog.mod(SG).classes.get(cn)
        if c is not None and name in c.methods:
            return ctx.prog.mod(SG).classes["IIDSampleGenerator"], c.methods[name]
    raise Unsupported(f"{name} not found")


def variables_unit():
    def gen(ctx):
        c, fn = gen_class(ctx, "_find_variables_in_edges")
        eng = TraceEngine(ctx, fn.key)
        me = ObjV("self", c, {"_edges": EdgesV()})
        st = start(ctx)
        st.pc += [NE >= 0]
        x = z3.Const("$x", Id)
        i = z3.Const("$i", I)
        m = Match(eng, "_find_variables_in_edges")
        for s, v in eng.call_fn(FuncV(fn, me), [], {}, st):
            if isinstance(v, Raised):
                m.ob(f"never raises {v.exc}", s.pc, False)
                continue
            want = z3.Exists([i], z3.And(i >= 0, i < NE, z3.Or(frm(i) == x, to(i) == x)))
            m.ob("the variables are exactly the nodes of the edges", s.pc, Iff(eng.member(x, v, s), want))
            if isinstance(v, CRef) and s.store[v.oid].kind != "set":
                raise Mismatch("variables that may repeat")
        yield from m.out
        ctx.close(eng)
    return Unit("_find_variables_in_edges", gen, keys=[f"{SG}:AbstractSampleGenerator._find_variables_in_edges"])


def ingoing_unit():
    def gen(ctx):
        c, fn = gen_class(ctx, "_get_edges_for_node_to")
        eng = TraceEngine(ctx, fn.key)
        me = ObjV("self", c, {"_edges": EdgesV()})
        st = start(ctx)
        st.pc += [NE >= 0]
        x = z3.Const("$x", Id)
        m = Match(eng, "_get_edges_for_node_to")
        for s, v in eng.call_fn(FuncV(fn, me), [x], {}, st):
            if isinstance(v, Raised):
                m.ob(f"never raises {v.exc}", s.pc, False)
                continue
            got = eng.segs(v, s)
            if len(got) != 1 or len(got[0].bvs) != 1 or not isinstance(got[0].elem, EdgeO) or not got[0].elem.i.eq(got[0].bvs[0]):
                raise Mismatch("edges into a node")
            i = got[0].bvs[0]
            m.ob("exactly the edges into the node, each once", s.pc, ForAll([i], Iff(got[0].guard, z3.And(i >= 0, i < NE, to(i) == x))))
        yield from m.out
        ctx.close(eng)
    return Unit("_get_edges_for_node_to", gen, keys=[f"{SG}:AbstractSampleGenerator._get_edges_for_node_to"])


class Ingoing:
    """contract of _get_edges_for_node_to"""
    def apply(self, eng, st, b):
        x = eng.as_id(b["node"])
        i = z3.Const(fresh_name("e"), I)
        s = st.copy()
        return [(s, s.new(Cont("list", [Seg([i], z3.And(i >= 0, i < NE, to(i) == x), EdgeO(i))])))]


# ---------------------------------------------------------------- topological sort

class Pool:
    """a set of variables held in a list: given by an array of the state (key in the heap), changed by append / remove"""
    def __init__(self, key):
        self.key = key
        self.closed = True
    def arr(self, st):
        return st.heap[("pool", self.key)]
    def iter_segs(self, eng, st):
        k = z3.Const(fresh_name("k"), Id)
        return [Seg([k], z3.Select(self.arr(st), k), k)]
    def contains(self, eng, st, x):
        return z3.Select(self.arr(st), eng.as_id(x))
    def truth(self, eng, st):
        k = z3.Const(fresh_name("k"), Id)
        return Exists([k], z3.Select(self.arr(st), k))
    def length(self, eng, st):
        return [(st, LenV(self.iter_segs(eng, st)))]
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name in ("append", "add", "remove") and len(args) == 1:
            s = st.copy()
            event(s, "remove" if name == "remove" else "append", pool=self.key, x=eng.as_id(args[0]))
            return [(s, None)]
        if name == "copy" and not args:
            return [(st, self)]
        raise Unsupported(f"list.{name}")
    def as_container(self, eng, st, kind):
        s = st.copy()
        return [(s, s.new(Cont(kind, self.iter_segs(eng, st))))]


class SortLoop:
    """each round moves exactly one variable, whose causes were all moved before; it is given up only if there is none"""
    def __init__(self, m):
        self.m, self.done = m, False

    def __call__(self, eng, st, x):
        m = self.m
        if self.done or st.scope or x.orelse:
            raise Unsupported("several while loops")
        self.done = True
        names = assigned_names(x.body) | assigned_names([x.test])
        todo = [n for n, v in st.env.items() if isinstance(v, Pool)]
        outs = [n for n, v in st.env.items() if isinstance(v, CRef) and st.store[v.oid].kind == "list" and not st.store[v.oid].segs]
        if len(todo) != 1 or len(outs) != 1 or todo[0] in names or outs[0] in names:
            raise Mismatch("state of the sort")
        U, S = z3.Const("unsorted", z3.ArraySort(Id, B)), z3.Const("sorted", z3.ArraySort(Id, B))
        head = st.copy()
        head.heap[("pool", "todo")], head.heap[("pool", "done")] = U, S
        head.env[todo[0]], head.env[outs[0]] = Pool("todo"), Pool("done")
        k = z3.Const("k", Id)
        isn = st.heap[("pool", "todo")]
        inv = [z3.ForAll([k], z3.Select(isn, k) == z3.Or(z3.Select(U, k), z3.Select(S, k))), z3.ForAll([k], z3.Not(z3.And(z3.Select(U, k), z3.Select(S, k))))]
        head.pc += inv
        for n in names:
            if n in head.env:
                head.env[n] = Poison(n)
        i = z3.Const("$e", I)
        n0 = len(head.store[TR].segs)
        res = []
        for s, v in eng.ev(x.test, head):
            if isinstance(v, Raised):
                raise Mismatch("the test of the loop raises")
            a, b = eng.split(s, eng.truth(v, s))
            if b is not None:
                m.ob("sorting ends only when every variable is placed", b.pc, ForAll([k], Not(z3.Select(U, k))))
            if a is None:
                continue
            for s2, o in eng.ex(x.body, a):
                if o is not NORMAL and o[0] == "raise":
                    free = z3.And(z3.Select(U, k), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < NE, to(i) == k), z3.Select(S, frm(i)))))
                    m.ob("edges are refused only if no remaining variable has all of its causes placed (a cycle)", s2.pc, And(o[1].exc == "ValueError", z3.Not(z3.Exists([k], free))))
                    res.append((s2, o))
                    continue
                if not (o is NORMAL or o[0] == "continue"):
                    raise Mismatch("exit from the sort")
                ev = s2.store[TR].segs[n0:]
                if any(g.bvs or isinstance(g.elem, BlockV) for g in ev):
                    raise Mismatch("several variables per round")
                fs = [g.elem.fields for g in ev]
                ap = [f for f in fs if f["kind"] == "append"]
                rm = [f for f in fs if f["kind"] == "remove"]
                if any(g.guard is not True for g in ev):
                    raise Mismatch("several variables per round")
                if len(ap) != 1 or len(rm) != 1 or ap[0]["pool"] != "done" or rm[0]["pool"] != "todo":
                    raise Mismatch("one variable per round")
                y = ap[0]["x"]
                m.ob("the placed variable is the removed one", s2.pc, y == rm[0]["x"])
                m.ob("only remaining variables are placed", s2.pc, z3.Select(U, y))
                m.ob("a variable is placed after all of its causes", s2.pc, ForAll([i], Implies(z3.And(i >= 0, i < NE, to(i) == y), z3.Select(S, frm(i)))))
        out = st.copy()
        out.env[outs[0]] = ObjV("sorted", "sorted")
        out.heap["$sorted"] = True
        return [(out, NORMAL)] + res


def sort_unit():
    def gen(ctx):
        c, fn = gen_class(ctx, "topologic_sort")
        eng = TraceEngine(ctx, fn.key)
        key = ctx.prog.mod(SG).classes["AbstractSampleGenerator"].methods["_get_edges_for_node_to"].key
        eng.contracts[key] = Ingoing()
        me = ObjV("self", c, {"_edges": EdgesV()})
        st = start(ctx)
        V = z3.Const("nodes", z3.ArraySort(Id, B))
        st.heap[("pool", "todo")] = V
        i = z3.Const("i", I)
        st.pc += [NE >= 0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < NE), z3.And(z3.Select(V, frm(i)), z3.Select(V, to(i)))))]
        ctx.vacuity.append(("nodes", list(st.pc)))
        m = Match(eng, "topologic_sort")
        eng.while_loop = SortLoop(m)
        eng.loop_hook = None
        for s, v in eng.call_fn(FuncV(fn, me), [Pool("todo")], {}, st):
            if isinstance(v, Raised):
                continue
            if not eng.while_loop.done or not (isinstance(v, ObjV) and v.name == "sorted"):
                raise Mismatch("value returned")
        yield from m.out
        ctx.close(eng)
    return Unit("topologic_sort", gen, keys=[f"{SG}:IIDSampleGenerator.topologic_sort"])


# ---------------------------------------------------------------- data

noise_used = []


class Tens(SV):
    """tensor built from a list"""
    def __init__(self, c):
        self.c = c
    def subst(self, pairs):
        return Tens(subst_val(self.c, pairs))


class Cur:
    """the vector stored for a variable at this moment"""
    def __init__(self, k):
        self.k = k
    def subst(self, pairs):
        return Cur(z3.substitute(self.k, *pairs))
    def bin(self, eng, st, op, o, swap):
        if op == "Mult" and is_num(o):
            return [(st, Lin(toreal(o), self.k))]
        if op == "Add" and isinstance(o, Lin):
            return [(st, Plus(self.k, [o]))]
        raise Unsupported(f"operator {op} on the values of a variable")


class Lin:
    def __init__(self, w, k):
        self.w, self.k = w, k
    def subst(self, pairs):
        return Lin(z3.substitute(self.w, *pairs), z3.substitute(self.k, *pairs))
    def bin(self, eng, st, op, o, swap):
        if op == "Add" and isinstance(o, Cur):
            return [(st, Plus(o.k, [self]))]
        raise Unsupported(f"operator {op} on a weighted variable")


class Plus:
    def __init__(self, k, ls):
        self.k, self.ls = k, ls
    def subst(self, pairs):
        return Plus(z3.substitute(self.k, *pairs), [l.subst(pairs) for l in self.ls])


class VecD:
    """the dictionary of the generated values"""
    closed = True
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def item(self, eng, st, k):
        return [(st, Cur(eng.as_id(k)))]
    def set_item(self, eng, st, k, v):
        s = st.copy()
        k = eng.as_id(k)
        if isinstance(v, Tens):
            event(s, "noise", x=k, val=v.c)
        elif isinstance(v, Plus) and len(v.ls) == 1:
            event(s, "add", x=k, base=v.k, w=v.ls[0].w, cause=v.ls[0].k)
        else:
            raise Mismatch("value of a variable")
        return [(s, NORMAL)]
    def truth(self, eng, st):
        raise Unsupported("truth")


def data_unit():
    def gen(ctx):
        c, fn = gen_class(ctx, "_generate_data")
        eng = TraceEngine(ctx, fn.key)
        key = ctx.prog.mod(SG).classes["AbstractSampleGenerator"].methods["_get_edges_for_node_to"].key
        eng.contracts[key] = Ingoing()
        first = []

        def new_dict(e, st):
            # the first empty dictionary holds the values, others are ordinary
            s = st.copy()
            if not first:
                first.append(1)
                return [(s, VecD())]
            return [(s, s.new(Cont("dict")))]
        eng.dict_hook = new_dict

        def tensor(e, st, a, k):
            d = k.get("dtype")
            if len(a) != 1 or not isinstance(d, ExtV) or d.name not in ("torch.float64", "torch.double"):
                raise Mismatch("noise tensor")
            s = st.copy()
            return [(s, Tens(e.freeze(a[0], s)))]
        eng.externals["torch.tensor"] = tensor

        class Rand:
            closed = True
            def call(self, e, st, a, k):
                s = st.copy()
                return [(s, skolem(s, "draw", R))]
        me = ObjV("self", c, {"_edges": EdgesV(), "_variables": VarsV(), "random_fn": Rand()})
        st = start(ctx)
        st.pc += order_axioms()
        ctx.vacuity.append(("order", list(st.pc)))
        m = Match(eng, "_generate_data")
        for s, v in eng.call_fn(FuncV(fn, me), [SIZE], {}, st):
            if isinstance(v, Raised):
                m.ob(f"never raises {v.exc}", s.pc, False)
                continue
            if not isinstance(v, VecD):
                raise Mismatch("value returned")
            trace_ok(m, eng, s, s.store[TR].segs)
        yield from m.out
        ctx.close(eng)
    return Unit("_generate_data", gen, keys=[f"{SG}:IIDSampleGenerator._generate_data"])


def trace_ok(m, eng, s, tr):
    if len(tr) == 2 and not any(isinstance(g.elem, BlockV) for g in tr):
        noise, add = tr
    else:
        raise Mismatch("noise, then the causes")
    if noise.elem.fields["kind"] != "noise" or add.elem.fields["kind"] != "add":
        raise Mismatch("noise, then the causes")
    # noise: once per variable
    if len(noise.bvs) != 1 or noise.bvs[0].sort() != I:
        raise Mismatch("noise of a variable")
    p = noise.bvs[0]
    inr = z3.And(p >= 0, p < NV)
    m.ob("every variable gets noise once", s.pc, ForAll([p], Iff(noise.guard, inr)))
    f = noise.elem.fields
    m.ob("the noise is stored for the variable itself", s.pc + [inr], f["x"] == var(p))
    l = f["val"]
    if not isinstance(l, Cont) or l.kind != "list" or len(l.segs) != 1 or len(l.segs[0].bvs) != 1 or l.segs[0].bvs[0].sort() != I:
        raise Mismatch("noise values")
    j = l.segs[0].bvs[0]
    m.ob("as many noise values as samples", s.pc + [inr], ForAll([j], Iff(l.segs[0].guard, z3.And(j >= 0, j < SIZE))))
    d = l.segs[0].elem
    if not (isz(d) and d.sort() == R and d.decl().name().startswith("draw")):
        raise Mismatch("noise value")
    m.ob("every noise value is a draw of its own", s.pc, bool(any(a.eq(j) for a in d.children()) and any(a.eq(p) for a in d.children())))
    # causes
    ints = [b for b in add.bvs if b.sort() == I]
    g, f = tob(add.guard), add.elem.fields
    if len(ints) != len(add.bvs) or len(ints) < 2:
        raise Mismatch("additions")
    p = ints[0]
    es = [b for b in ints[1:] if occurs(b, f["w"])]
    if len(es) != 1:
        raise Mismatch("weight of a cause")
    e = es[0]
    rest = [b for b in ints[1:] if not b.eq(e)]
    inr = z3.And(p >= 0, p < NV, e >= 0, e < NE, to(e) == var(p))
    m.ob("in the order of the variables, every edge into a variable adds once", s.pc, ForAll([p, e], Iff(Exists(rest, g), inr)))
    if rest:
        ren = [(b, z3.Const(fresh_name("q"), I)) for b in rest]
        m.ob("in the order of the variables, every edge into a variable adds once", s.pc, ForAll(ints + [q for _, q in ren], Implies(And(g, z3.substitute(g, *ren)), And(*[b == q for b, q in ren]))))
    pc = s.pc + [g]
    m.ob("the addition keeps what the variable had", pc, And(f["x"] == var(p), f["base"] == var(p)))
    m.ob("what is added is the weight of the edge times its cause", pc, And(f["w"] == weight(e), f["cause"] == frm(e)))
    m.ob("the cause has its final value by then", pc, pos(f["cause"]) < p)


# ---------------------------------------------------------------- rows, and the graph

class OutD:
    """generated values: a vector per variable"""
    closed = True
    at = z3.Function("value_at", Id, I, Obj)
    vec = z3.Function("values_of", Id, Obj)
    def iter_segs(self, eng, st):
        return VarsV().iter_segs(eng, st)
    def contains(self, eng, st, x):
        return is_var(eng.as_id(x))
    def item(self, eng, st, k):
        k = eng.as_id(k)
        return eng.guarded(st, is_var(k), lambda s: VecO(k), "KeyError")
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name not in ("items", "keys", "values") or args:
            raise Unsupported(f"dict.{name}")
        out = []
        for g in self.iter_segs(eng, st):
            out.append(Seg(g.bvs, g.guard, {"items": (g.elem, VecO(g.elem)), "keys": g.elem, "values": VecO(g.elem)}[name]))
        return [(st, Cont("list", out))]


class VecO(SV):
    def __init__(self, k):
        self.k = k
        self.t = OutD.vec(k)
    def subst(self, pairs):
        return VecO(z3.substitute(self.k, *pairs))
    def item(self, eng, st, i):
        i = z3.IntVal(i) if isinstance(i, int) else i
        return [(st, SV(OutD.at(self.k, i)))]


class DataC:
    """contract of _generate_data"""
    def apply(self, eng, st, b):
        s = st.copy()
        event(s, "data", size=b.get("size"))
        return [(s, OutD())]


def model_self(ctx, eng, c):
    eng.contracts[ctx.prog.mod(SG).classes["IIDSampleGenerator"].methods["_generate_data"].key] = DataC()
    return ObjV("self", c, {"_edges": EdgesV(), "_variables": VarsV(), "random_fn": SV(z3.Const("self.random_fn", Obj))})


class SampleGraph(GraphC):
    def attr(self, eng, st, a):
        if a == "nodes":
            return [(st, SNodes())]
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name == "add_directed_edge":
            b = bind_args(["u", "v", "metadata", "edge_type"], args, kws, name)
            s = st.copy()
            event(s, "edge", u=b["u"], v=b["v"], metadata=eng.freeze(b.get("metadata"), s), type=b.get("edge_type", ET_DIRECTED))
            return [(s, None)]
        return GraphC.method(self, eng, st, name, args, kws)


class SNodes:
    closed = True
    def item(self, eng, st, k):
        k = eng.as_id(k)
        return eng.guarded(st, is_var(k), lambda s: NodeV(k), "KeyError")
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def contains(self, eng, st, x):
        return is_var(eng.as_id(x))


def generate_unit():
    def gen(ctx):
        c, fn = gen_class(ctx, "generate")
        eng = TraceEngine(ctx, fn.key)
        me = model_self(ctx, eng, c)
        eng.externals["builtins.sorted"] = lambda e, s, a, k: bad("sorted")
        made = []

        def new(e, st, a, k):
            s = st.copy()
            if a or k:
                raise Mismatch("arguments of the graph")
            event(s, "graph", graph="graph")
            return [(s, SampleGraph("graph"))]
        eng.externals["new:GraphManager"] = new
        st = start(ctx)
        st.pc += order_axioms()
        m = Match(eng, "generate")
        x, y = z3.Const("$x", Id), z3.Const("$e", I)
        for s, v in eng.call_fn(FuncV(fn, me), [SIZE], {}, st):
            if isinstance(v, Raised):
                m.ob(f"never raises {v.exc}", s.pc, False)
                continue
            if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], OutD) and isinstance(v[1], SampleGraph)):
                raise Mismatch("value returned")
            from .wspace import flat
            evs = flat(s.store[TR].segs)
            kinds = [g.elem.fields["kind"] for g in evs]
            if kinds.count("graph") != 1 or kinds.count("data") != 1 or set(kinds) - {"graph", "data", "node", "edge"}:
                raise Mismatch("trace of generate")
            if "edge" in kinds and "node" in kinds and kinds.index("edge") < len(kinds) - 1 - kinds[::-1].index("node"):
                raise Mismatch("edges before nodes")
            for g in evs:
                f = g.elem.fields
                if f["kind"] == "data":
                    m.ob("as many samples as asked for", s.pc, And(g.guard, m.eng.eqv(f["size"], SIZE, s)))
            nodes = [g for g in evs if g.elem.fields["kind"] == "node"]
            edges = [g for g in evs if g.elem.fields["kind"] == "edge"]
            for g in nodes:
                f = g.elem.fields
                pc = s.pc + [tob(g.guard)]
                if f["id"] is None or not eng.can_id(f["id"]) or not isinstance(f["values"], VecO):
                    raise Mismatch("node")
                m.ob("only variables become nodes", pc, is_var(eng.as_id(f["id"])))
                m.ob("a node is named after its variable and carries its values", pc, And(eng.eqv(f["name"], f["id"], s), f["values"].k == eng.as_id(f["id"])))
                if g.bvs:
                    h = rename_seg(g)
                    m.ob("one node per variable", pc + [tob(h.guard), eng.as_id(f["id"]) == eng.as_id(h.elem.fields["id"])], And(*[a == b for a, b in zip(g.bvs, h.bvs)]))
            if len(nodes) > 1:
                raise Mismatch("nodes created at several places")
            m.ob("every variable becomes a node", s.pc, Implies(is_var(x), Or(*[Exists(g.bvs, And(g.guard, eng.as_id(g.elem.fields["id"]) == x)) for g in nodes])))
            for g in edges:
                f = g.elem.fields
                pc = s.pc + [tob(g.guard)]
                if not isinstance(f["u"], NodeV) or not isinstance(f["v"], NodeV) or not (isz(f["type"]) and f["type"].sort() == EType):
                    raise Mismatch("edge")
                e = z3.Const("$f", I)
                m.ob("only the given edges are added, in their direction", pc, z3.Exists([e], z3.And(e >= 0, e < NE, frm(e) == f["u"].id, to(e) == f["v"].id)))
                m.ob("edges are directed", pc, f["type"] == ET_DIRECTED)
            m.ob("every given edge is added", s.pc, Implies(z3.And(y >= 0, y < NE), Or(*[Exists(g.bvs, And(g.guard, g.elem.fields["u"].id == frm(y), g.elem.fields["v"].id == to(y))) for g in edges])))
        yield from m.out
        ctx.close(eng)
    return Unit("IIDSampleGenerator.generate", gen, keys=[f"{SG}:IIDSampleGenerator.generate"])


def rows_unit():
    def gen(ctx):
        c, fn = gen_class(ctx, "_generate_shaped_data")
        eng = TraceEngine(ctx, fn.key)
        me = model_self(ctx, eng, c)
        st = start(ctx)
        st.pc += order_axioms()
        m = Match(eng, "_generate_shaped_data")
        x = z3.Const("$x", Id)
        for s, v in eng.call_fn(FuncV(fn, me), [SIZE], {}, st):
            if isinstance(v, Raised):
                m.ob(f"never raises {v.exc}", s.pc, False)
                continue
            got = eng.segs(v, s)
            if len(got) != 1 or len(got[0].bvs) != 1 or got[0].bvs[0].sort() != I or not isinstance(got[0].elem, Cont) or got[0].elem.kind != "dict":
                raise Mismatch("rows")
            i = got[0].bvs[0]
            m.ob("one row per sample", s.pc, ForAll([i], Iff(got[0].guard, z3.And(i >= 0, i < SIZE))))
            pc = s.pc + [z3.And(i >= 0, i < SIZE)]
            has = []
            for g in got[0].elem.segs:
                k, val = g.elem
                if not isinstance(val, SV):
                    raise Mismatch("cell")
                kk = eng.as_id(k)
                has.append(Exists(g.bvs, And(g.guard, kk == x)))
                m.ob("the cells of a row are the values of that sample", pc + [tob(g.guard)], And(is_var(kk), val.t == OutD.at(kk, i)))
            m.ob("a row carries every variable", pc, Implies(is_var(x), Or(*has)))
        yield from m.out
        ctx.close(eng)
    return Unit("_generate_shaped_data", gen, keys=[f"{SG}:IIDSampleGenerator._generate_shaped_data"])


def init_unit():
    def gen(ctx):
        c = ctx.prog.mod(SG).classes["IIDSampleGenerator"]
        fn = ctx.prog.method(c, "__init__")
        eng = TraceEngine(ctx, fn.key)
        A = ctx.prog.mod(SG).classes["AbstractSampleGenerator"]
        V = z3.Function("node_of_an_edge", Id, B)

        class VarSet:
            closed = True
            def iter_segs(self, e, s):
                k = z3.Const(fresh_name("k"), Id)
                return [Seg([k], V(k), k)]

        class Find:
            def apply(self, e, s, b):
                if s.heap.get(("o", "self", "_edges")) is not edges:
                    raise Mismatch("variables of other edges")
                return [(s, VarSet())]

        class Sort:
            def apply(self, e, s, b):
                t = s.copy()
                event(t, "sort", nodes=e.freeze(b["nodes"], t))
                return [(t, ObjV("sorted", "sorted"))]
        eng.contracts[A.methods["_find_variables_in_edges"].key] = Find()
        eng.contracts[c.methods["topologic_sort"].key] = Sort()
        eng.externals["builtins.sorted"] = m_sorted
        eng.externals["copy.deepcopy"] = lambda e, s, a, k: [(s, a[0])]
        eng.externals["copy.copy"] = lambda e, s, a, k: [(s, a[0])]
        edges, rnd = EdgesV(), SV(z3.Const("random", Obj))
        me = ObjV("self", c, {})
        st = start(ctx)
        m = Match(eng, "IIDSampleGenerator.__init__")
        x = z3.Const("$x", Id)
        for s, v in eng.call_fn(FuncV(fn, me), [edges, rnd], {}, st):
            if isinstance(v, Raised):
                m.ob(f"never raises {v.exc}", s.pc, False)
                continue
            h = lambda a: s.heap.get(("o", "self", a))
            if not isinstance(h("random_fn"), SV) or not isinstance(h("_edges"), EdgesV):
                raise Mismatch("attributes")
            m.value("the given noise source is used", s, h("random_fn"), rnd)
            if not (isinstance(h("_variables"), ObjV) and h("_variables").name == "sorted"):
                if isinstance(h("_variables"), VarSet):
                    m.ob("the variables are kept in topological order", s.pc, False)
                    continue
                raise Mismatch("variables")
            tr = s.store[TR].segs
            if len(tr) != 1:
                raise Mismatch("trace")
            l = m.ev(tr[0], "sort")["nodes"]
            if not isinstance(l, Cont) or l.kind != "list":
                raise Mismatch("nodes to sort")
            m.ob("every variable is sorted", s.pc, Iff(eng.member(x, l, s), V(x)))
        yield from m.out
        ctx.close(eng)
    return Unit("IIDSampleGenerator.__init__", gen, keys=[f"{SG}:IIDSampleGenerator.__init__", f"{SG}:AbstractSampleGenerator.__init__"])


def p21_units():
    return [variables_unit(), ingoing_unit(), sort_unit(), init_unit(), data_unit(), rows_unit(), generate_unit()]
