"""Contracts of the small methods the graph model of the verifier takes for granted: equality of edge types and of nodes, the hooks of
the shipped edge types, and the wrapper that calls them.

The other contracts treat an edge type as one of three distinct values, a node as its id, and a hook as no effect; these units check
exactly that on the methods that run."""
import ast, z3
from .base import *
from .interp import *
from .verify import Obl, Unit
from .gcontracts import heap_same, QUERIES
from .mutators import setup
from .program import Cls

IF_ = "causy/interfaces.py"
ET_ = "causy/edge_types.py"
TYPES = ["DirectedEdge", "UndirectedEdge", "BiDirectedEdge"]
HOOKS = ["pre_edge_remove_hook", "post_edge_remove_hook", "pre_edge_add_hook", "post_edge_add_hook", "pre_edge_update_hook", "post_edge_update_hook", "pre_edge_type_change_hook", "post_edge_type_change_hook"]
GMF = "causy/graph_model.py"


def type_classes(ctx):
    m = ctx.prog.mod(ET_)
    cs = [m.classes.get(n) for n in TYPES]
    if None in cs:
        raise Unsupported("an edge type is gone")
    return cs


def eq_unit():
    """equality (and hash) of edge types: equal exactly if they are the same type"""
    def gen(ctx):
        eng = ctx.engine({}, f"{IF_}:EdgeTypeInterface.__eq__")
        cs = type_classes(ctx)
        for a in cs:
            if any(a.attrs.get(k) is not None for k in ("__eq__", "__hash__", "__ne__")):
                raise Unsupported("equality is assigned")
            h = ctx.prog.method(a, "__hash__")
            for b in cs:
                f, ne = ctx.prog.method(a, "__eq__"), ctx.prog.method(a, "__ne__")
                if f is None:
                    raise Unsupported("equality of pydantic models")
                for fn, neg in ((f, False), (ne, True)):
                    if fn is None:
                        continue
                    st = ctx.start(eng, ri=False)
                    for s, v in eng.call_fn(FuncV(fn, ObjV("one " + a.qual, a)), [ObjV("other " + b.qual, b)], {}, st):
                        lab = f"EdgeTypeInterface.{"__ne__" if neg else "__eq__"}: {a.qual} and {b.qual}"
                        if isinstance(v, Raised):
                            yield Obl(f"{lab}: never raises {v.exc}", s.pc, False)
                        else:
                            want = (a is b) != neg
                            t = eng.truth(v, s)
                            yield Obl(f"{lab}: equal exactly if they are the same type", s.pc, t if want else Not(t))
        ctx.close(eng)
    return Unit("EdgeTypeInterface.__eq__", gen, keys=[f"{IF_}:EdgeTypeInterface.__eq__"])


class NodeOf:
    """a node given by its id; name and values are those of the node with this id"""
    closed = True
    def __init__(self, i):
        self.i = i
    def attr(self, eng, st, a):
        if a == "id":
            return [(st, self.i)]
        if a == "name":
            return [(st, z3.Function("name_of_node", Id, Obj)(self.i))]
        raise Unsupported(f"node attribute {a}")
    def isinst(self, eng, st, n):
        return n in ("Node", "NodeInterface", "BaseModel")
    def is_none(self, eng, st):
        return False
    def truth(self, eng, st):
        return True


def node_eq_unit():
    """nodes of one graph are equal exactly if they have the same id: a defined __eq__ is checked, pydantic's compares all fields (name and id first)"""
    def gen(ctx):
        eng = ctx.engine({}, "causy/graph.py:Node.__eq__")
        c = ctx.prog.mod("causy/graph.py").classes.get("Node")
        if c is None:
            raise Unsupported("Node is gone")
        if any(k.attrs.get("__eq__") is not None for k in ctx.prog.mro(c)):
            raise Unsupported("equality is assigned")
        ids = [z3.Const("u", Id), z3.Const("v", Id)]
        fn, h = ctx.prog.method(c, "__eq__"), ctx.prog.method(c, "__hash__")
        st = ctx.start(eng, ri=False)
        if fn is None:
            fields = [s.target.id for k in reversed(ctx.prog.mro(c)) for s in k.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
            ctx.assumed.add("pydantic compares models field by field, in the order of declaration (name, id, values)")
            yield Obl("Node.__eq__: the fields compared include the id", st.pc, "id" in fields)
        else:
            for s, v in eng.call_fn(FuncV(fn, NodeOf(ids[0])), [NodeOf(ids[1])], {}, st):
                if isinstance(v, Raised):
                    yield Obl(f"Node.__eq__: never raises {v.exc}", s.pc, False)
                else:
                    yield Obl("Node.__eq__: nodes are equal exactly if their ids are", s.pc, Iff(eng.truth(v, s), ids[0] == ids[1]))
        ctx.close(eng)
    return Unit("Node.__eq__", gen, keys=["causy/graph.py:Node.__hash__"])


def hooks_unit():
    """hooks of the shipped edge types have no effect"""
    def gen(ctx):
        cs = type_classes(ctx)
        for c in cs:
            for h in HOOKS:
                fn = ctx.prog.method(c, h)
                if fn is None:
                    raise Unsupported(f"hook {h} is gone")
                eng = ctx.engine(QUERIES, fn.key)
                setup(eng)
                st = ctx.start(eng)
                h0 = dict(st.heap)
                for s, v in eng.call_fn(FuncV(fn, ObjV("type " + c.qual, c)), [ManagerV(), ObjV("proposal", "proposal")], {}, st):
                    lab = f"{h} of {c.qual}"
                    if isinstance(v, Raised):
                        yield Obl(f"{lab}: never raises {v.exc}", s.pc, False)
                    else:
                        yield Obl(f"{lab}: changes nothing", s.pc, bool(heap_same(h0, s.heap)))
                ctx.close(eng)
    return Unit("edge type hooks", gen, keys=[f"{IF_}:EdgeTypeInterface.{h}" for h in HOOKS])


class HookV:
    """a hook of an edge type: any object that can be called; what the shipped ones do is checked by hooks_unit"""
    closed = True
    def call(self, eng, st, args, kws):
        eng.assumed.add("hooks of edge types other than the shipped ones do not edit the graph")
        if len(args) != 2 or kws:
            raise Unsupported("arguments of a hook")
        return [(st, None), (st, Raised("Exception"))]


def hook_call_unit():
    """_execute_hook: calls the hook of the edge between the two nodes; whatever the hook raises, and if there is no such edge, nothing else happens"""
    def gen(ctx):
        c = ctx.prog.mod(GMF).classes.get("AbstractGraphModel")
        fn = ctx.prog.method(c, "_execute_hook")
        if fn is None:
            raise Unsupported("_execute_hook not found")
        eng = ctx.engine(QUERIES, fn.key)
        setup(eng)

        def getattr_(e, st, args, kws):
            if len(args) == 2 and isz(args[0]) and args[0].sort() == EType:
                return [(st, HookV())]
            raise Unsupported("getattr")
        eng.externals["builtins.getattr"] = getattr_
        eng.externals["getattr"] = getattr_
        st = ctx.start(eng)
        h0 = dict(st.heap)
        u, v = z3.Const("u", Id), z3.Const("v", Id)
        p = ObjV("proposal", "proposal", {"u": NodeV(u), "v": NodeV(v)})
        me = ObjV("model", c, {"graph": ManagerV()})
        for s, r in eng.call_fn(FuncV(fn, me), [ObjV("hook", "hook"), p], {}, st):
            if isinstance(r, Raised):
                yield Obl(f"_execute_hook: never raises {r.exc}", s.pc, False)
            else:
                yield Obl("_execute_hook: changes nothing itself", s.pc, bool(heap_same(h0, s.heap)))
        ctx.close(eng)
    return Unit("_execute_hook", gen, keys=[f"{GMF}:AbstractGraphModel._execute_hook"])


def p03_units():
    return [eq_unit(), node_eq_unit()]


def p07_units():
    return [hooks_unit(), hook_call_unit()]


class StepsOf:
    """the list of steps of an algorithm"""
    closed = True
    size = z3.Const("number_of_steps", I)
    def is_none(self, eng, st):
        return False
    def truth(self, eng, st):
        return self.size != 0
    def isinst(self, eng, st, n):
        return n == "list"


class AnyBool:
    def apply(self, eng, st, bound):
        return [(st, z3.Const(fresh_name("needs_pool"), B))]


class AnyPool:
    def apply(self, eng, st, bound):
        return [(st, ObjV("pool", "pool"))]


def init_unit():
    """the constructor of a graph model: its algorithm and steps are exactly those of the algorithm given (none of them changed, left out or added)"""
    def gen(ctx):
        c = ctx.prog.mod(GMF).classes.get("AbstractGraphModel")
        fn = ctx.prog.method(c, "__init__")
        if fn is None:
            raise Unsupported("constructor not found")
        con = {f"{GMF}:AbstractGraphModel.__multiprocessing_required": AnyBool(), f"{GMF}:AbstractGraphModel.__initialize_pool": AnyPool()}
        eng = ctx.engine(con, fn.key)
        st = ctx.start(eng, ri=False)
        steps = StepsOf()
        st.pc.append(steps.size >= 0)
        alg = ObjV("algorithm", "Algorithm", {"pipeline_steps": steps})
        me = ObjV("model", c)
        for s, r in eng.call_fn(FuncV(fn, me), [], {"algorithm": alg}, st):
            if isinstance(r, Raised):
                yield Obl(f"graph model constructor: never raises {r.exc}", s.pc, False)
                continue
            for a, what in (("algorithm", alg), ("pipeline_steps", steps)):
                v = s.heap.get(("o", "model", a))
                if v is what:
                    ok = True
                elif a == "pipeline_steps" and isinstance(v, (CRef, Cont)) and not eng.segs(v, s):
                    ok = steps.size == 0
                else:
                    raise Unsupported(f"how the model keeps its {a}")
                yield Obl(f"graph model constructor: the {a} of the model is that of the algorithm", s.pc, ok)
            if ("o", "algorithm", "pipeline_steps") in s.heap:
                raise Unsupported("the constructor changes the algorithm")
        ctx.close(eng)
    return Unit("AbstractGraphModel.__init__", gen, keys=[f"{GMF}:AbstractGraphModel.__init__"])


def p08_units():
    return [init_unit()]


# ---------------------------------------------------------------- graph update hooks of an algorithm
run_hook = z3.Function("hook_result", Obj, Obj, Obj)      # what a hook makes of the proposals
hook_at = z3.Function("hook_at", I, Obj)
folded = z3.Function("after_hooks", I, Obj, Obj)          # the proposals after the first n hooks
NH = z3.Const("number_of_hooks", I)


class Props:
    """a list of proposals"""
    closed = True
    def __init__(self, t):
        self.t = t
    def subst(self, pairs):
        return Props(z3.substitute(self.t, *pairs))
    def is_none(self, eng, st):
        return False
    def truth(self, eng, st):
        return z3.Function("some_proposals", Obj, B)(self.t)
    def term_obj(self, eng, st):
        return self.t


class OneHook:
    def __init__(self, t, sink):
        self.t, self.sink = t, sink
    def subst(self, pairs):
        return OneHook(z3.substitute(self.t, *pairs), self.sink)
    def truth(self, eng, st):
        return True
    def is_none(self, eng, st):
        return False
    def attr(self, eng, st, a):
        if a != "execute":
            raise Unsupported(f"hook.{a}")
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if len(args) != 2 or kws or not isinstance(args[1], Props):
            raise Unsupported("arguments of a hook")
        s = st.copy()
        s.heap = dict(s.heap)
        s.heap[("o", "hooks", "calls")] = tuple(s.heap.get(("o", "hooks", "calls"), ())) + ((self.t, args[0], args[1].t),)
        return [(s, Props(run_hook(self.t, args[1].t)))]


class HookList:
    closed = True
    def __init__(self, sink):
        self.sink = sink
    def is_none(self, eng, st):
        return z3.Const("no_hooks_configured", B)
    def truth(self, eng, st):
        return And(Not(z3.Const("no_hooks_configured", B)), NH > 0)
    def iter_segs(self, eng, st):
        i = z3.Const(fresh_name("i"), I)
        return [Seg([i], And(i >= 0, i < NH), OneHook(hook_at(i), self.sink))]


def hook_loop(sink, lab, pre, graph):
    def hook(eng, st, seg, body, names, node):
        if not isinstance(seg.elem, OneHook) or len(seg.bvs) != 1:
            return None
        i = seg.bvs[0]
        s0 = st.copy()
        s0.heap = dict(s0.heap)
        if s0.heap.get(("o", "hooks", "calls")):
            raise Unsupported("hooks are called before the loop")
        s0.pc = s0.pc + [tob(seg.guard)]
        carried = [n for n in names if isinstance(s0.env.get(n), Props)]
        first = {n: s0.env[n].t for n in carried}
        inv = []
        for n in names:
            if n in carried:
                s0.env[n] = Props(folded(i, first[n]))
            elif n in s0.env:
                s0.env[n] = Poison(n)
        for s, o in body(s0, OneHook(hook_at(i), sink)):
            if isinstance(o, tuple) and o[0] == "raise":
                raise Unsupported("a hook loop that raises")
            if not (o is NORMAL or o[0] == "continue"):
                sink.append(Obl(f"{lab}: every hook is executed", s.pc, False))
                continue
            calls = s.heap.get(("o", "hooks", "calls"), ())
            sink.append(Obl(f"{lab}: every hook is executed exactly once", s.pc, len(calls) == 1))
            if len(calls) == 1:
                t, g, p = calls[0]
                sink.append(Obl(f"{lab}: the hook called is the next one", s.pc, t == hook_at(i)))
                sink.append(Obl(f"{lab}: the hook gets the graph", s.pc, g is graph))
                want = [folded(i, first[n]) for n in carried] if pre else [PROPOSALS]
                sink.append(Obl(f"{lab}: the hook gets " + ("what the hook before it returned" if pre else "the actions"), s.pc, Or(*[p == w for w in want]) if want else False))
            for n in carried:
                v = s.env.get(n)
                if not isinstance(v, Props):
                    raise Unsupported("value kept by a hook loop")
                sink.append(Obl(f"{lab}: what a hook returns is handed on", s.pc, v.t == run_hook(hook_at(i), folded(i, first[n]))))
        s1 = st.copy()
        s1.heap = dict(s1.heap)
        s1.heap[("o", "hooks", "calls")] = ()
        s1.heap[("o", "hooks", "ran")] = True
        for n in names:
            if n in carried:
                s1.env[n] = Props(folded(NH, first[n]))
            else:
                s1.env[n] = Poison(n)
        return [(s1, NORMAL)]
    return hook


PROPOSALS = z3.Const("proposals", Obj)


def update_hooks_unit(name, pre):
    def gen(ctx):
        c = ctx.prog.mod(GMF).classes.get("AbstractGraphModel")
        fn = ctx.prog.method(c, name)
        if fn is None:
            raise Unsupported(f"{name} not found")
        eng = ctx.engine({}, fn.key)
        sink = []
        graph = ObjV("graph", "graph")
        eng.loop_hook = hook_loop(sink, name, pre, graph)
        st = ctx.start(eng, ri=False)
        st.pc += [NH >= 0, folded(0, PROPOSALS) == PROPOSALS]
        for s, r in eng.call_fn(FuncV(fn, ObjV("model", c)), [HookList(sink), graph, Props(PROPOSALS)], {}, st):
            if isinstance(r, Raised):
                sink.append(Obl(f"{name}: never raises {r.exc}", s.pc, False))
                continue
            any_ = And(Not(z3.Const("no_hooks_configured", B)), NH > 0)
            if not s.heap.get(("o", "hooks", "ran")):
                sink.append(Obl(f"{name}: hooks that are configured are executed", s.pc, Not(any_)))
            if pre:
                if not isinstance(r, Props):
                    raise Unsupported("what is returned")
                sink.append(Obl(f"{name}: the proposals are those the last hook returned", s.pc, r.t == z3.If(tob(any_), folded(NH, PROPOSALS), PROPOSALS)))
        yield from sink
        ctx.close(eng)
    return Unit(name, gen, keys=[f"{GMF}:AbstractGraphModel.{name}"])


def p07_units():
    return [hooks_unit(), hook_call_unit(), update_hooks_unit("_execute_pre_graph_update_hooks", True), update_hooks_unit("_execute_post_graph_update_hooks", False)]


# ---------------------------------------------------------------- a new graph
class NewGraph:
    """the class of the graph data: one new object per call (pydantic copies the defaults of its fields; trusted)"""
    closed = True
    def call(self, eng, st, args, kw):
        if args or kw:
            raise Unsupported("arguments of the graph class")
        g = ObjV("data", None)
        st.heap[("o", "data", "made")] = st.heap.get(("o", "data", "made"), 0) + 1
        return [(st, g)]
    def truth(self, eng, st):
        return True
    def is_none(self, eng, st):
        return False


G_ = "causy/graph.py"
PARTS = ["nodes", "edges", "_reverse_edges", "edge_history", "action_history"]


def new_graph_unit():
    """a new graph is empty, its parts are new objects of their own, and it satisfies the invariant: the base case of "every history of edits" """
    def gen(ctx):
        from .graphspec import RI
        from .interp import fresh_heap
        c = ctx.prog.mod(G_).classes.get("GraphManager")
        fn = c and ctx.prog.method(c, "__init__")
        if fn is None:
            raise Unsupported("constructor not found")
        eng = ctx.engine({}, fn.key)
        st = ctx.start(eng, ri=False)
        me = ObjV("manager", c)
        for s, r in eng.call_fn(FuncV(fn, me), [], {"graph_class": NewGraph()}, st):
            if isinstance(r, Raised):
                yield Obl(f"new graph: invariant: never raises {r.exc}", s.pc, False)
                continue
            g = s.heap.get(("o", "manager", "graph"))
            if not isinstance(g, ObjV) or s.heap.get(("o", "data", "made")) != 1:
                raise Unsupported("how a new graph keeps its data")
            seen = {}
            for a in PARTS + ["_deleted_edges"]:
                v = s.heap.get(("o", "data", a))
                if v is None and a == "_deleted_edges":
                    continue            # the default of the field, copied by pydantic
                if not isinstance(v, CRef):
                    raise Unsupported(f"how a new graph keeps its {a}")
                yield Obl(f"new graph: invariant: no {a.strip('_').replace('_', ' ')}", s.pc, not eng.segs(v, s))
                yield Obl(f"new graph: invariant: its {a.strip('_').replace('_', ' ')} are an object of their own", s.pc, v.oid not in seen)
                seen[v.oid] = a
            h = fresh_heap("new")
            i = z3.Const("any_node", Id)
            empty = [z3.ForAll([i], Not(z3.Select(h[k], i))) for k in ("nodes", "E_out", "R_out", "D_out")]
            for nm, f in RI(h, True):
                yield Obl(f"new graph: invariant: {nm}", s.pc + empty, f)
        ctx.close(eng)
    return Unit("GraphManager.__init__", gen, keys=[f"{G_}:GraphManager.__init__"])


def p01_units():
    return [new_graph_unit()]
