"""Path-splitting symbolic interpreter for the Python subset used by causy.

ev(expr, st)   -> [(state, value)]          value may be Raised(exc)
ex(stmts, st)  -> [(state, outcome)]        outcome: ("normal",) ("return", v) ("raise", Raised) ("break",) ("continue",)
Loops over symbolic collections are summarised exactly (see DESIGN.md); loops that
change the heap need an invariant or a step contract from the sidecar.
"""
import ast, os, sys, time
import z3
from .base import *
from .program import Program, Fn, Cls, own_nodes

NORMAL = ("normal",)
sys.setrecursionlimit(20000)

HEAP = {  # component -> sort
    "nodes": z3.ArraySort(Id, B),
    "E_out": z3.ArraySort(Id, B), "R_out": z3.ArraySort(Id, B), "D_out": z3.ArraySort(Id, B),
    "E": z3.ArraySort(Id, z3.ArraySort(Id, B)), "R": z3.ArraySort(Id, z3.ArraySort(Id, B)), "D": z3.ArraySort(Id, z3.ArraySort(Id, B)),
    "E_ref": z3.ArraySort(Id, z3.ArraySort(Id, Ref)), "R_ref": z3.ArraySort(Id, z3.ArraySort(Id, Ref)), "D_ref": z3.ArraySort(Id, z3.ArraySort(Id, Ref)),
    "f_deleted": z3.ArraySort(Ref, B), "f_type": z3.ArraySort(Ref, EType), "f_meta": z3.ArraySort(Ref, Meta),
    "f_u": z3.ArraySort(Ref, Id), "f_v": z3.ArraySort(Ref, Id), "alloc": z3.ArraySort(Ref, B),
    "H": z3.ArraySort(Id, z3.ArraySort(Id, B)), "H_list": z3.ArraySort(Id, z3.ArraySort(Id, Hist)),
}
DICTS = {"edges": "E", "_reverse_edges": "R", "_deleted_edges": "D"}
hist_app = z3.Function("hist_app", Hist, Obj, Hist)
hist_empty = z3.Const("hist_empty", Hist)
name_of = z3.Function("name_of", Id, Obj)
nonempty_str = z3.Function("nonempty_str", Id, B)
obj_attr = {}
meta_truthy = z3.Function("meta_truthy", Meta, B)


BASE_AX = [z3.Not(meta_truthy(z3.Const("py:None:Meta", Meta))), z3.Not(meta_truthy(z3.Const("py:{}:Meta", Meta))),
           z3.Const("py:None:Meta", Meta) != z3.Const("py:{}:Meta", Meta)]


def fresh_heap(tag="g"):
    return {k: z3.Const(fresh_name(f"{tag}.{k}"), s) for k, s in HEAP.items()}


def is_num(v):
    return (isinstance(v, (int, float)) and not isinstance(v, bool)) or (isz(v) and v.sort() in (I, R))


class Engine:
    def __init__(self, prog, contracts=None, timeout_ms=400):
        self.prog = prog
        self.contracts = contracts or {}      # fn key -> contract object
        self.obls = []                        # collected call site obligations (name, pc, goal)
        self.used = set()                     # callee contracts relied upon
        self.inlined = set()
        self.assumed = set()                  # named assumptions (trusted models)
        self.depth = 0
        self.target = None                    # function under verification (key): its own body is inlined once
        self.externals = {}                   # name -> handler(engine, st, args, kwargs)
        self.obj_methods = {}                 # (objname or class, method) -> handler
        self.attr_models = {}                 # (cls, attr) -> handler(engine, st, obj)
        self.demonic = {}                     # ghost values a contract or an invariant leaves open (never merged into one value)
        self.solver_time = 0.0
        self.feas = 0
        self.timeout = timeout_ms
        self.axioms = []
        self.mut_loop = None                  # handler for heap mutating loops
        self.while_loop = None
        self.skip_calls = {"logger", "logging", "typer", "show_error", "show_success", "print", "warnings"}
        self.fuel = 60000
        self.approx = False
        self.blocks = False                   # keep the order of what ordered loops append (trace units)

    # ------------------------------------------------------------ solver
    def feasible(self, st):
        self.feas += 1
        for c in st.pc:
            if c is False or (isz(c) and z3.is_false(c)):
                return False
        t = time.time()
        s = z3.SimpleSolver()
        s.set("auto_config", False)
        s.set("mbqi", False)
        s.set("timeout", self.timeout)
        s.add(*[tob(c) for c in self.axioms])
        s.add(*[tob(c) for c in st.pc])
        s.add(*BASE_AX)
        r = s.check()
        self.solver_time += time.time() - t
        return r != z3.unsat

    def assume(self, st, cond):
        """[st with cond] or [] when infeasible"""
        if cond is True:
            return st
        if isz(cond):
            cond = z3.simplify(cond) if not has_quant(cond) else cond
            if z3.is_true(cond):
                return st
            if z3.is_false(cond):
                return None
        elif cond is False:
            return None
        for c in st.pc:
            if isz(c) and c.eq(cond):
                return st
            if isz(c) and isz(cond) and ((z3.is_not(c) and c.arg(0).eq(cond)) or (z3.is_not(cond) and cond.arg(0).eq(c))):
                return None
        s = st.copy()
        s.pc.append(cond)
        return s if self.feasible(s) else None

    def split(self, st, cond):
        """(state where cond, state where not cond); either may be None"""
        if cond is True:
            return st, None
        if cond is False:
            return None, st
        a = self.assume(st, cond)
        b = self.assume(st, Not(cond))
        return a, b

    def burn(self):
        self.fuel -= 1
        if self.fuel < 0:
            raise Unsupported("path budget exhausted")

    # ------------------------------------------------------------ values
    def freeze(self, v, st):
        if isinstance(v, CRef):
            c = st.store[v.oid]
            if self.blocks and (c.acc is not None or c.snap):
                return AccV(v.oid, tuple(c.segs), tuple(st.scope))
            self.read(c)
            c.frozen = True
            return Cont(c.kind, [Seg(s.bvs, s.guard, self.freeze(s.elem, st)) for s in c.segs])
        if isinstance(v, tuple):
            return tuple(self.freeze(x, st) for x in v)
        if isinstance(v, list):
            return [self.freeze(x, st) for x in v]
        if isinstance(v, RecV):
            return RecV(v.cls, {k: self.freeze(x, st) for k, x in v.fields.items()})
        if isinstance(v, Poison):
            raise LoopCarried(v.name)
        if hasattr(v, "freeze"):
            return v.freeze(self, st)
        return v

    def read(self, c):
        if c.acc is not None:
            raise LoopCarried(("container", c.acc))
        if c.stale:
            raise Unsupported("list whose elements were changed while it was iterated")

    def thaw(self, s, elem, src):
        """an element that is a list may be changed by the loop body; its container must then not be read again"""
        if self.blocks and isinstance(elem, Cont):
            s = s.copy()
            c = Cont(elem.kind, elem.segs)
            c.src = src
            return s, s.new(c)
        return s, elem

    def mutate(self, st, ref):
        if isinstance(ref, Cont):
            raise Unsupported("mutation of a frozen container")
        c = st.store[ref.oid]
        if getattr(c, "frozen", False):
            raise Escaped(ref.oid)
        if c.src is not None and c.src in st.store:
            st.store[c.src].stale = True
        return c

    def segs(self, v, st):
        """segments of an iterable value"""
        if isinstance(v, CRef):
            c = st.store[v.oid]
            self.read(c)
            if c.kind == "dict":
                return [Seg(s.bvs, s.guard, s.elem[0]) for s in c.segs]
            return list(c.segs)
        if isinstance(v, Cont):
            if v.kind == "dict":
                return [Seg(s.bvs, s.guard, s.elem[0]) for s in v.segs]
            return list(v.segs)
        if isinstance(v, (tuple, list)):
            return [Seg((), True, x) for x in v]
        if isinstance(v, (set, frozenset)):
            return [Seg((), True, x) for x in v]
        if isinstance(v, InnerD):
            x = z3.Const(fresh_name("k"), Id)
            return [Seg([x], self.inner_dom(st, v, x), x)]
        if isinstance(v, OuterD):
            x = z3.Const(fresh_name("k"), Id)
            return [Seg([x], z3.Select(self.hget(st, v.name + "_out"), x), x)]
        if isinstance(v, NodesD):
            x = z3.Const(fresh_name("n"), Id)
            return [Seg([x], z3.Select(self.hget(st, "nodes"), x), x)]
        if isinstance(v, HistL):
            from .rules import ResV, hist_mem
            x = z3.Const(fresh_name("h"), Obj)
            return [Seg([x], hist_mem(z3.Select(z3.Select(self.hget(st, "H_list"), v.u), v.v), x), ResV(x))]
        if hasattr(v, "iter_segs"):
            return v.iter_segs(self, st)
        if isinstance(v, Poison):
            raise LoopCarried(v.name)
        raise Unsupported(f"iteration over {type(v).__name__} {v!r}")

    def hget(self, st, k):
        if k not in st.heap:
            raise Unsupported(f"no heap component {k}")
        return st.heap[k]

    def inner_dom(self, st, d, x):
        return And(z3.Select(self.hget(st, d.name + "_out"), d.key), z3.Select(z3.Select(self.hget(st, d.name), d.key), x))

    def member(self, x, v, st):
        if isinstance(v, CRef) and st.store[v.oid].acc is not None:
            # loop carried membership: handled by the loop summariser
            m = z3.Const(fresh_name("seen"), B)
            st.fresh.append(m)
            st.notes.append(("mem", v.oid, self.freeze(x, st), m))
            return m
        if isinstance(v, InnerD):
            return self.inner_dom(st, v, self.as_id(x)) if self.can_id(x) else False
        if isinstance(v, OuterD):
            return z3.Select(self.hget(st, v.name + "_out"), self.as_id(x)) if self.can_id(x) else False
        if isinstance(v, NodesD):
            return z3.Select(self.hget(st, "nodes"), self.as_id(x)) if self.can_id(x) else False
        if isinstance(v, HistD):
            if isinstance(x, tuple) and len(x) == 2:
                return z3.Select(z3.Select(self.hget(st, "H"), self.as_id(x[0])), self.as_id(x[1]))
            return False
        if hasattr(v, "contains"):
            return v.contains(self, st, x)
        if isinstance(v, str) and isinstance(x, str):
            return x in v
        return Or(*[Exists(s.bvs, And(s.guard, self.eqv(s.elem, x, st))) for s in self.segs(v, st)])

    def can_id(self, x):
        return isz(x) and x.sort() == Id or isinstance(x, str)

    def as_id(self, x):
        if isz(x) and x.sort() == Id:
            return x
        if isinstance(x, str):
            return z3.Const("str:" + x, Id)
        if isinstance(x, Poison):
            raise LoopCarried(x.name)
        raise Unsupported(f"not a node id: {x!r}")

    def nonempty(self, segs):
        return Or(*[Exists(s.bvs, s.guard) for s in segs])

    def truth(self, v, st):
        if isinstance(v, Poison):
            raise LoopCarried(v.name)
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float, str)):
            return bool(v)
        if isz(v):
            if v.sort() == B:
                return v
            if v.sort() in (I, R):
                return v != 0
            if v.sort() == Id:
                return nonempty_str(v)
            if v.sort() == Obj:
                return z3.Function("truthy", Obj, B)(v)
            if v.sort() == Meta:
                return meta_truthy(v)
            if v.sort() == EType:
                return v != z3.Const("py:None:EType", EType)
            raise Unsupported(f"truth of {v}")
        if isinstance(v, LenV):
            return self.nonempty(v.segs)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, (NodeV, RecV, EdgeV, ObjV, GraphV, ManagerV, FuncV, ClassV)):
            return True
        if isinstance(v, (CRef, Cont, InnerD, OuterD, NodesD)):
            return self.nonempty(self.segs(v, st))
        if hasattr(v, "truth"):
            return v.truth(self, st)
        raise Unsupported(f"truth of {v!r}")

    def eqv(self, a, b, st):
        for x in (a, b):
            if isinstance(x, Poison):
                raise LoopCarried(x.name)
        if hasattr(a, "eq_to"):
            return a.eq_to(self, st, b)
        if hasattr(b, "eq_to"):
            return b.eq_to(self, st, a)
        if isinstance(a, LenV) or isinstance(b, LenV):
            return self.cmp_len("==", a, b)
        pa, pb = isinstance(a, (bool, int, float, str, type(None))), isinstance(b, (bool, int, float, str, type(None)))
        if pa and pb:
            return a == b
        if isz(a) and isz(b):
            if a.sort() == b.sort():
                return True if a.eq(b) else a == b
            if a.sort() in (I, R) and b.sort() in (I, R):
                return a == b
            return False
        if isz(a) and pb or isz(b) and pa:
            if isz(b):
                a, b = b, a
            if a.sort() == B and isinstance(b, bool):
                return a if b else Not(a)
            if a.sort() in (I, R) and is_num(b):
                return a == b
            if a.sort() == Id and isinstance(b, str):
                return a == z3.Const("str:" + b, Id)
            if a.sort() == Obj:
                return a == self.obj_const(b)
            return False
        if isinstance(a, NodeV) and isinstance(b, NodeV):
            return True if a.id.eq(b.id) else a.id == b.id
        if isinstance(a, EdgeV) and isinstance(b, EdgeV):
            raise Unsupported("edge equality")
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return And(*[self.eqv(x, y, st) for x, y in zip(a, b)])
        ca, cb = isinstance(a, (CRef, Cont)), isinstance(b, (CRef, Cont))
        if ca and cb:
            sa, sb = self.segs(a, st), self.segs(b, st)
            if not sb:
                return Not(self.nonempty(sa))
            if not sa:
                return Not(self.nonempty(sb))
            if all(not s.bvs and s.guard is True for s in sa + sb):
                if len(sa) != len(sb):
                    return False
                return And(*[self.eqv(x.elem, y.elem, st) for x, y in zip(sa, sb)])
            raise Unsupported("container equality")
        if isinstance(a, RecV) and isinstance(b, RecV):
            if a.cls != b.cls:
                return False
            return And(*[self.eqv(a.fields.get(k), b.fields.get(k), st) for k in a.fields])
        if isinstance(a, (ClassV, ObjV)) or isinstance(b, (ClassV, ObjV)):
            if isinstance(a, ObjV) and isinstance(b, ObjV):
                return a.name == b.name
            if type(a) is type(b):
                return a.name == b.name
            return False
        if type(a) is type(b) and a is b:
            return True
        if type(a) is not type(b):
            kinds = (NodeV, EdgeV, tuple, CRef, Cont, RecV, type(None), str, int, bool, float)
            if (isinstance(a, kinds) or isz(a)) and (isinstance(b, kinds) or isz(b)):
                if {True} == {isz(x) and x.sort() == Obj for x in (a, b) if isz(x)} or not (isz(a) or isz(b)):
                    if isz(a) or isz(b):
                        raise Unsupported("equality of opaque objects")
                return False
        raise Unsupported(f"equality {a!r} == {b!r}")

    def obj_const(self, b):
        c = z3.Const(f"py:{type(b).__name__}:{b}", Obj)
        return c

    def cmp_len(self, op, a, b):
        if isinstance(b, LenV) and not isinstance(a, LenV):
            flip = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
            return self.cmp_len(flip[op], b, a)
        if isinstance(a, LenV) and all(not s.bvs and s.guard is True for s in a.segs):
            n = len(a.segs)
            if isinstance(b, LenV):
                return self.cmp_len({"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}[op], b, n)
            return pycmp(op, n, b)
        if not isinstance(b, LenV) and isinstance(b, int):
            ne = self.nonempty(a.segs)
            if (op, b) in ((">", 0), ("!=", 0), (">=", 1)):
                return ne
            if (op, b) in (("==", 0), ("<=", 0), ("<", 1)):
                return Not(ne)
            if (op, b) in ((">=", 0),):
                return True
            if (op, b) in (("<", 0),):
                return False
        return pycmp(op, self.len_term(a), self.len_term(b))

    def len_term(self, v):
        if isinstance(v, LenV):
            if all(not s.bvs and s.guard is True for s in v.segs):
                return len(v.segs)
            if getattr(self, "length_hook", None):
                return self.length_hook(self, v)
            raise Unsupported("length of a symbolic collection")
        return v

    # ------------------------------------------------------------ expressions
    def evs(self, exprs, st):
        """evaluate a list of expressions left to right"""
        res = [(st, [])]
        for e in exprs:
            nxt = []
            for s, vals in res:
                if isinstance(vals, Raised):
                    nxt.append((s, vals)); continue
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(e.value, s):
                        if isinstance(v, Raised):
                            nxt.append((s2, v))
                        else:
                            sg = self.segs(v, s2)
                            if all(not x.bvs and x.guard is True for x in sg):
                                nxt.append((s2, vals + [x.elem for x in sg]))
                            else:
                                nxt.append((s2, vals + [StarV(v)]))
                    continue
                for s2, v in self.ev(e, s):
                    nxt.append((s2, v if isinstance(v, Raised) else vals + [v]))
            res = nxt
        return res

    def ev(self, e, st):
        self.burn()
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} at line {getattr(e, 'lineno', '?')}")
        return m(e, st)

    def ev_Constant(self, e, st):
        return [(st, e.value)]

    def ev_JoinedStr(self, e, st):
        h = getattr(self, "fstring", None)
        if h is None:
            return [(st, StrV())]
        parts = [v.value if isinstance(v, ast.FormattedValue) else v for v in e.values]
        if any(isinstance(v, ast.FormattedValue) and (v.format_spec is not None or v.conversion != -1) for v in e.values):
            return [(st, StrV())]
        return [(s, v if isinstance(v, Raised) else h(self, s, v)) for s, v in self.evs(parts, st)]

    def ev_Name(self, e, st):
        return [(st, self.name(e.id, st))]

    def name(self, n, st):
        if n in st.env:
            v = st.env[n]
            if isinstance(v, Poison):
                raise LoopCarried(n)
            return v
        mod = st.env.get("$mod")
        if mod is not None:
            if n in mod.funcs:
                return FuncV(mod.funcs[n])
            if n in mod.classes:
                return ClassV(mod, mod.classes[n].qual)
            if (mod.rel, n) in getattr(self, "globals", {}):
                return self.globals[(mod.rel, n)]
            if n in mod.imports:
                return self.imported(mod.imports[n])
            if n in mod.consts:
                return self.const(mod, n, mod.consts[n])
        return ExtV("builtins." + n)

    def imported(self, dotted):
        if dotted in self.externals:
            return ExtV(dotted)
        if dotted in getattr(self, "values", {}):
            return self.values[dotted]
        r = self.prog.resolve(dotted)
        if r is None:
            return ExtV(dotted)
        k, o = r
        if k == "mod":
            return ModV(o)
        if k == "func":
            return FuncV(o)
        if k == "class":
            return ClassV(o.mod, o.qual)
        m, node = o
        return self.const(m, dotted, node)

    def const(self, mod, n, node):
        try:
            return ast.literal_eval(node)
        except Exception:
            pass
        if n in self.externals:
            return ExtV(n)
        if n in getattr(self, "values", {}):
            return self.values[n]
        if isinstance(node, ast.Dict) and all(k is not None for k in node.keys):
            st = State()
            st.env = {"$mod": mod}
            r = self.evs(list(node.keys) + list(node.values), st)
            if len(r) == 1 and not isinstance(r[0][1], Raised):
                vs, k = r[0][1], len(node.keys)
                return Cont("dict", [Seg((), True, (a, b)) for a, b in zip(vs[:k], vs[k:])])
        return ConstV(mod, n, node)

    def cls_of(self, cv):
        c = cv.mod.classes[cv.name.split(".")[0]]
        for p in cv.name.split(".")[1:]:
            c = c.inner[p]
        return c

    def ev_Attribute(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            if isinstance(v, Raised):
                out.append((s, v)); continue
            out += self.getattr(v, e.attr, s)
        return out

    def graph_classes(self, v):
        g = self.prog.mod("causy/graph.py").classes
        d = self.prog.mod("causy/edge_types.py").classes.get("DirectedEdge")
        mix = [d.inner["GraphAccessMixin"]] if d and "GraphAccessMixin" in d.inner else []
        return [g[v.kind], g["GraphBaseAccessMixin"]] + mix

    def getattr(self, v, a, st):
        if isinstance(v, Poison):
            raise LoopCarried(v.name)
        if isinstance(v, NodeV):
            if a == "id":
                return [(st, v.id)]
            if a == "name":
                return [(st, name_of(v.id))]
            if a == "values" and getattr(self, "node_values", None):
                return [(st, self.node_values(v))]
            if a in ("values", "metadata"):
                return [(st, ObjV(f"node.{a}", f"node.{a}", {"node": v}))]
        if isinstance(v, EdgeV):
            f = {"deleted": "f_deleted", "edge_type": "f_type", "metadata": "f_meta"}.get(a)
            if f:
                return [(st, z3.Select(self.hget(st, f), v.ref))]
            if a in ("u", "v"):
                return [(st, NodeV(z3.Select(self.hget(st, "f_" + a), v.ref)))]
        if isinstance(v, (GraphV, ManagerV)):
            if isinstance(v, ManagerV) and a == "graph":
                return [(st, GraphV())]
            for c in self.graph_classes(v):
                if a in c.methods:
                    fn = c.methods[a]
                    if "property" in fn.decos:
                        return self.call(FuncV(fn, v), [], {}, st)
                    return [(st, FuncV(fn, v))]
            if isinstance(v, GraphV):
                if a == "nodes":
                    return [(st, NodesD())]
                if a in DICTS:
                    return [(st, OuterD(DICTS[a]))]
                if a == "edge_history":
                    return [(st, HistD())]
                if a == "action_history":
                    return [(st, ObjV("action_history", "action_history"))]
                if a == "__class__":
                    return [(st, ClassV(self.prog.mod("causy/graph.py"), "Graph"))]
            return [(st, Raised("AttributeError"))]
        if isinstance(v, RecV):
            if a in v.fields:
                return [(st, v.fields[a])]
            return [(st, Raised("AttributeError"))]
        if isinstance(v, ObjV):
            key = ("o", v.name, a)
            if key in st.heap:
                return [(st, st.heap[key])]
            if a in v.attrs:
                return [(st, v.attrs[a])]
            h = self.attr_models.get((v.cls, a))
            if h:
                return h(self, st, v)
            if (v.cls, a) in self.obj_methods or (v.name, a) in self.obj_methods:
                return [(st, MethV(v, a))]
            if isinstance(v.cls, Cls):
                fn = self.prog.method(v.cls, a)
                if fn:
                    if any("property" in d for d in fn.decos):
                        return self.call(FuncV(fn, v), [], {}, st)
                    return [(st, FuncV(fn, v))]
                ca = self.prog.class_attr(v.cls, a)
                if ca:
                    s2 = st.copy()
                    s2.env = {"$mod": ca[0].mod}
                    r = self.ev(ca[1], s2)
                    return [(self.back(s, st), x) for s, x in r]
            raise Unsupported(f"attribute {v!r}.{a}")
        if isinstance(v, ModV):
            m = v.mod
            if a in m.funcs:
                return [(st, FuncV(m.funcs[a]))]
            if a in m.classes:
                return [(st, ClassV(m, a))]
            if a in m.consts:
                return [(st, self.const(m, a, m.consts[a]))]
            raise Unsupported(f"module attribute {a}")
        if isinstance(v, ClassV):
            c = self.cls_of(v)
            if is_enum(c):
                if a in c.attrs:
                    return [(st, self.enum_const(c, a))]
            if a in c.inner:
                return [(st, ClassV(v.mod, v.name + "." + a))]
            fn = self.prog.method(c, a)
            if fn:
                return [(st, FuncV(fn))]
            if a == "__name__":
                return [(st, v.name)]
            if (v.name, a) in getattr(self, "class_attrs", {}):
                return [(st, self.class_attrs[(v.name, a)])]
            raise Unsupported(f"class attribute {v.name}.{a}")
        if isinstance(v, ExtV):
            return [(st, ExtV(v.name + "." + a))]
        if isinstance(v, (CRef, Cont, OuterD, InnerD, NodesD, HistD, HistL, str, tuple, StrV)):
            return [(st, MethV(v, a))]
        if isz(v) and v.sort() == Id or isz(v) and v.sort() == R and getattr(self, "numbers", False):
            return [(st, MethV(v, a))]
        if hasattr(v, "attr"):
            return v.attr(self, st, a)
        raise Unsupported(f"attribute {a} of {v!r}")

    def enum_const(self, c, a):
        try:
            val = ast.literal_eval(c.attrs[a])
        except Exception:
            val = None
        return EnumC(c.qual, a, val)

    def back(self, s, st):
        """restore the caller environment after evaluating in another one"""
        s = s.copy()
        s.env = st.env
        return s

    def ev_Subscript(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            if isinstance(v, Raised):
                out.append((s, v)); continue
            if isinstance(e.slice, ast.Slice):
                parts = [x if x is not None else ast.Constant(value=None) for x in (e.slice.lower, e.slice.upper, e.slice.step)]
                for s2, ps in self.evs(parts, s):
                    if isinstance(ps, Raised):
                        out.append((s2, ps)); continue
                    out += self.getslice(v, ps, s2)
                continue
            for s2, k in self.ev(e.slice, s):
                if isinstance(k, Raised):
                    out.append((s2, k)); continue
                out += self.getitem(v, k, s2)
        return out

    def getslice(self, v, ps, st):
        if hasattr(v, "slice"):
            return v.slice(self, st, ps)
        if isinstance(v, str) and all(p is None or isinstance(p, int) for p in ps):
            return [(st, v[slice(*ps)])]
        sg = self.segs(v, st)
        if all(not x.bvs and x.guard is True for x in sg) and all(p is None or isinstance(p, int) for p in ps):
            part = [x.elem for x in sg][slice(*ps)]
            if isinstance(v, tuple):
                return [(st, tuple(part))]
            s = st.copy()
            return [(s, s.new(Cont("list", [Seg((), True, x) for x in part])))]
        if getattr(self, "slice_hook", None):
            return self.slice_hook(self, st, v, ps)
        if all(p is None for p in ps) and isinstance(v, CRef) and st.store[v.oid].kind == "list":
            s = st.copy()           # a copy of the whole list
            return [(s, s.new(Cont("list", sg)))]
        raise Unsupported("slice of a symbolic sequence")

    def getitem(self, v, k, st):
        if isinstance(v, Poison):
            raise LoopCarried(v.name)
        if isinstance(v, NodesD):
            if not self.can_id(k):
                return [(st, Raised("KeyError"))]
            k = self.as_id(k)
            return self.guarded(st, z3.Select(self.hget(st, "nodes"), k), lambda s: NodeV(k), "KeyError")
        if isinstance(v, OuterD):
            k = self.as_id(k)
            return self.guarded(st, z3.Select(self.hget(st, v.name + "_out"), k), lambda s: InnerD(v.name, k), "KeyError")
        if isinstance(v, InnerD):
            k = self.as_id(k)
            return self.guarded(st, self.inner_dom(st, v, k),
                                lambda s: EdgeV(z3.Select(z3.Select(self.hget(s, v.name + "_ref"), v.key), k)), "KeyError")
        if isinstance(v, HistD):
            a, b = self.as_id(k[0]), self.as_id(k[1])
            return self.guarded(st, self.member(k, v, st), lambda s: HistL(a, b), "KeyError")
        if hasattr(v, "item"):
            return v.item(self, st, k)
        if isinstance(v, (CRef, Cont)):
            c = st.store[v.oid] if isinstance(v, CRef) else v
            self.read(c)
            if c.kind == "dict":
                return self.dict_get(c, k, st)
            if isinstance(k, int) and all(not s.bvs and s.guard is True for s in c.segs):
                if -len(c.segs) <= k < len(c.segs):
                    return [(st, c.segs[k].elem)]
                return [(st, Raised("IndexError"))]
            if getattr(self, "index_hook", None):
                return self.index_hook(self, st, c, k)
            raise Unsupported("index into a symbolic list")
        if isinstance(v, (tuple, str)) and isinstance(k, int):
            if -len(v) <= k < len(v):
                return [(st, v[k])]
            return [(st, Raised("IndexError"))]
        if v is None:
            return [(st, Raised("TypeError"))]
        raise Unsupported(f"subscript of {v!r}")

    def dict_get(self, c, k, st, default=("raise", "KeyError")):
        """exact when at most one segment can match; forks over matches, last writer wins"""
        out, rest = [], st
        for s in reversed(c.segs):
            if rest is None:
                break
            cond = Exists(s.bvs, And(s.guard, self.eqv(s.elem[0], k, rest)))
            if cond is False:
                continue
            if s.bvs:
                sg = rename_seg(s)
                yes = rest.copy()
                yes.fresh += list(sg.bvs)
                yes = self.assume(yes, And(sg.guard, self.eqv(sg.elem[0], k, rest)))
                if yes is not None:
                    out.append((yes, sg.elem[1]))
            else:
                yes = self.assume(rest, cond)
                if yes is not None:
                    out.append((yes, s.elem[1]))
            rest = self.assume(rest, Not(cond))
        if rest is not None:
            if default[0] == "raise":
                out.append((rest, Raised(default[1])))
            else:
                out.append((rest, default[1]))
        return out

    def guarded(self, st, cond, val, exc):
        a, b = self.split(st, cond)
        out = []
        if a is not None:
            out.append((a, val(a)))
        if b is not None:
            out.append((b, Raised(exc)))
        return out

    def ev_Tuple(self, e, st):
        out = []
        for s, v in self.evs(e.elts, st):
            if not isinstance(v, Raised) and any(isinstance(x, StarV) for x in v):
                # tuple with symbolically many elements
                s = s.copy()
                sg = []
                for x in v:
                    sg += self.segs(x.v, s) if isinstance(x, StarV) else [Seg((), True, self.keep(x, s))]
                out.append((s, Cont("list", sg)))
            else:
                out.append((s, v if isinstance(v, Raised) else tuple(v)))
        return out

    def ev_List(self, e, st, kind="list"):
        out = []
        for s, v in self.evs(e.elts, st):
            if isinstance(v, Raised):
                out.append((s, v)); continue
            s = s.copy()
            segs = []
            for x in v:
                if isinstance(x, StarV):
                    segs += self.segs(x.v, s)
                else:
                    segs.append(Seg((), True, self.keep(x, s)))
            out.append((s, s.new(Cont(kind, segs))))
        return out

    def keep(self, x, st):
        """value stored in a container: containers are frozen (aliasing is tracked by the frozen flag)"""
        return self.freeze(x, st)

    def ev_Set(self, e, st):
        return self.ev_List(e, st, "set")

    def ev_Dict(self, e, st):
        if not e.keys and getattr(self, "dict_hook", None):
            return self.dict_hook(self, st)
        if any(k is None for k in e.keys):
            return self.unpacked_dict(e, st)
        out = []
        for s, v in self.evs([x for kv in zip(e.keys, e.values) for x in kv], st):
            if isinstance(v, Raised):
                out.append((s, v)); continue
            s = s.copy()
            segs = [Seg((), True, (self.keep(v[i], s), self.keep(v[i + 1], s))) for i in range(0, len(v), 2)]
            out.append((s, s.new(Cont("dict", segs))))
        return out

    def segs_of_dict(self, v, st):
        if hasattr(v, "dict_segs"):
            return v.dict_segs(self, st)
        c = st.store[v.oid] if isinstance(v, CRef) else v
        if not isinstance(c, Cont) or c.kind != "dict":
            raise Unsupported("dict unpacking")
        self.read(c)
        return list(c.segs)

    def unpacked_dict(self, e, st):
        """{**a, k: v, **b}: later entries win"""
        out = []
        for s, v in self.evs([x for k, w in zip(e.keys, e.values) for x in ((w,) if k is None else (k, w))], st):
            if isinstance(v, Raised):
                out.append((s, v)); continue
            s = s.copy()
            segs, base, vs = [], None, list(v)
            for n, k in enumerate(e.keys):
                if k is not None:
                    a, b = vs.pop(0), vs.pop(0)
                    segs.append(Seg((), True, (self.keep(a, s), self.keep(b, s))))
                    continue
                w = vs.pop(0)
                if n == 0 and hasattr(w, "unpack"):
                    base, more = w.unpack(self, s)
                    segs += more
                else:
                    segs += self.segs_of_dict(w, s)
            r = s.new(Cont("dict", segs))
            out.append((s, r if base is None else base(r)))
        return out

    def ev_BoolOp(self, e, st):
        return self.boolop(isinstance(e.op, ast.And), e.values, st)

    def boolop(self, is_and, vals, st):
        if len(vals) == 1:
            return self.ev(vals[0], st)
        out = []
        for s, va in self.ev(vals[0], st):
            if isinstance(va, Raised):
                out.append((s, va)); continue
            t = self.truth(va, s)
            go = t if is_and else Not(t)
            if go is True:
                out += self.boolop(is_and, vals[1:], s); continue
            if go is False:
                out.append((s, va)); continue
            sb = self.assume(s, go)
            if sb is None:
                s0 = self.assume(s, Not(go))
                if s0 is not None:
                    out.append((s0, va if not isbool(va) else (not is_and)))
                continue
            rb = self.boolop(is_and, vals[1:], sb)
            if isbool(va) and all(isbool(v) for _, v in rb) and all(self.same_effects(s, x) for x, _ in rb) and not any(self.open_values(x.fresh[len(s.fresh):]) for x, _ in rb):
                n0 = len(sb.pc) if sb is not s else len(s.pc)
                pre = sb.pc[len(s.pc):]
                acc = Or(*[Exists(x.fresh[len(s.fresh):], And(*x.pc[len(s.pc) + len(pre):], v)) for x, v in rb])
                out.append((s, And(go, acc) if is_and else Or(t, acc)))
                continue
            sn = self.assume(s, Not(go))
            if sn is not None:
                out.append((sn, va if not isbool(va) else (not is_and)))
            out += rb
        return out

    def same_effects(self, a, b):
        """b has the same heap / containers as a (may differ in pc, fresh)"""
        if a is b:
            return True
        if len(a.notes) != len(b.notes):
            return False
        for k, v in a.heap.items():
            w = b.heap.get(k)
            if w is not v and not (isz(v) and isz(w) and v.eq(w)):
                return False
        if len(b.heap) != len(a.heap):
            return False
        for k, c in a.store.items():
            d = b.store.get(k)
            if d is None or len(d.segs) != len(c.segs) or any(x is not y for x, y in zip(c.segs, d.segs)):
                return False
        return True

    def ev_UnaryOp(self, e, st):
        out = []
        for s, v in self.ev(e.operand, st):
            if isinstance(v, Raised):
                out.append((s, v)); continue
            if isinstance(e.op, ast.Not):
                out.append((s, Not(self.truth(v, s))))
            elif isinstance(e.op, ast.USub) and is_num(v):
                out.append((s, -v))
            else:
                h = getattr(v, "unary", None)
                if not h:
                    raise Unsupported("unary operator")
                out.append((s, h(self, s, type(e.op).__name__)))
        return out

    def ev_Compare(self, e, st):
        if len(e.ops) > 1:
            parts = []
            left = e.left
            for op, r in zip(e.ops, e.comparators):
                parts.append(ast.copy_location(ast.Compare(left=left, ops=[op], comparators=[r]), e))
                left = r
            return self.boolop(True, parts, st)
        out = []
        for s, v in self.evs([e.left, e.comparators[0]], st):
            if isinstance(v, Raised):
                out.append((s, v)); continue
            s = s.copy()
            r = self.compare(e.ops[0], v[0], v[1], s)
            out.append((s, r))
        return out

    def compare(self, op, a, b, st):
        o = type(op).__name__
        if o in ("Is", "IsNot"):
            r = self.is_(a, b, st)
            return r if o == "Is" else Not(r)
        if o in ("Eq", "NotEq"):
            r = self.eqv(a, b, st)
            return r if o == "Eq" else Not(r)
        if o in ("In", "NotIn"):
            r = self.member(a, b, st)
            return r if o == "In" else Not(r)
        sym = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[o]
        for x in (a, b):
            if isinstance(x, Poison):
                raise LoopCarried(x.name)
        if isinstance(a, LenV) or isinstance(b, LenV):
            return self.cmp_len(sym, a, b)
        if is_num(a) and is_num(b):
            return pycmp(sym, a, b)
        for x, y, sw in ((a, b, False), (b, a, True)):
            if hasattr(x, "cmp"):
                return x.cmp(self, st, sym, y, sw)
        raise Unsupported(f"comparison {a!r} {sym} {b!r}")

    def is_(self, a, b, st):
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isz(b) or isinstance(b, bool) and isz(a) or (isinstance(a, bool) and isinstance(b, bool)):
                return self.eqv(a, b, st)
            if a is None and b is None:
                return True
            x = b if a is None else a
            if (a is None or b is None):
                if isz(x) and x.sort() in (Meta, EType, Obj):
                    return x == z3.Const(f"py:None:{x.sort()}", x.sort())
                if isinstance(x, Poison):
                    raise LoopCarried(x.name)
                if hasattr(x, "is_none"):
                    return x.is_none(self, st)
                return False
            return False
        if isinstance(a, (EnumC,)) or isinstance(b, EnumC) or hasattr(a, "eq_to") or hasattr(b, "eq_to"):
            return self.eqv(a, b, st)
        if isinstance(a, NodeV) and isinstance(b, NodeV):
            return self.eqv(a, b, st)
        if isinstance(a, CRef) and isinstance(b, CRef):
            return a.oid == b.oid
        if isinstance(a, ClassV) and isinstance(b, ClassV):
            return a.name == b.name
        if isinstance(a, ExtV) and isinstance(b, ExtV) and a.name.startswith("builtins.") and b.name.startswith("builtins."):
            return a.name == b.name
        raise Unsupported(f"identity {a!r} is {b!r}")

    def ev_IfExp(self, e, st):
        out = []
        for s, t in self.ev(e.test, st):
            if isinstance(t, Raised):
                out.append((s, t)); continue
            c = self.truth(t, s)
            a, b = self.split(s, c)
            ra = self.ev(e.body, a) if a is not None else []
            rb = self.ev(e.orelse, b) if b is not None else []
            if len(ra) == 1 and len(rb) == 1 and all(isbool(x[1]) for x in ra + rb) and self.same_effects(s, ra[0][0]) and self.same_effects(s, rb[0][0]) \
                    and len(ra[0][0].fresh) == len(s.fresh) == len(rb[0][0].fresh):
                out.append((s, Or(And(c, ra[0][1]), And(Not(c), rb[0][1])))); continue
            out += ra + rb
        return out

    def ev_BinOp(self, e, st):
        out = []
        for s, v in self.evs([e.left, e.right], st):
            if isinstance(v, Raised):
                out.append((s, v)); continue
            out += self.binop(type(e.op).__name__, v[0], v[1], s)
        return out

    def binop(self, op, a, b, st):
        for x in (a, b):
            if isinstance(x, Poison):
                raise LoopCarried(x.name)
        if hasattr(a, "bin"):
            return a.bin(self, st, op, b, False)
        if hasattr(b, "bin"):
            return b.bin(self, st, op, a, True)
        if isinstance(a, LenV):
            a = self.len_term(a)
        if isinstance(b, LenV):
            b = self.len_term(b)
        if is_num(a) and is_num(b):
            return self.arith(op, a, b, st)
        if op == "Add" and isinstance(a, (CRef, Cont)) and isinstance(b, (CRef, Cont)):
            s = st.copy()
            return [(s, s.new(Cont("list", self.segs(a, st) + self.segs(b, st))))]
        if op == "Add" and isinstance(a, tuple) and isinstance(b, tuple):
            return [(st, a + b)]
        if op == "Sub" and isinstance(a, (CRef, Cont)) and isinstance(b, (CRef, Cont)):
            s = st.copy()
            return [(s, s.new(Cont("set", [Seg(g.bvs, And(g.guard, Not(self.member(g.elem, b, s))), g.elem) for g in map(rename_seg, self.segs(a, s))])))]
        if op == "BitAnd" and isinstance(a, (CRef, Cont)):
            s = st.copy()
            return [(s, s.new(Cont("set", [Seg(g.bvs, And(g.guard, self.member(g.elem, b, s)), g.elem) for g in map(rename_seg, self.segs(a, s))])))]
        if op == "BitOr" and isinstance(a, (CRef, Cont)):
            s = st.copy()
            return [(s, s.new(Cont("set", self.segs(a, s) + self.segs(b, s))))]
        for x, y, sw in ((a, b, False), (b, a, True)):
            if hasattr(x, "str_bin"):
                return x.str_bin(self, st, op, y, sw)
        if op == "Add" and isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)):
            return [(st, a + b if isinstance(a, str) and isinstance(b, str) else StrV())]
        if op == "Mod" and isinstance(a, (str, StrV)):
            return [(st, StrV())]
        raise Unsupported(f"operator {op} on {a!r}, {b!r}")

    def arith(self, op, a, b, st):
        if not isz(a) and not isz(b):
            try:
                r = {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "Div": lambda: a / b,
                     "Pow": lambda: a ** b, "FloorDiv": lambda: a // b, "Mod": lambda: a % b,
                     "LShift": lambda: a << b, "RShift": lambda: a >> b, "BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b}[op]()
            except (KeyError, TypeError, ValueError):
                raise Unsupported(f"arithmetic {op}")
            except ZeroDivisionError:
                return [(st, Raised("ZeroDivisionError"))]
            return [(st, r)]
        if op == "Add":
            return [(st, a + b)]
        if op == "Sub":
            return [(st, a - b)]
        if op == "Mult":
            return [(st, a * b)]
        if op == "Div":
            out = []
            yes, no = self.split(st, b != 0) if isz(b) else (st, None)
            if yes is not None:
                out.append((yes, toreal(a) / toreal(b)))
            if no is not None:
                out.append((no, Raised("ZeroDivisionError")))
            return out
        if op == "Pow" and b == 2:
            return [(st, a * a)]
        if op == "Pow" and b == 0.5:
            h = self.externals.get("math.sqrt")
            if h:
                return h(self, st, [a], {})
        raise Unsupported(f"arithmetic {op}")

    def ev_Lambda(self, e, st):
        return [(st, LambdaV(e, dict(st.env)))]

    def ev_NamedExpr(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            if not isinstance(v, Raised):
                s = s.copy(); s.env[e.target.id] = v
            out.append((s, v))
        return out

    def ev_Await(self, e, st):
        raise Unsupported("await")

    def ev_Starred(self, e, st):
        raise Unsupported("starred expression")

    # comprehensions
    def ev_ListComp(self, e, st):
        return self.comp(e, st, "list")

    def ev_SetComp(self, e, st):
        return self.comp(e, st, "set")

    def ev_GeneratorExp(self, e, st):
        return self.comp(e, st, "list")

    def ev_DictComp(self, e, st):
        return self.comp(e, st, "dict")

    def comp(self, e, st, kind):
        s0 = st.copy()
        ref = s0.new(Cont(kind))
        saved = dict(s0.env)
        own = set().union(*[names_in_target(g.target) for g in e.generators])

        def level(k, s):
            if k == len(e.generators):
                exprs = [e.key, e.value] if kind == "dict" else [e.elt]
                out = []
                for s2, v in self.evs(exprs, s):
                    if isinstance(v, Raised):
                        out.append((s2, ("raise", v))); continue
                    s2 = s2.copy()
                    el = tuple(v) if kind == "dict" else v[0]
                    self.mutate(s2, ref).segs.append(Seg((), True, self.keep(el, s2)))
                    out.append((s2, NORMAL))
                return out
            g = e.generators[k]
            out = []
            for s1, it in self.ev(g.iter, s):
                if isinstance(it, Raised):
                    out.append((s1, ("raise", it))); continue

                src = it.oid if isinstance(it, CRef) else None

                def body(sb, elem, g=g, k=k, src=src):
                    res = []
                    sb, elem = self.thaw(sb, elem, src)
                    for s2, o in self.assign(g.target, elem, sb):
                        if o is not NORMAL:
                            res.append((s2, o)); continue
                        conds = [(s2, True)]
                        for c in g.ifs:
                            nxt = []
                            for s3, ok in conds:
                                if ok is not True:
                                    nxt.append((s3, ok)); continue
                                for s4, v in self.ev(c, s3):
                                    if isinstance(v, Raised):
                                        nxt.append((s4, v)); continue
                                    a, b = self.split(s4, self.truth(v, s4))
                                    if a is not None:
                                        nxt.append((a, True))
                                    if b is not None:
                                        nxt.append((b, False))
                            conds = nxt
                        for s3, ok in conds:
                            if isinstance(ok, Raised):
                                res.append((s3, ("raise", ok)))
                            elif ok is False:
                                res.append((s3, NORMAL))
                            else:
                                res += level(k + 1, s3)
                    return res
                sg = self.segs(it, s1)
                if k == 0 and any(n in s1.env for n in own):
                    # a comprehension has its own variables
                    s1 = s1.copy()
                    s1.env = {n: v for n, v in s1.env.items() if n not in own}
                out += self.loop(s1, sg, body, names_in_target(g.target))
            return out

        res = []
        for s, o in level(0, s0):
            s = s.copy()
            s.env = dict(saved)
            if o is NORMAL:
                if kind == "dict" and getattr(self, "dict_comp_hook", None):
                    res.append(self.dict_comp_hook(self, s, ref))
                else:
                    res.append((s, ref))
            elif o[0] == "raise":
                res.append((s, o[1]))
            else:
                raise Unsupported("abrupt exit in comprehension")
        return res

    # ------------------------------------------------------------ calls
    def ev_Call(self, e, st):
        # ignored calls (logging and user messages): arguments are not evaluated
        root = e.func
        while isinstance(root, ast.Attribute):
            root = root.value
        if isinstance(root, ast.Name) and root.id in self.skip_calls and root.id not in st.env:
            nm = ast.unparse(e.func)
            if nm not in self.externals:
                return [(st, StrV())]
        if isinstance(e.func, ast.Name) and e.func.id in ("any", "all") and e.func.id not in st.env and len(e.args) == 1:
            return self.anyall(e.func.id == "any", e.args[0], st)
        if isinstance(e.func, ast.Name) and e.func.id == "isinstance" and len(e.args) == 2:
            return self.isinstance_(e, st)
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return [(st, SuperV(st.env.get("self"), st.env.get("$cls")))]
        out = []
        for s, f in self.ev(e.func, st):
            if isinstance(f, Raised):
                out.append((s, f)); continue
            kw = [k for k in e.keywords]
            for s2, vs in self.evs(list(e.args) + [k.value for k in kw], s):
                if isinstance(vs, Raised):
                    out.append((s2, vs)); continue
                pos = vs[:len(e.args)] if not any(isinstance(a, ast.Starred) for a in e.args) else vs[:len(vs) - len(kw)]
                kws = {}
                kv = vs[len(vs) - len(kw):] if kw else []
                for k, v in zip(kw, kv):
                    if k.arg is None:
                        c = s2.store[v.oid] if isinstance(v, CRef) else v
                        if isinstance(c, Cont) and all(not g.bvs and g.guard is True and isinstance(g.elem[0], str) for g in c.segs):
                            for g in c.segs:
                                kws[g.elem[0]] = g.elem[1]
                            continue
                        kws["**"] = v
                        continue
                    kws[k.arg] = v
                out += self.call(f, pos, kws, s2, e)
        return out

    def anyall(self, is_any, arg, st):
        out = []
        for s, v in self.ev(arg, st):
            if isinstance(v, Raised):
                out.append((s, v)); continue
            ts = [(g.bvs, g.guard, self.truth(g.elem, s)) for g in self.segs(v, s)]
            if is_any:
                r = Or(*[Exists(b, And(g, t)) for b, g, t in ts])
            else:
                r = And(*[ForAll(b, Implies(g, t)) for b, g, t in ts])
            if self.blocks and isinstance(v, CRef) and s.store[v.oid].gen:
                from .verify import Obl
                self.obls.append(Obl("the generator is consumed to its end", s.pc, Not(r) if is_any else r))
            out.append((s, r))
        return out

    def isinstance_(self, e, st):
        out = []
        for s, v in self.evs(e.args, st):
            if isinstance(v, Raised):
                out.append((s, v)); continue
            x, c = v
            cs = c if isinstance(c, tuple) else (c,)
            out.append((s, Or(*[self.isinst(x, k, s) for k in cs])))
        return out

    def isinst(self, x, c, st):
        n = c.name if isinstance(c, (ClassV, ExtV)) else None
        if n is None:
            raise Unsupported("isinstance class")
        n = n.split(".")[-1]
        if hasattr(x, "isinst"):
            return x.isinst(self, st, n)
        if isinstance(x, NodeV):
            return n in ("Node", "NodeInterface", "BaseModel")
        if isz(x) and x.sort() == Id:
            return n == "str"
        if isz(x) and x.sort() in (I,):
            return n == "int"
        if isz(x) and x.sort() == B:
            return n in ("bool", "int")
        if isinstance(x, str):
            return n == "str"
        if isinstance(x, bool):
            return n in ("bool", "int")
        if isinstance(x, int):
            return n == "int"
        if isinstance(x, float):
            return n == "float"
        if x is None:
            return n == "NoneType"
        if isinstance(x, CRef):
            return n == st.store[x.oid].kind
        if isinstance(x, Cont):
            return n == x.kind
        if isinstance(x, (OuterD, InnerD, NodesD, HistD)):
            return n == "dict"
        if isinstance(x, tuple):
            return n == "tuple"
        if isinstance(x, RecV):
            return n in (x.cls, "BaseModel", x.cls + "Interface")
        if isinstance(x, EdgeV):
            return n in ("Edge", "EdgeInterface")
        if isinstance(x, ObjV) and isinstance(x.cls, Cls):
            return n in [k.qual.split(".")[-1] for k in self.prog.mro(x.cls)]
        raise Unsupported(f"isinstance({x!r}, {n})")

    def call(self, f, args, kws, st, e=None):
        self.burn()
        if isinstance(f, FuncV):
            return self.call_fn(f, args, kws, st)
        if isinstance(f, ExtV):
            n = f.name
            h = self.externals.get(n)
            if h:
                return h(self, st, args, kws)
            from . import builtins_model as bm
            h = bm.BUILTINS.get(n)
            if h:
                return h(self, st, args, kws)
            raise Unsupported(f"external call {n}")
        if isinstance(f, MethV):
            from . import builtins_model as bm
            return bm.method(self, st, f.recv, f.name, args, kws)
        if isinstance(f, ClassV):
            return self.construct(f, args, kws, st)
        if isinstance(f, LambdaV):
            s = st.copy()
            s.env = dict(f.env)
            for a, v in zip(f.node.args.args, args):
                s.env[a.arg] = v
            return [(self.back(s2, st), v) for s2, v in self.ev(f.node.body, s)]
        if hasattr(f, "call"):
            return f.call(self, st, args, kws)
        if isinstance(f, ObjV) and isinstance(f.cls, Cls):
            fn = self.prog.method(f.cls, "__call__")
            if fn:
                return self.call_fn(FuncV(fn, f), args, kws, st)
        raise Unsupported(f"call of {f!r}")

    def construct(self, cv, args, kws, st):
        c = self.cls_of(cv)
        h = self.externals.get("new:" + cv.name)
        if h:
            return h(self, st, args, kws)
        if cv.name in ("DirectedEdge", "UndirectedEdge", "BiDirectedEdge") and not args and not kws:
            return [(st, {"DirectedEdge": ET_DIRECTED, "UndirectedEdge": ET_UNDIRECTED, "BiDirectedEdge": ET_BIDIRECTED}[cv.name])]
        if cv.name == "Edge":
            return self.new_edge(st, kws)
        if cv.name in ("TestResult", "ActionHistoryStep", "Node"):
            s = st.copy()
            fields = {k: self.freeze(v, s) for k, v in kws.items()}
            if cv.name == "TestResult":
                fields.setdefault("data", None)
            return [(s, RecV(cv.name, fields))]
        if any(b in ("Exception", "ValueError") for b in c.bases):
            return [(st, ExcV(cv.name))]
        raise Unsupported(f"construction of {cv.name}")

    def new_edge(self, st, kws):
        s = st.copy()
        r = z3.Const(fresh_name("edge"), Ref)
        s.fresh.append(r)
        s.pc.append(Not(z3.Select(s.heap["alloc"], r)))
        s.heap["alloc"] = z3.Store(s.heap["alloc"], r, True)
        d = kws.get("deleted", False)
        s.heap["f_deleted"] = z3.Store(s.heap["f_deleted"], r, tob(d))
        s.heap["f_type"] = z3.Store(s.heap["f_type"], r, kws["edge_type"])
        m = kws.get("metadata", z3.Const("py:None:Meta", Meta))
        if not (isz(m) and m.sort() == Meta):
            m = self.meta_val(m, s)
        s.heap["f_meta"] = z3.Store(s.heap["f_meta"], r, m)
        s.heap["f_u"] = z3.Store(s.heap["f_u"], r, kws["u"].id)
        s.heap["f_v"] = z3.Store(s.heap["f_v"], r, kws["v"].id)
        return [(s, EdgeV(r))]

    def meta_val(self, m, st):
        if m is None:
            return z3.Const("py:None:Meta", Meta)
        if isinstance(m, (CRef, Cont)):
            sg = self.segs(m, st)
            if not sg:
                return z3.Const("py:{}:Meta", Meta)
        raise Unsupported(f"metadata value {m!r}")

    def bind(self, fn, recv, args, kws, st):
        """bind arguments to parameters; returns [(st, dict)]"""
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        static = "staticmethod" in fn.decos
        if recv is not None and not static:
            args = [recv] + list(args)
        if len(args) > len(names):
            if a.vararg:
                bound[a.vararg.arg] = tuple(args[len(names):])
                args = args[:len(names)]
            else:
                return [(st, Raised("TypeError"))]
        elif a.vararg:
            bound[a.vararg.arg] = ()
        for n, v in zip(names, args):
            bound[n] = v
        extra = {}
        for k, v in kws.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in bound:
                    return [(st, Raised("TypeError"))]
                bound[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                return [(st, Raised("TypeError"))]
        res = [(st, bound)]
        defs = list(zip(names[len(names) - len(a.defaults):], a.defaults)) + \
            [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for n, d in defs:
            if n in bound:
                continue
            s2 = st.copy()
            s2.env = {"$mod": fn.mod}
            r = self.ev(d, s2)
            if len(r) != 1 or isinstance(r[0][1], Raised):
                raise Unsupported("default argument")
            st = self.back(r[0][0], st)
            bound[n] = r[0][1]
        for n in names:
            if n not in bound:
                return [(st, Raised("TypeError"))]
        if a.kwarg:
            c = st.copy()
            bound[a.kwarg.arg] = c.new(Cont("dict", [Seg((), True, (k, self.freeze(v, c))) for k, v in extra.items()]))
            st = c
        return [(st, bound)]

    def call_fn(self, f, args, kws, st):
        fn = f.fn
        for s, b in self.bind(fn, f.recv, args, kws, st):
            if isinstance(b, Raised):
                return [(s, b)]
            con = self.contracts.get(fn.key)
            if con is not None and not (fn.key == self.target and self.depth == 0):
                r = con.apply(self, s, b)
                if r is not None:
                    self.used.add(fn.key)
                    return r
            return self.inline(f, b, s)

    def inline(self, f, bound, st, as_gen=None):
        fn = f.fn
        if self.depth > 12:
            raise Unsupported(f"inlining too deep at {fn.key}")
        if fn.key in self.stack_keys():
            raise Unsupported(f"recursion without contract: {fn.key}")
        if isinstance(fn.node, ast.AsyncFunctionDef) and not getattr(self, "run_async", False):
            raise Unsupported("async function")
        self.inlined.add(fn.key)
        self.depth += 1
        self._stack.append(fn.key)
        try:
            s = st.copy()
            s.env = dict(bound)
            s.env["$mod"] = fn.mod
            s.env["$cls"] = fn.cls
            if f.env:
                s.env = {**f.env, **s.env}
            ysave = s.yields
            if fn.is_gen:
                y = s.new(Cont("list"))
                s.store[y.oid].gen = True
                s.yields = y.oid
            res = []
            for s2, o in self.ex(fn.node.body, s):
                s2 = self.back(s2, st)
                s2.yields = ysave
                if o[0] == "return":
                    res.append((s2, y if fn.is_gen else o[1]))
                elif o is NORMAL:
                    res.append((s2, y if fn.is_gen else None))
                elif o[0] == "raise":
                    res.append((s2, o[1]))
                else:
                    raise Unsupported("break outside loop")
            return self.merge(st, res)
        finally:
            self.depth -= 1
            self._stack.pop()

    _stack = []

    def stack_keys(self):
        return self._stack

    def open_values(self, consts):
        return any(c.get_id() in self.demonic for c in consts)

    def havoc(self, st, *cs):
        """values known only through the facts assumed about them"""
        for c in cs:
            st.fresh.append(c)
            self.demonic[c.get_id()] = c

    def merge(self, st, res):
        """merge the paths of a pure boolean function into one value"""
        if len(res) < 2:
            return res
        if all(isbool(v) for _, v in res) and all(self.same_effects(st, s) for s, _ in res) and not any(self.open_values(s.fresh[len(st.fresh):]) for s, _ in res):
            n, m = len(st.pc), len(st.fresh)
            val = Or(*[Exists(s.fresh[m:], And(*s.pc[n:], v)) for s, v in res if v is not False])
            s = st.copy()
            return [(s, val)]
        return res

    # ------------------------------------------------------------ statements
    def ex(self, stmts, st):
        cur, done = [st], []
        for n, x in enumerate(stmts):
            nxt = []
            for s in cur:
                self.burn()
                m = getattr(self, "ex_" + type(x).__name__, None)
                if m is None:
                    raise Unsupported(f"statement {type(x).__name__} at line {x.lineno}")
                for s2, o in m(x, s):
                    if o is NORMAL:
                        nxt.append(s2)
                    else:
                        done.append((s2, o))
            cur = nxt
            if not cur:
                break
        return done + [(s, NORMAL) for s in cur]

    def ex_Expr(self, x, st):
        v = x.value
        if isinstance(v, ast.Constant):
            return [(st, NORMAL)]
        if isinstance(v, ast.Yield):
            out = []
            for s, r in (self.ev(v.value, st) if v.value else [(st, None)]):
                if isinstance(r, Raised):
                    out.append((s, ("raise", r))); continue
                s = s.copy()
                s.store[s.yields].segs.append(Seg((), True, self.freeze(r, s)))
                out.append((s, NORMAL))
            return out
        if isinstance(v, ast.YieldFrom):
            out = []
            for s, r in self.ev(v.value, st):
                if isinstance(r, Raised):
                    out.append((s, ("raise", r))); continue
                s = s.copy()
                s.store[s.yields].segs += [Seg(g.bvs, g.guard, self.freeze(g.elem, s)) for g in self.segs(r, s)]
                out.append((s, NORMAL))
            return out
        return [(s, ("raise", r) if isinstance(r, Raised) else NORMAL) for s, r in self.ev(v, st)]

    def ex_Pass(self, x, st):
        return [(st, NORMAL)]

    def ex_Import(self, x, st):
        s = st.copy()
        for a in x.names:
            s.env[a.asname or a.name.split(".")[0]] = ExtV(a.name)
        return [(s, NORMAL)]

    def ex_ImportFrom(self, x, st):
        s = st.copy()
        for a in x.names:
            s.env[a.asname or a.name] = self.imported(f"{x.module}.{a.name}")
        return [(s, NORMAL)]

    def ex_Global(self, x, st):
        raise Unsupported("global statement")

    def ex_Assert(self, x, st):
        out = []
        for s, v in self.ev(x.test, st):
            if isinstance(v, Raised):
                out.append((s, ("raise", v))); continue
            a, b = self.split(s, self.truth(v, s))
            if a is not None:
                out.append((a, NORMAL))
            if b is not None:
                out.append((b, ("raise", Raised("AssertionError"))))
        return out

    def ex_FunctionDef(self, x, st):
        s = st.copy()
        fn = Fn(st.env["$mod"], f"<local>.{x.name}", x, None)
        s.env[x.name] = LocalFn(fn)
        return [(s, NORMAL)]

    def ex_ClassDef(self, x, st):
        s = st.copy()
        s.env[x.name] = ObjV("class:" + x.name, "class:" + x.name, {})
        return [(s, NORMAL)]

    def ex_Return(self, x, st):
        if x.value is None:
            return [(st, ("return", None))]
        return [(s, ("raise", v) if isinstance(v, Raised) else ("return", v)) for s, v in self.ev(x.value, st)]

    def ex_Break(self, x, st):
        return [(st, ("break",))]

    def ex_Continue(self, x, st):
        return [(st, ("continue",))]

    def ex_Raise(self, x, st):
        if x.exc is None:
            return [(st, ("raise", Raised("reraise")))]
        e = x.exc
        n = e.func if isinstance(e, ast.Call) else e
        nm = ast.unparse(n).split(".")[-1]
        nm = getattr(self, "exc_name", lambda nm, e: nm)(nm, e)
        return [(st, ("raise", Raised(nm, x.lineno)))]

    def ex_If(self, x, st):
        out = []
        for s, v in self.ev(x.test, st):
            if isinstance(v, Raised):
                out.append((s, ("raise", v))); continue
            a, b = self.split(s, self.truth(v, s))
            if a is not None:
                out += self.ex(x.body, a)
            if b is not None:
                out += self.ex(x.orelse, b) if x.orelse else [(b, NORMAL)]
        return out

    def ex_Assign(self, x, st):
        if all(isinstance(t, ast.Attribute) and t.attr == "__bases__" for t in x.targets):
            self.assumed.add("dynamic mixin bases of Graph are dropped")
            return [(st, NORMAL)]
        out = []
        for s, v in self.ev(x.value, st):
            if isinstance(v, Raised):
                out.append((s, ("raise", v))); continue
            cur = [(s, NORMAL)]
            for t in x.targets:
                nxt = []
                for s2, o in cur:
                    nxt += self.assign(t, v, s2) if o is NORMAL else [(s2, o)]
                cur = nxt
            out += cur
        return out

    def ex_AnnAssign(self, x, st):
        if x.value is None:
            return [(st, NORMAL)]
        out = []
        for s, v in self.ev(x.value, st):
            out += [(s, ("raise", v))] if isinstance(v, Raised) else self.assign(x.target, v, s)
        return out

    def ex_AugAssign(self, x, st):
        out = []
        load = ast.copy_location({ast.Name: lambda t: ast.Name(id=t.id, ctx=ast.Load()),
                                  ast.Attribute: lambda t: ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()),
                                  ast.Subscript: lambda t: ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())}[type(x.target)](x.target), x)
        if isinstance(x.target, ast.Name):
            cur = st.env.get(x.target.id)
            if isinstance(cur, CRef) and isinstance(x.op, (ast.Add, ast.BitOr)):
                for s, v in self.ev(x.value, st):
                    if isinstance(v, Raised):
                        out.append((s, ("raise", v))); continue
                    s = s.copy()
                    self.mutate(s, cur).segs.extend(Seg(g.bvs, g.guard, self.freeze(g.elem, s)) for g in self.segs(v, s))
                    out.append((s, NORMAL))
                return out
        for s, v in self.evs([load, x.value], st):
            if isinstance(v, Raised):
                out.append((s, ("raise", v))); continue
            for s2, r in self.binop(type(x.op).__name__, v[0], v[1], s):
                out += [(s2, ("raise", r))] if isinstance(r, Raised) else self.assign(x.target, r, s2)
        return out

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            s = st.copy()
            s.env[t.id] = v
            return [(s, NORMAL)]
        if isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(k, ast.Starred) for k in t.elts):
                raise Unsupported("starred target")
            if hasattr(v, "unpack"):
                v = v.unpack(self, st, len(t.elts))
            if isinstance(v, tuple):
                vals = list(v)
            else:
                sg = self.segs(v, st)
                if any(g.bvs or g.guard is not True for g in sg):
                    raise Unsupported("unpacking a symbolic collection")
                vals = [g.elem for g in sg]
            if len(vals) != len(t.elts):
                return [(st, ("raise", Raised("ValueError")))]
            cur = [(st, NORMAL)]
            for k, x in zip(t.elts, vals):
                nxt = []
                for s, o in cur:
                    nxt += self.assign(k, x, s) if o is NORMAL else [(s, o)]
                cur = nxt
            return cur
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.ev(t.value, st):
                if isinstance(o, Raised):
                    out.append((s, ("raise", o))); continue
                out += self.setattr(o, t.attr, v, s)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, kv in self.evs([t.value, t.slice], st):
                if isinstance(kv, Raised):
                    out.append((s, ("raise", kv))); continue
                out += self.setitem(kv[0], kv[1], v, s)
            return out
        raise Unsupported("assignment target")

    def setattr(self, o, a, v, st):
        s = st.copy()
        if isinstance(o, EdgeV):
            f = {"deleted": "f_deleted", "edge_type": "f_type", "metadata": "f_meta"}.get(a)
            if f:
                if f == "f_deleted":
                    v = tob(v)
                if f == "f_meta" and not (isz(v) and v.sort() == Meta):
                    v = self.meta_val(v, s)
                if f == "f_type" and not isz(v):
                    raise Unsupported("edge type value")
                s.heap[f] = z3.Store(s.heap[f], o.ref, v)
                return [(s, NORMAL)]
        if isinstance(o, ObjV):
            old = (o.attrs or {}).get(a)
            if hasattr(old, "assign"):
                return old.assign(self, s, v)
            if isinstance(old, (OuterD, InnerD, NodesD, HistD)):
                raise Unsupported(f"replacing {a}")       # its contents are heap components
            s.heap[("o", o.name, a)] = v
            return [(s, NORMAL)]
        if hasattr(o, "set_attr"):
            return o.set_attr(self, s, a, v)
        raise Unsupported(f"attribute assignment {o!r}.{a}")

    def setitem(self, d, k, v, st):
        s = st.copy()
        if isinstance(d, InnerD):
            if not isinstance(v, EdgeV):
                raise Unsupported("non-edge stored in an adjacency map")
            k = self.as_id(k)
            n = d.name
            a = s.heap[n]
            s.heap[n] = z3.Store(a, d.key, z3.Store(z3.Select(a, d.key), k, True))
            r = s.heap[n + "_ref"]
            s.heap[n + "_ref"] = z3.Store(r, d.key, z3.Store(z3.Select(r, d.key), k, v.ref))
            return [(s, NORMAL)]
        if isinstance(d, OuterD):
            k = self.as_id(k)
            if not (isinstance(v, CRef) and s.store[v.oid].kind == "dict" and not s.store[v.oid].segs):
                raise Unsupported("only a new empty dict can be stored as adjacency map")
            c = self.mutate(s, v)
            c.frozen = True     # stored once only: no aliasing between adjacency maps
            s.heap[d.name + "_out"] = z3.Store(s.heap[d.name + "_out"], k, True)
            s.heap[d.name] = z3.Store(s.heap[d.name], k, z3.K(Id, z3.BoolVal(False)))
            return [(s, NORMAL)]
        if isinstance(d, HistD):
            a, b = self.as_id(k[0]), self.as_id(k[1])
            if not (isinstance(v, CRef) and not self.segs(v, s)):
                raise Unsupported("edge history value")
            self.mutate(s, v).frozen = True
            s.heap["H"] = z3.Store(s.heap["H"], a, z3.Store(z3.Select(s.heap["H"], a), b, True))
            s.heap["H_list"] = z3.Store(s.heap["H_list"], a, z3.Store(z3.Select(s.heap["H_list"], a), b, hist_empty))
            return [(s, NORMAL)]
        if isinstance(d, NodesD):
            k = self.as_id(k)
            s.heap["nodes"] = z3.Store(s.heap["nodes"], k, True)
            return [(s, NORMAL)]
        if isinstance(d, CRef):
            c = self.mutate(s, d)
            if c.kind == "dict":
                c.segs.append(Seg((), True, (self.freeze(k, s), self.freeze(v, s))))
                return [(s, NORMAL)]
            if isinstance(k, int) and all(not g.bvs and g.guard is True for g in c.segs) and c.acc is None and -len(c.segs) <= k < len(c.segs):
                c.segs[k] = Seg((), True, self.freeze(v, s))
                return [(s, NORMAL)]
        if hasattr(d, "set_item"):
            return d.set_item(self, s, k, v)
        raise Unsupported(f"item assignment on {d!r}")

    def ex_Delete(self, x, st):
        cur = [(st, NORMAL)]
        for t in x.targets:
            nxt = []
            for s, o in cur:
                if o is not NORMAL:
                    nxt.append((s, o)); continue
                if isinstance(t, ast.Name):
                    s = s.copy(); s.env.pop(t.id, None); nxt.append((s, NORMAL)); continue
                if not isinstance(t, ast.Subscript):
                    raise Unsupported("del target")
                for s2, kv in self.evs([t.value, t.slice], s):
                    if isinstance(kv, Raised):
                        nxt.append((s2, ("raise", kv))); continue
                    nxt += self.delitem(kv[0], kv[1], s2)
            cur = nxt
        return cur

    def delitem(self, d, k, st):
        if isinstance(d, InnerD):
            k = self.as_id(k)
            out = []
            a, b = self.split(st, self.inner_dom(st, d, k))
            if a is not None:
                s = a.copy()
                m = s.heap[d.name]
                s.heap[d.name] = z3.Store(m, d.key, z3.Store(z3.Select(m, d.key), k, False))
                out.append((s, NORMAL))
            if b is not None:
                out.append((b, ("raise", Raised("KeyError"))))
            return out
        if hasattr(d, "del_item"):
            return d.del_item(self, st, k)
        if isinstance(d, CRef):
            s = st.copy()
            c = self.mutate(s, d)
            self.read(c)
            if c.kind == "dict" and all(not g.bvs and g.guard is True for g in c.segs) and all(isinstance(g.elem[0], str) for g in c.segs) and isinstance(k, str):
                if not any(g.elem[0] == k for g in c.segs):
                    return [(st, ("raise", Raised("KeyError")))]
                c.segs = [g for g in c.segs if g.elem[0] != k]
                return [(s, NORMAL)]
            if c.kind == "list" and isinstance(k, int) and all(not g.bvs and g.guard is True for g in c.segs):
                del c.segs[k]
                return [(s, NORMAL)]
        raise Unsupported("del item")

    def ex_With(self, x, st):
        h = self.externals.get("with")
        if h:
            return h(self, st, x)
        cur = [(st, NORMAL)]
        for it in x.items:
            nxt = []
            for s, o in cur:
                if o is not NORMAL:
                    nxt.append((s, o)); continue
                for s2, v in self.ev(it.context_expr, s):
                    if isinstance(v, Raised):
                        nxt.append((s2, ("raise", v))); continue
                    if not hasattr(v, "enter"):
                        raise Unsupported(f"with {v!r}")
                    for s3, w in v.enter(self, s2):
                        nxt += self.assign(it.optional_vars, w, s3) if it.optional_vars is not None else [(s3, NORMAL)]
            cur = nxt
        out = []
        for s, o in cur:
            out += self.ex(x.body, s) if o is NORMAL else [(s, o)]
        return out

    def ex_Try(self, x, st):
        out = []
        for s, o in self.ex(x.body, st):
            if o[0] != "raise":
                if o is NORMAL and x.orelse:
                    out += self.ex(x.orelse, s)
                else:
                    out.append((s, o))
                continue
            exc = o[1].exc
            for h in x.handlers:
                names = ["Exception"] if h.type is None else [ast.unparse(t).split(".")[-1] for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                if any(exc_match(exc, n, self) for n in names):
                    s2 = s.copy()
                    if h.name:
                        s2.env[h.name] = ExcV(exc)
                    for s3, o3 in self.ex(h.body, s2):
                        out.append((s3, o if o3[0] == "raise" and o3[1].exc == "reraise" else o3))
                    break
            else:
                out.append((s, o))
        if x.finalbody:
            fin = []
            for s, o in out:
                for s2, o2 in self.ex(x.finalbody, s):
                    fin.append((s2, o if o2 is NORMAL else o2))
            out = fin
        return out

    def ex_While(self, x, st):
        if self.blocks and self.while_loop:
            return self.while_loop(self, st, x)
        # concrete unrolling while the condition is decided
        cur, out = [st], []
        for _ in range(40):
            nxt = []
            for s in cur:
                for s2, v in self.ev(x.test, s):
                    if isinstance(v, Raised):
                        out.append((s2, ("raise", v))); continue
                    c = self.truth(v, s2)
                    if c is True or (isz(c) and z3.is_true(c)):
                        for s3, o in self.ex(x.body, s2):
                            if o is NORMAL or o[0] == "continue":
                                nxt.append(s3)
                            elif o[0] == "break":
                                out.append((s3, NORMAL))
                            else:
                                out.append((s3, o))
                    elif c is False or (isz(c) and z3.is_false(c)):
                        out += self.ex(x.orelse, s2) if x.orelse else [(s2, NORMAL)]
                    else:
                        if self.while_loop:
                            return self.while_loop(self, st, x)
                        raise Unsupported("while loop with a symbolic condition needs an invariant")
            cur = nxt
            if not cur:
                return out
        raise Unsupported("while loop bound")

    def ex_For(self, x, st):
        out = []
        for s, it in self.ev(x.iter, st):
            if isinstance(it, Raised):
                out.append((s, ("raise", it))); continue

            src = it.oid if isinstance(it, CRef) else None

            def body(sb, elem):
                res = []
                sb, elem = self.thaw(sb, elem, src)
                for s2, o in self.assign(x.target, elem, sb):
                    res += self.ex(x.body, s2) if o is NORMAL else [(s2, o)]
                return res
            names = names_in_target(x.target) | assigned_names(x.body)
            out += self.loop(s, self.segs(it, s), body, names, x)
        return out

    # ------------------------------------------------------------ loops
    def loop(self, st, segs, body, names, node=None):
        cur, done, broke = [st], [], []
        for seg in segs:
            nxt = []
            for s in cur:
                for s2, o in self.loop_seg(s, seg, body, names, node):
                    if o is NORMAL or o[0] == "continue":
                        nxt.append(s2)
                    elif o[0] == "break":
                        broke.append(s2)
                    else:
                        done.append((s2, o))
            cur = nxt
        res = done + [(s, NORMAL) for s in broke]
        orelse = getattr(node, "orelse", None)
        for s in cur:
            res += self.ex(orelse, s) if orelse else [(s, NORMAL)]
        return res

    def loop_seg(self, st, seg, body, names, node):
        if getattr(self, "peel", False) and len(seg.bvs) == 1 and seg.bvs[0].sort() == I:
            try:
                return self.loop_seg1(st, seg, body, names, node)
            except LoopCarried:
                return self.peel_first(st, seg, body, names, node)
        return self.loop_seg1(st, seg, body, names, node)

    def peel_first(self, st, seg, body, names, node):
        """first iteration of a loop over positions 0, 1, ... and then the others"""
        i = seg.bvs[0]
        zero = [(i, z3.IntVal(0))]
        first, rest = subst_val(seg.guard, zero), tob(And(seg.guard, i >= 1))
        if self.feasible_list(st, [z3.Or(z3.And(tob(seg.guard), i < 0), z3.And(tob(seg.guard), z3.Not(tob(first))))]):
            raise LoopCarried("first iteration")
        a, b = self.split(st, first)
        out = [(b, NORMAL)] if b is not None else []
        if a is not None:
            for s, o in body(a, subst_val(seg.elem, zero)):
                if o is NORMAL or o[0] == "continue":
                    out += self.loop_seg1(s, Seg(seg.bvs, rest, seg.elem), body, names, node)
                else:
                    out.append((s, o))
        return out

    def loop_seg1(self, st, seg, body, names, node):
        if not seg.bvs:
            if seg.guard is True:
                return body(st, seg.elem)
            a, b = self.split(st, seg.guard)
            out = body(a, seg.elem) if a is not None else []
            if b is not None:
                out = out + [(b, NORMAL)]
            return out
        if getattr(self, "cont_invs", None) and self._stack and node is not None:
            inv = self.cont_invs.get(self._stack[-1])
            if inv is not None:
                from .reach import cont_loop
                return cont_loop(self, st, seg, body, names, node, inv)
        if getattr(self, "loop_hook", None) and node is not None:
            r = self.loop_hook(self, st, seg, body, names, node)
            if r is not None:
                return r
        seg = rename_seg(seg)
        bvs = list(seg.bvs)
        base = st.copy()
        base.pc.append(tob(seg.guard))
        base.scope += bvs
        if not self.feasible(base):
            return [(st, NORMAL)]
        inplace = aug_only(node) if node is not None else set()
        names = {n for n in names if not (n in inplace and isinstance(st.env.get(n), CRef))}
        carried = [n for n in names if n in st.env and not isinstance(st.env[n], Poison)]
        mutated = set()
        guess = {n: 0 for n in carried}
        snaps = set()
        # run; whenever a container turns out to be mutated, rerun with it marked as accumulator
        for _ in range(30):
            run = base.copy()
            for n in carried:
                self.head_value(run, n, guess[n], bvs)
                if n in snaps and guess[n] == 2:
                    run.store[run.env[n].oid].snap = True
            for oid in mutated:
                c = run.store[oid]
                run.store[oid] = Cont(c.kind, [], acc=oid)
            try:
                paths = body(run, seg.elem)
            except Escaped as e:
                if not self.blocks:
                    raise
                if e.oid in st.store and e.oid not in mutated:
                    mutated.add(e.oid)
                elif any(guess[n] == 2 and isinstance(run.env[n], CRef) and run.env[n].oid == e.oid and n not in snaps for n in carried):
                    snaps |= {n for n in carried if guess[n] == 2}
                else:
                    raise
                continue
            except LoopCarried as e:
                if not (self.blocks and e.what in guess and guess[e.what] < 3):
                    raise
                guess[e.what] += 1 + (guess[e.what] == 1 and not isinstance(st.env[e.what], CRef))
                continue
            bad = [n for n in carried if guess[n] and not self.guess_ok(st, paths, n, guess[n])]
            if bad:
                if any(guess[n] >= 3 for n in bad):
                    raise LoopCarried(bad[0])
                for n in bad:
                    guess[n] += 1 + (guess[n] == 1 and not isinstance(st.env[n], CRef))
                continue
            newmut = set()
            heapmut = False
            for s2, o in paths:
                for oid, c in st.store.items():
                    d = s2.store.get(oid)
                    if oid in mutated or d is None:
                        continue
                    if len(d.segs) != len(c.segs) or any(p is not q for p, q in zip(c.segs, d.segs)) or d.removed != c.removed:
                        newmut.add(oid)
                for k, v in base.heap.items():
                    w = s2.heap.get(k)
                    if w is not v and not (isz(v) and isz(w) and v.eq(w)):
                        if o is NORMAL or o[0] in ("continue", "break"):
                            heapmut = True
                if len(s2.heap) != len(base.heap):
                    heapmut = True
            if heapmut:
                if self.mut_loop:
                    return self.mut_loop(self, st, seg, body, names, node)
                raise Unsupported("loop changes the heap and has no invariant")
            if not newmut:
                break
            mutated |= newmut
        else:
            raise Unsupported("loop analysis did not converge")
        n, m = len(st.pc), len(st.fresh)
        ordered = len(bvs) == 1 and bvs[0].sort() == I
        info = []
        for s2, o in paths:
            info.append((s2, o, [tob(c) for c in s2.pc[n:]], s2.fresh[m:]))
            if self.open_values(s2.fresh[m:]):
                raise Unsupported("loop over a call whose result is not determined by its contract")
        # loop carried membership tests
        mems = [(t, s2) for s2, _, _, _ in info for t in s2.notes[len(st.notes):] if t[0] == "mem"]
        if mems:
            info, mems = self.settle(st, info, mems, bvs)
        if mems:
            raise Unsupported("membership in a collection that grows during the loop")
        normal = [i for i in info if i[1] is NORMAL or i[1][0] == "continue"]
        abrupt = [i for i in info if not (i[1] is NORMAL or i[1][0] == "continue")]
        results = []
        # --- normal completion
        N = st.copy()
        stop = Or(*[Exists(sk, And(*pc)) for _, _, pc, sk in abrupt])
        ok = N
        if abrupt:
            ok = self.assume(N, ForAll(bvs, Not(stop)))
        if ok is not None:
            ok = ok.copy()
            for oid in list(st.store):
                if any(s2.store[oid].stale for s2, _, _, _ in normal if oid in s2.store):
                    ok.store[oid].stale = True
            for oid in mutated:
                if any(s2.store[oid].removed for s2, _, _, _ in normal):
                    raise Unsupported("removal from a collection inside a loop")
                parts = [(pc, sk, s2.store[oid].segs) for s2, o, pc, sk in normal]
                if self.blocks and ordered and ok.store[oid].kind == "list" and sum(len(p[2]) for p in parts) > 1:
                    # what one iteration appends stays together
                    ok.store[oid].segs.append(Seg(bvs, tob(seg.guard), BlockV(bvs, seg.guard, parts)))
                    continue
                for pc, sk, gs in parts:
                    for g in gs:
                        ok.store[oid].segs.append(Seg(bvs + sk + list(g.bvs), tob(And(*pc, g.guard)), g.elem))
            outs = [ok]
            for name in names:
                if name not in carried:
                    for s in outs:
                        s.env[name] = Poison(name)
                    continue
                if guess[name] == 1:
                    continue
                if guess[name] == 2:
                    for s in outs:
                        s.env[name] = s.new(Cont("list"))
                    continue
                if guess[name] == 3:
                    for s in outs:
                        s.env[name] = UnknownV()
                    continue
                writers = [(s2, pc, sk) for s2, o, pc, sk in normal if not isinstance(s2.env.get(name), Poison)]
                old = st.env[name]
                if not writers:
                    continue
                nxt = []
                for s in outs:
                    nxt += self.last_writer(s, name, old, writers, bvs, ordered)
                outs = nxt
            results += [(s, NORMAL) for s in outs]
        # --- abrupt completion: the loop variables are the witness
        kinds = {(o[0], repr(o[1]) if len(o) > 1 and isinstance(o[1], (bool, int, str, type(None))) else id(o)) for _, o, _, _ in abrupt}
        same_exit = len(kinds) == 1
        if not ordered and not same_exit:
            # which exit is taken depends on the iteration order
            for b in bvs:
                self.demonic[b.get_id()] = b
        for s2, o, pc, sk in abrupt:
            A = s2.copy()
            A.scope = list(st.scope)
            A.fresh = st.fresh + bvs + sk
            A.pc = st.pc + pc
            pairs = [(b, z3.Const(fresh_name("prev"), b.sort())) for b in bvs]
            if ordered and same_exit and not mutated and o[0] == "return" and isinstance(o[1], (bool, int, str, type(None))):
                before = pairs[0][1] < bvs[0]      # every exit does the same: which one is first does not matter
            elif ordered:
                before = pairs[0][1] < bvs[0]
                A.pc.append(tob(ForAll([pairs[0][1]], Implies(before, Not(z3.substitute(tob(stop), *pairs))))))
            else:
                bf = z3.Function(fresh_name("before"), *[x.sort() for x in st.scope], *[b.sort() for b in bvs], *[b.sort() for b in bvs], B)
                before = bf(*st.scope, *[p[1] for p in pairs], *bvs)
            for oid in mutated:
                c = st.store[oid].copy()
                for s3, o3, pc3, sk3 in normal:
                    for g in s3.store[oid].segs:
                        c.segs.append(Seg([p[1] for p in pairs] + sk3 + list(g.bvs),
                                          tob(And(before, z3.substitute(tob(And(*pc3, g.guard)), *pairs))), subst_val(g.elem, pairs)))
                c.segs += s2.store[oid].segs
                A.store[oid] = c
            for name in carried:
                if isinstance(A.env.get(name), Poison) and not any(not isinstance(s3.env.get(name), Poison) for s3, _, _, _ in normal):
                    A.env[name] = st.env[name]
            if self.feasible(A):
                results.append((A, o))
        return results

    def settle(self, st, info, mems, bvs):
        """membership tests that are false because no earlier iteration can have added an equal element"""
        done, up = [], []
        pairs = [(b, z3.Const(fresh_name("prev"), b.sort())) for b in bvs]
        for mb in {t[3].get_id(): t[3] for t, _ in mems}.values():
            ts = [(t, s2) for t, s2 in mems if t[3].eq(mb)]
            oid, x = ts[0][0][1:3]
            outer = st.store[oid].acc is not None
            alts = [] if outer else [self.member(x, CRef(oid), st)]
            for s3, o3, pc3, sk3 in info:
                for g in map(rename_seg, s3.store[oid].segs):
                    cond = z3.substitute(tob(And(*pc3, g.guard)), *pairs)
                    alts.append(Exists([p[1] for p in pairs] + sk3 + list(g.bvs),
                                       And(Or(*[p[0] != p[1] for p in pairs]), cond, self.eqv(subst_val(g.elem, pairs), x, st))))
            alts = tob(Or(*alts))
            pcs = [pc for s2, o, pc, sk in info if any(t[0] == "mem" and t[3].eq(mb) for t in s2.notes)]
            if any(self.feasible_list(st, pc + [alts]) for pc in pcs):
                continue
            abrupt = any(occurs(mb, c) for _, o, pc, _ in info if not (o is NORMAL or o[0] == "continue") for c in pc)
            if not outer:
                done.append(mb)
            elif not abrupt:
                up.append(ts[0][0])
        st.notes += up
        if done:
            sub = [(mb, z3.BoolVal(False)) for mb in done]
            out = []
            for s2, o, pc, sk in info:
                pc = [z3.simplify(z3.substitute(c, *sub)) if any(occurs(m, c) for m in done) else c for c in pc]
                if any(z3.is_false(c) for c in pc) or not self.feasible_list(st, pc):
                    continue
                s2 = s2.copy()
                for oid, c in s2.store.items():
                    c.segs = [Seg([b for b in g.bvs if not any(b.eq(m) for m in done)], subst_val(g.guard, sub), subst_val(g.elem, sub)) for g in c.segs] if oid not in st.store or c.segs != st.store[oid].segs else c.segs
                for k, v in list(s2.env.items()):
                    if isz(v):
                        s2.env[k] = z3.substitute(v, *sub)
                out.append((s2, o, pc, [k for k in sk if not any(k.eq(m) for m in done)]))
            info = out
        gone = done + [t[3] for t in up]
        return info, [(t, s2) for t, s2 in mems if not any(t[3].eq(m) for m in gone)]

    def head_value(self, run, n, g, bvs):
        """value of a carried name at the head of an arbitrary iteration: unknown / as before the loop / a new empty list / any opaque value"""
        if g == 0:
            run.env[n] = Poison(n)
        elif g == 2:
            run.env[n] = run.new(Cont("list"))
        elif g == 3:
            run.env[n] = self.any_value(run, n, run.env[n])

    def any_value(self, st, n, old):
        raise LoopCarried(n)

    def guess_ok(self, st, paths, n, g):
        old = st.env[n]
        if g == 2 and not (isinstance(old, CRef) and st.store[old.oid].kind == "list" and not st.store[old.oid].segs and st.store[old.oid].acc is None):
            return False
        for s2, o in paths:
            if not (o is NORMAL or o[0] == "continue"):
                continue
            v = s2.env.get(n)
            if g == 1 and not (v is old or isinstance(v, CRef) and isinstance(old, CRef) and v.oid == old.oid):
                return False
            if g == 2:
                if not isinstance(v, CRef):
                    return False
                c = s2.store[v.oid]
                if c.kind != "list" or c.segs or c.acc is not None or c.frozen or v.oid in st.store:
                    return False
        return True

    def feasible_list(self, st, pc):
        s = st.copy()
        s.pc += pc
        return self.feasible(s)

    def last_writer(self, s, name, old, writers, bvs, ordered):
        vals = [w[0].env[name] for w in writers]
        wrote = Or(*[Exists(sk, And(*pc)) for _, pc, sk in writers])
        if all(isinstance(v, (bool, int, str, type(None))) for v in vals) and len(set(map(repr, vals))) == 1 and isbool(vals[0]) and isbool(old):
            any_ = Exists(bvs, wrote)
            s = s.copy()
            s.env[name] = Or(And(any_, vals[0]), And(Not(any_), old))
            return [s]
        out = []
        none = self.assume(s, ForAll(bvs, Not(wrote)))
        if none is not None:
            none = none.copy(); none.env[name] = old
            out.append(none)
        for s2, pc, sk in writers:
            pairs = [(b, z3.Const(fresh_name("wit"), b.sort())) for b in list(bvs) + list(sk)]
            a = s.copy()
            a.fresh += [p[1] for p in pairs]
            cond = [z3.substitute(c, *pairs) for c in pc]
            if ordered:
                later = z3.Const(fresh_name("later"), I)
                cond.append(tob(ForAll([later], Implies(later > pairs[0][1], Not(z3.substitute(tob(wrote), (bvs[0], later)))))))
            a = self.assume(a, And(*cond))
            if a is not None:
                a = a.copy(); a.env[name] = subst_val(s2.env[name], pairs)
                out.append(a)
        return out


# ---------------------------------------------------------------- small helpers

class StarV:
    def __init__(self, v):
        self.v = v


class UnknownV:
    """a value the loop analysis says nothing about: it may only be passed on"""
    closed = True


class AccV:
    """contents of a list at this point of an iteration: what was there before the loop, what earlier iterations appended, and `local`"""
    def __init__(self, oid, local, scope):
        self.oid, self.local, self.scope = oid, local, scope
    def subst(self, pairs):
        return AccV(self.oid, tuple(Seg(g.bvs, subst_val(g.guard, pairs), subst_val(g.elem, pairs)) for g in self.local), tuple(subst_val(x, pairs) for x in self.scope))


def contents(eng, v, st):
    """contents of a list handed to a call, at the moment of the call"""
    if isinstance(v, CRef):
        c = st.store[v.oid]
        if c.acc is None:
            eng.read(c)
            return Cont(c.kind, [Seg(g.bvs, g.guard, eng.freeze(g.elem, st)) for g in c.segs])
        return eng.freeze(v, st)
    if isinstance(v, AccV):
        c = st.store.get(v.oid)
        if c is None or len(c.segs) != len(v.local) or any(p is not q for p, q in zip(c.segs, v.local)):
            raise Unsupported("list changed between storing and using it")
        return contents(eng, CRef(v.oid), st)
    return eng.freeze(v, st)


class BlockV:
    """what an ordered loop appends: for each value of the index in order, the segments of the path taken"""
    def __init__(self, bvs, guard, paths):
        self.bvs, self.guard, self.paths = bvs, guard, paths
    def subst(self, pairs):
        sg = lambda g: Seg(g.bvs, subst_val(g.guard, pairs), subst_val(g.elem, pairs))
        return BlockV([subst_val(b, pairs) for b in self.bvs], subst_val(self.guard, pairs), [([subst_val(c, pairs) for c in pc], sk, [sg(g) for g in gs]) for pc, sk, gs in self.paths])


class ExcV:
    closed = True
    def __init__(self, name):
        self.name = name
    def attr(self, eng, st, a):
        return [(st, StrV())]
    def truth(self, eng, st):
        return True


class LambdaV:
    def __init__(self, node, env):
        self.node, self.env = node, env


class LocalFn:
    def __init__(self, fn):
        self.fn = fn
    def call(self, eng, st, args, kws):
        return eng.call_fn(FuncV(self.fn, None, {k: v for k, v in st.env.items()}), args, kws, st)


class ConstV:
    """module level constant that is not a literal"""
    closed = True
    def __init__(self, mod, name, node):
        self.mod, self.name, self.node = mod, name, node
    def attr(self, eng, st, a):
        raise Unsupported(f"constant {self.name}.{a}")


class SuperV:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls
    def attr(self, eng, st, a):
        if isinstance(self.cls, Cls):
            for c in eng.prog.mro(self.cls)[1:]:
                if a in c.methods:
                    return [(st, FuncV(c.methods[a], self.obj))]
        return [(st, ExtV("super." + a))]


class EnumC:
    """enum member"""
    closed = True
    def __init__(self, cls, name, val=None):
        self.cls, self.name, self.val = cls, name, val
    def __repr__(self):
        return f"{self.cls}.{self.name}"
    def eq_to(self, eng, st, o):
        if isinstance(o, EnumC):
            return self.cls == o.cls and self.name == o.name
        if isinstance(o, str) and isinstance(self.val, str):
            return self.val == o
        if isz(o) and o.sort() == Obj:
            return o == self.term()
        if hasattr(o, "enum_eq"):
            return o.enum_eq(self)
        if o is None:
            return False
        raise Unsupported(f"enum comparison with {o!r}")
    def term(self):
        return z3.Const(f"enum:{self.cls}.{self.name}", Obj)
    def truth(self, eng, st):
        return True
    def isinst(self, eng, st, n):
        return n in (self.cls, "str", "Enum")
    def attr(self, eng, st, a):
        if a == "name":
            return [(st, self.name)]
        if a == "value" and self.val is not None:
            return [(st, self.val)]
        raise Unsupported("enum attribute")


def is_enum(c):
    return any(b.endswith("Enum") for b in c.bases)


def toreal(x):
    if isz(x):
        return z3.ToReal(x) if x.sort() == I else x
    return z3.RealVal(repr(x) if isinstance(x, float) else x)


def pycmp(op, a, b):
    return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b, "==": lambda: a == b, "!=": lambda: a != b}[op]()


_q = {}


def has_quant(t):
    i = t.get_id()
    if i in _q:
        return _q[i][0]
    todo, seen, r = [t], set(), False
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        todo += x.children()
    _q[i] = (r, t)
    return r


def names_in_target(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def assigned_names(stmts):
    out = set()
    todo = list(stmts)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        todo += list(ast.iter_child_nodes(n))
    return out


def aug_only(loop):
    """names of the loop body that only occur as target of an augmented assignment (in-place for lists and sets)"""
    aug, plain = set(), set(names_in_target(loop.target)) if hasattr(loop, "target") else set()
    for n in ast.walk(loop):
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and isinstance(n.op, (ast.Add, ast.BitOr)):
            aug.add(n.target.id)
        elif isinstance(n, ast.AugAssign):
            plain |= {m.id for m in ast.walk(n.target) if isinstance(m, ast.Name)}
        elif isinstance(n, (ast.Assign, ast.AnnAssign, ast.NamedExpr, ast.For)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                plain |= {m.id for m in ast.walk(t) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)}
    return aug - plain


HIER = {"KeyError": ["LookupError"], "IndexError": ["LookupError"], "ZeroDivisionError": ["ArithmeticError"], "FileNotFoundError": ["OSError"],
        "JSONDecodeError": ["ValueError"]}


def exc_match(exc, name, eng):
    if name in ("Exception", "BaseException") or exc == name:
        return True
    return name in HIER.get(exc, [])
