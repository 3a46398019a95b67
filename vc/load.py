"""Loading data (P20): the nodes created are exactly the columns of the data, each with all of its values in row order.

A data set has columns (a predicate over names), n >= 1 rows and cells; it is given as rows, as columns, or by a loader.  A dictionary of
lists that is built up is modelled as the log of what was put and appended; its value for one name is the projection of the log."""
import z3
from .base import *
from .interp import *
from .verify import Obl, Unit
from .trace import *
from .files import FileV, m_open

DL = "causy/data_loader.py"
GMOD = "causy/graph_model.py"
GR = "causy/graph.py"
column = z3.Function("column", Id, B)
cell = z3.Function("cell", I, Id, Obj)
col = z3.Function("values_of_column", Id, Obj)
N = z3.Const("rows", I)
GOT = z3.Const("$column", Id)


def ident(v):
    return z3.Const("str:" + v, Id) if isinstance(v, str) else v


class Named:
    """a dictionary whose keys are the columns"""
    def value(self, k):
        raise NotImplementedError
    def isinst(self, eng, st, n):
        return n in ("dict", "Dict", "Mapping")
    def is_none(self, eng, st):
        return False
    def truth(self, eng, st):
        k = z3.Const(fresh_name("k"), Id)
        return Exists([k], column(k))
    def contains(self, eng, st, x):
        if not eng.can_id(x):
            return False
        return column(eng.as_id(x))
    def iter_segs(self, eng, st):
        k = z3.Const(fresh_name("k"), Id)
        return [Seg([k], column(k), k)]
    def item(self, eng, st, k):
        if not eng.can_id(k):
            raise Unsupported(f"column {k!r}")
        k = eng.as_id(k)
        return eng.guarded(st, column(k), lambda s: self.value(k), "KeyError")
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name in ("items", "values", "keys") and not args and not kws:
            s = st.copy()
            k = z3.Const(fresh_name("k"), Id)
            el = {"items": (k, self.value(k)), "values": self.value(k), "keys": k}[name]
            return [(s, KeysV() if name == "keys" else Cont("list", [Seg([k], column(k), el)]))]
        if name == "get" and args:
            k = eng.as_id(args[0])
            a, b = eng.split(st, column(k))
            return ([(a, self.value(k))] if a is not None else []) + ([(b, args[1] if len(args) > 1 else None)] if b is not None else [])
        raise Unsupported(f"dict.{name}")


class KeysV(Named):
    """the keys of a row or of the data"""
    closed = True
    def isinst(self, eng, st, n):
        return False
    def item(self, eng, st, k):
        raise Unsupported("index into keys")
    def method(self, eng, st, name, args, kws):
        raise Unsupported(f"keys.{name}")


class Columns(Named):
    closed = True
    def value(self, k):
        return SV(col(k))


class RowV(Named):
    def __init__(self, i):
        self.i = i
    def subst(self, pairs):
        return RowV(z3.substitute(self.i, *pairs) if isz(self.i) else self.i)
    def value(self, k):
        return SV(cell(z3.IntVal(self.i) if isinstance(self.i, int) else self.i, k))


class RowsV:
    closed = True
    def isinst(self, eng, st, n):
        return n in ("list", "List")
    def is_none(self, eng, st):
        return False
    def truth(self, eng, st):
        return N > 0
    def iter_segs(self, eng, st):
        i = z3.Const(fresh_name("i"), I)
        return [Seg([i], z3.And(i >= 0, i < N), RowV(i))]
    def length(self, eng, st):
        return [(st, N)]
    def slice(self, eng, st, ps):
        ps = list(ps) + [None] * (3 - len(ps))
        if type(self) is RowsV and (ps[0] is None or isinstance(ps[0], int) and ps[0] >= 0) and ps[1] is None and ps[2] in (None, 1):
            return [(st, RowsFrom(ps[0] or 0))]
        raise Unsupported("slice of the rows")
    def item(self, eng, st, k):
        if isinstance(k, int) and k >= 0:
            return eng.guarded(st, N > k, lambda s: RowV(k), "IndexError")
        if isinstance(k, int):
            return eng.guarded(st, N >= -k, lambda s: RowV(N + k), "IndexError")
        if isz(k) and k.sort() == I:
            return eng.guarded(st, z3.And(k >= 0, k < N), lambda s: RowV(k), "IndexError")
        raise Unsupported("index of a row")


class RowsFrom(RowsV):
    """rows from a position on"""
    def __init__(self, lo):
        self.lo = lo
    def iter_segs(self, eng, st):
        i = z3.Const(fresh_name("i"), I)
        return [Seg([i], z3.And(i >= self.lo, i < N), RowV(i))]
    def truth(self, eng, st):
        return N > self.lo
    def length(self, eng, st):
        raise Unsupported("length")
    def item(self, eng, st, k):
        raise Unsupported("index")


class DataLoader:
    """a data loader that gives rows, or one row with a dictionary of columns"""
    closed = True
    def __init__(self, how):
        self.how = how
    def isinst(self, eng, st, n):
        return n == "AbstractDataLoader"
    def is_none(self, eng, st):
        return False
    def truth(self, eng, st):
        return True
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name != "load" or args or kws:
            raise Unsupported(f"data loader .{name}")
        if self.how == "rows":
            return [(st, RowsV())]
        return [(st, Cont("list", [Seg((), True, Cont("dict", [Seg((), True, ("_dict", Columns()))]))]))]


# ---------------------------------------------------------------- dictionaries of lists

class LogD:
    """a dictionary of lists that is filled step by step"""
    def __init__(self, puts, log, auto=False):
        self.puts, self.log, self.auto = puts, log, auto
        self.closed = True
    def isinst(self, eng, st, n):
        return n in ("dict", "Dict")
    def contains(self, eng, st, x):
        return eng.member(eng.as_id(x), self.puts, st)
    def iter_segs(self, eng, st):
        return eng.segs(self.puts, st)
    def truth(self, eng, st):
        return eng.nonempty(self.iter_segs(eng, st))
    def set_item(self, eng, s, k, v):
        s = s.copy()
        k = eng.as_id(k)
        eng.mutate(s, self.puts).segs.append(Seg((), True, k))
        eng.mutate(s, self.log).segs.append(Seg((), True, RecV("put", {"key": k, "val": eng.freeze(v, s)})))
        return [(s, NORMAL)]
    def item(self, eng, st, k):
        k = eng.as_id(k)
        if self.auto:
            return [(st, ListRef(self, k))]
        return eng.guarded(st, self.contains(eng, st, k), lambda s: ListRef(self, k), "KeyError")
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name in ("items", "values", "keys") and not args:
            out = []
            for g in self.iter_segs(eng, st):
                r = ListRef(self, g.elem)
                out.append(Seg(g.bvs, g.guard, {"items": (g.elem, r), "values": r, "keys": g.elem}[name]))
            return [(st, Cont("list", out))]
        if name == "get" and len(args) == 1:
            k = eng.as_id(args[0])
            a, b = eng.split(st, self.contains(eng, st, k))
            return ([(a, ListRef(self, k))] if a is not None else []) + ([(b, None)] if b is not None else [])
        raise Unsupported(f"dict.{name}")


class ListRef:
    """the list stored under a key"""
    def __init__(self, d, key):
        self.d, self.key = d, key
    def subst(self, pairs):
        return ListRef(self.d, z3.substitute(self.key, *pairs))
    def isinst(self, eng, st, n):
        return n in ("list", "List")
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name == "append" and len(args) == 1:
            s = st.copy()
            eng.mutate(s, self.d.log).segs.append(Seg((), True, RecV("app", {"key": self.key, "val": eng.freeze(args[0], s)})))
            return [(s, None)]
        if name == "copy" and not args:
            return [(st, self.snap(eng, st))]
        raise Unsupported(f"list.{name}")
    def iter_segs(self, eng, st):
        return project_key(eng, st, self.d, eng.segs(self.d.log, st), self.key)
    def as_container(self, eng, st, kind):
        if kind != "list":
            raise Unsupported("values as a set")
        return [(st, self.snap(eng, st))]
    def snap(self, eng, st):
        return Snap(self.d, list(eng.segs(self.d.log, st)), self.key)


class Snap:
    """the contents of such a list at one moment"""
    def __init__(self, d, segs, key):
        self.d, self.segs, self.key = d, segs, key
    def subst(self, pairs):
        return Snap(self.d, self.segs, z3.substitute(self.key, *pairs))
    def isinst(self, eng, st, n):
        return n in ("list", "List")
    def as_container(self, eng, st, kind):
        return [(st, self)]


def project_log(segs, key):
    """entries of the log for one key: [Seg] with the key variable eliminated"""
    out = []
    for g in segs:
        if isinstance(g.elem, BlockV):
            ps = [(pc, sk, project_log(gs, key)) for pc, sk, gs in g.elem.paths]
            ps = [p for p in ps if p[2]]
            if sum(len(p[2]) for p in ps) > 1:
                raise Mismatch("several entries per iteration")
            for pc, sk, gs in ps:
                out.append(Seg(list(g.bvs) + list(sk) + list(gs[0].bvs), tob(And(*pc, gs[0].guard)), gs[0].elem))
            continue
        g = rename_seg(g)
        k = g.elem.fields["key"]
        hit = [b for b in g.bvs if b.eq(k)]
        if hit:
            pairs = [(hit[0], key)]
            out.append(Seg([b for b in g.bvs if not b.eq(k)], subst_val(g.guard, pairs), subst_val(g.elem, pairs)))
        elif not any(occurs(b, k) for b in g.bvs):
            out.append(Seg(g.bvs, tob(And(g.guard, k == key)), g.elem))
        else:
            raise Mismatch("key of a list entry")
    return out


def sequence(m, s, v, key):
    """(segments of the values in order, obligations emitted) of a value given to add_node"""
    if isinstance(v, Cont):
        if v.kind != "list":
            raise Mismatch("values")
        return v.segs
    if not isinstance(v, Snap):
        raise Mismatch("values")
    log = project_log(v.segs, key)
    puts = [g for g in log if g.elem.cls == "put"]
    apps = [g for g in log if g.elem.cls == "app"]
    if not v.d.auto:
        if not puts or log[0] is not puts[0] or puts[0].bvs:
            raise Mismatch("creation of the list of a column")
        m.ob("every column gets a list", s.pc, tob(puts[0].guard))
    for g in puts:
        l = g.elem.fields["val"]
        if not isinstance(l, Cont) or l.kind != "list" or l.segs:
            raise Mismatch("initial list of a column")
    for g in puts[0 if v.d.auto else 1:]:
        m.ob("the list of a column is never emptied again", s.pc, ForAll(list(g.bvs), Not(g.guard)))
    return [Seg(g.bvs, g.guard, g.elem.fields["val"]) for g in apps]


def rows_in_order(m, s, segs, key):
    """the values are the cells of all rows, in row order"""
    pos = 0
    for n, g in enumerate(segs):
        if not g.bvs:
            m.ob("the values are the cells of the column in row order", s.pc, And(g.guard, same_value(m.eng, s, g.elem, SV(cell(z3.IntVal(pos), key)))))
            pos += 1
            continue
        if len(g.bvs) != 1 or g.bvs[0].sort() != I or n != len(segs) - 1:
            raise Mismatch("values of a column")
        i = g.bvs[0]
        m.ob("every row counts once", s.pc, ForAll([i], Iff(g.guard, And(i >= pos, i < N))))
        si = s.copy()
        si.pc.append(z3.And(i >= pos, i < N))
        m.ob("the values are the cells of the column in row order", si.pc, same_value(m.eng, si, g.elem, SV(cell(i, key))))
        return
    m.ob("every row counts once", s.pc, N == pos)


class GraphC:
    """a new graph"""
    def __init__(self, t):
        self.t = t
        self.closed = True
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name != "add_node":
            raise Unsupported(f"graph.{name}")
        b = bind_args(["name", "values", "id_", "metadata"], args, kws, "add_node")
        s = st.copy()
        v = b["values"]
        v = v.snap(eng, s) if isinstance(v, ListRef) else eng.freeze(v, s)
        event(s, "node", graph=self.t, name=b.get("name"), values=v, id=b.get("id_"), metadata=eng.freeze(b.get("metadata"), s))
        return [(s, SV(skolem(s, "node")))]
    def is_none(self, eng, st):
        return False
    def truth(self, eng, st):
        return True


def new_graph(eng, st, args, kws):
    s = st.copy()
    b = bind_args(["graph_class"], args, kws, "GraphManager")
    t = f"graph{len([g for g in s.store[TR].segs if isinstance(g.elem, RecV) and g.elem.fields.get('kind') == 'graph'])}"
    event(s, "graph", graph=t, cls=b.get("graph_class"))
    return [(s, GraphC(t))]


def new_dict(eng, st):
    s = st.copy()
    return [(s, LogD(s.new(Cont("list")), s.new(Cont("list"))))]


def dict_comp(eng, st, ref):
    """{key: [] for key in keys} is a dictionary of lists that are filled later"""
    c = st.store[ref.oid]
    if c.kind == "dict" and c.segs and all(isinstance(g.elem[1], Cont) and g.elem[1].kind == "list" and not g.elem[1].segs for g in c.segs):
        s = st.copy()
        return s, LogD(s.new(Cont("list", [Seg(g.bvs, g.guard, g.elem[0]) for g in c.segs])),
                       s.new(Cont("list", [Seg(g.bvs, g.guard, RecV("put", {"key": g.elem[0], "val": g.elem[1]})) for g in c.segs])))
    return st, ref


def m_sorted(eng, st, args, kws):
    sg = eng.segs(args[0], st)
    if len(args) != 1 or any(b.sort() == I for g in sg for b in g.bvs) or len([g for g in sg if not g.bvs]) > 1:
        raise Unsupported("sorting an ordered sequence")
    s = st.copy()
    return [(s, s.new(Cont("list", [Seg(g.bvs, g.guard, eng.freeze(g.elem, s) if not isinstance(g.elem, tuple) else g.elem) for g in sg])))]


def defaultdict(eng, st, args, kws):
    if len(args) != 1 or not isinstance(args[0], ExtV) or args[0].name != "builtins.list":
        raise Unsupported("defaultdict")
    s = st.copy()
    return [(s, LogD(s.new(Cont("list")), s.new(Cont("list")), True))]


def load_engine(ctx, fn):
    eng = TraceEngine(ctx, fn.key)
    eng.dict_hook = new_dict
    eng.dict_comp_hook = dict_comp
    eng.peel = True
    eng.externals.update({"new:GraphManager": new_graph, "builtins.sorted": m_sorted, "collections.defaultdict": defaultdict,
                          "builtins.dict": lambda e, s, a, k: new_dict(e, s) if not a and not k else bad("dict(...)")})
    return eng


def bad(what):
    raise Unsupported(what)


def check_nodes(m, s, graph, how):
    """the events of the trace create exactly the nodes of the data on the graph"""
    evs = s.store[TR].segs
    from .wspace import flat
    fl = flat(evs)
    if not isinstance(graph, GraphC):
        raise Mismatch("the graph returned")
    nodes = [g for g in fl if g.elem.fields["kind"] == "node"]
    for g in fl:
        if g.elem.fields["kind"] not in ("node", "graph"):
            raise Mismatch(f"event {g.elem.fields['kind']}")
    here = [g for g in nodes if g.elem.fields["graph"] == graph.t]
    if len(here) != len(nodes):
        raise Mismatch("nodes on another graph")
    made = Or(*[Exists(g.bvs, And(g.guard, eq_id(m, s, g.elem.fields["id"], GOT))) for g in nodes])
    m.ob("every column becomes a node", s.pc, Implies(column(GOT), made))
    for n, g in enumerate(nodes):
        f = g.elem.fields
        si = s.copy()
        if any(b.sort() != Id for b in g.bvs):
            raise Mismatch("nodes created in a loop over the rows")
        si.pc = si.pc + [tob(g.guard)]
        if f["id"] is None or isinstance(f["id"], (StrV, SV)):
            raise Mismatch("id of a node")
        k = ident(f["id"])
        m.ob("only columns become nodes", si.pc, column(k))
        m.ob("the node is named after its column", si.pc, m.eng.eqv(f["name"], f["id"], si))
        for h in map(rename_seg, nodes[:n]):
            m.ob("one node per column", si.pc + [tob(h.guard)], k != ident(h.elem.fields["id"]))
        if g.bvs:
            h = rename_seg(g)
            m.ob("one node per column", si.pc + [tob(h.guard), k == ident(h.elem.fields["id"])], And(*[x == y for x, y in zip(g.bvs, h.bvs)]))
        v = f["values"]
        if how == "columns":
            if isinstance(v, Cont) and v.kind == "list" and len(v.segs) == 1 and len(v.segs[0].bvs) == 1 and v.segs[0].bvs[0].sort() == I:
                i = v.segs[0].bvs[0]
                m.ob("the values are those of the column", si.pc, ForAll([i], Iff(v.segs[0].guard, z3.And(i >= 0, i < seq_len(col(k))))))
                m.ob("the values are those of the column", si.pc + [tob(v.segs[0].guard)], same_value(m.eng, si, v.segs[0].elem, SV(seq_at(col(k), i))))
                continue
            if not isinstance(v, SV):
                raise Mismatch("values of a node")
            m.ob("the values are those of the column", si.pc, same_value(m.eng, si, v, SV(col(k))))
            continue
        rows_in_order(m, si, sequence(m, si, v, k), k)


def eq_id(m, s, a, k):
    if a is None:
        return False
    return m.eng.eqv(a, k, s)


def data_value(how):
    return {"rows": RowsV(), "columns": Columns(), "loader of rows": DataLoader("rows"), "loader of columns": DataLoader("columns")}[how]


def graph_unit(how):
    """create_graph_from_data on each form of the data (private helpers are inlined)"""
    def gen(ctx):
        c, fn = model_class(ctx)
        eng = load_engine(ctx, fn)
        me = ObjV("self", c, {"_graph_class": SV(z3.Const("self._graph_class", Obj)), "graph": SV(z3.Const("self.graph", Obj)), "algorithm": SV(z3.Const("self.algorithm", Obj))})
        st = start(ctx)
        k = z3.Const("k", Id)
        st.pc += [N >= 1, z3.Not(column(ident("_dict")))]
        if how == "loader of columns":
            pass
        ctx.vacuity.append(("data", list(st.pc)))
        m = Match(eng, f"create_graph_from_data({how})")
        for s, v in eng.call_fn(FuncV(fn, me), [data_value(how)], {}, st):
            if isinstance(v, Raised):
                m.ob(f"never raises {v.exc}", s.pc, False)
                continue
            g = s.heap.get(("o", "self", "graph"))
            if not isinstance(g, GraphC):
                raise Mismatch("the graph of the model")
            if v is not None and not isinstance(v, GraphC):
                raise Mismatch("value returned")
            m.ob("the new graph is the graph of the model", s.pc, v is None or v.t == g.t)
            check_nodes(m, s, g, "columns" if "columns" in how else "rows")
        yield from m.out
        ctx.close(eng)
    return Unit(f"create_graph_from_data({how})", gen, keys=[f"{GMOD}:AbstractGraphModel.create_graph_from_data"])


def model_class(ctx, name="create_graph_from_data"):
    for c in ctx.prog.mod(GMOD).classes.values():
        if name in c.methods:
            return c, c.methods[name]
    raise Unsupported(f"{name} not found")


# ---------------------------------------------------------------- the start graph

class NodesM(Named):
    """the nodes of the graph"""
    closed = True
    is_node = z3.Function("is_node", Id, B)
    def contains(self, eng, st, x):
        return self.is_node(eng.as_id(x))
    def iter_segs(self, eng, st):
        k = z3.Const(fresh_name("k"), Id)
        return [Seg([k], self.is_node(k), k)]
    def item(self, eng, st, k):
        k = eng.as_id(k)
        return eng.guarded(st, self.is_node(k), lambda s: NodeV(k), "KeyError")
    def method(self, eng, st, name, args, kws):
        if name not in ("items", "values", "keys") or args:
            raise Unsupported(f"nodes.{name}")
        k = z3.Const(fresh_name("k"), Id)
        return [(st, Cont("list", [Seg([k], self.is_node(k), {"items": (k, NodeV(k)), "values": NodeV(k), "keys": k}[name])]))]


class StartGraph:
    closed = True
    def attr(self, eng, st, a):
        if a == "nodes":
            return [(st, NodesM())]
        if a == "graph":
            return [(st, self)]
        return [(st, MethV(self, a))]
    def is_none(self, eng, st):
        return False
    def method(self, eng, st, name, args, kws):
        if name != "add_edge":
            raise Unsupported(f"graph.{name}")
        b = bind_args(["u", "v", "metadata", "edge_type"], args, kws, "add_edge")
        s = st.copy()
        event(s, "edge", u=b["u"], v=b["v"], metadata=eng.freeze(b.get("metadata"), s), type=b.get("edge_type", ET_UNDIRECTED))
        return [(s, None)]


def edges_unit():
    def gen(ctx):
        c, fn = model_class(ctx, "create_all_possible_edges")
        eng = TraceEngine(ctx, fn.key)
        eng.externals["builtins.sorted"] = m_sorted
        eng.externals["itertools.permutations"] = pairs2(False)
        eng.externals["itertools.combinations"] = pairs2(True)
        me = ObjV("self", c, {"graph": StartGraph()})
        st = start(ctx)
        a, b = z3.Consts("$a $b", Id)
        m = Match(eng, "create_all_possible_edges")
        is_node = NodesM.is_node
        st.pc.append(z3.ForAll([a, b], z3.Implies(name_of(a) == name_of(b), a == b)))     # nodes are named after their columns
        for s, v in eng.call_fn(FuncV(fn, me), [], {}, st):
            if isinstance(v, Raised):
                m.ob(f"never raises {v.exc}", s.pc, False)
                continue
            from .wspace import flat
            evs = flat(s.store[TR].segs)
            made = []
            for g in evs:
                f = g.elem.fields
                if f["kind"] != "edge" or not isinstance(f["u"], NodeV) or not isinstance(f["v"], NodeV):
                    raise Mismatch("edge added")
                u, w = f["u"].id, f["v"].id
                made.append(Exists(g.bvs, And(g.guard, Or(And(u == a, w == b), And(u == b, w == a)))))
                pc = s.pc + [tob(g.guard)]
                m.ob("edges join two different nodes of the graph", pc, And(u != w, is_node(u), is_node(w)))
                md = f["metadata"]
                if not (isinstance(md, Cont) and md.kind == "dict"):
                    raise Mismatch("value of the edge")
                m.ob("edges start without a value", pc, not md.segs)
                if not (isz(f["type"]) and f["type"].sort() == EType):
                    raise Mismatch("edge type")
                m.ob("edges are undirected", pc, f["type"] == ET_UNDIRECTED)
            m.ob("every two different nodes are joined", s.pc, Implies(And(is_node(a), is_node(b), a != b), Or(*made)))
        yield from m.out
        ctx.close(eng)
    return Unit("create_all_possible_edges", gen, keys=[f"{GMOD}:AbstractGraphModel.create_all_possible_edges"])


def pairs2(sym):
    less = z3.Function("position_before", Id, Id, B)
    def h(eng, st, args, kws):
        if len(args) != 2 or args[1] != 2:
            raise Unsupported("combinations")
        sg = eng.segs(args[0], st)
        if len(sg) != 1 or len(sg[0].bvs) != 1 or sg[0].bvs[0].sort() != Id:
            raise Unsupported("combinations")
        x, y = rename_seg(sg[0]), rename_seg(sg[0])
        p, q = x.bvs[0], y.bvs[0]
        s = st.copy()
        g = And(x.guard, y.guard, p != q)
        if sym:
            u, v = z3.Consts("u v", Id)
            s.pc.append(z3.ForAll([u, v], z3.Implies(u != v, less(u, v) != less(v, u))))
            g = And(g, less(p, q))
        return [(s, Cont("list", [Seg([p, q], tob(g), (x.elem, y.elem))]))]
    return h


# ---------------------------------------------------------------- the loaders

class Parsed(SV):
    """a value read from JSON"""
    def subst(self, pairs):
        return Parsed(z3.substitute(self.t, *pairs))
    def iter_segs(self, eng, st):
        i = z3.Const(fresh_name("i"), I)
        return [Seg([i], z3.And(i >= 0, i < seq_len(self.t)), Parsed(seq_at(self.t, i)))]
    def isinst(self, eng, st, n):
        if n not in ("list", "dict"):
            raise Unsupported(f"isinstance {n}")
        return z3.Function("is_" + n, Obj, B)(self.t)


class TextFile(FileV):
    def iter_segs(self, eng, st):
        i = z3.Const(fresh_name("line"), I)
        return [Seg([i], z3.And(i >= 0, i < line_count(self.path)), Line(line_of(self.path, i)))]
    def method(self, eng, st, name, args, kws):
        if name == "readlines" and not args:
            return [(st, Cont("list", self.iter_segs(eng, st)))]
        return FileV.method(self, eng, st, name, args, kws)


class Line(SV):
    def subst(self, pairs):
        return Line(z3.substitute(self.t, *pairs))
    def attr(self, eng, st, a):
        if a in ("strip", "rstrip"):
            return [(st, MethV(self, a))]      # white space around a JSON value does not matter
        return SV.attr(self, eng, st, a)
    def method(self, eng, st, name, args, kws):
        if args or kws:
            raise Unsupported("strip of given characters")
        return [(st, self)]


line_count = z3.Function("number_of_lines", Obj, I)
line_of = z3.Function("line_of", Obj, I, Obj)
json_value = z3.Function("json_value", Obj, Obj)
contents_of = z3.Function("contents_of", Obj, Obj)
is_list, is_dict = z3.Function("is_list", Obj, B), z3.Function("is_dict", Obj, B)


def loader_engine(ctx, fn):
    eng = TraceEngine(ctx, fn.key)
    eng.path_term = lambda v: v.t if isinstance(v, SV) else bad("path")

    def op(e, st, a, k):
        out = m_open(e, st, a, k)
        return [(s, TextFile(f.path)) for s, f in out]
    eng.externals["builtins.open"] = op
    eng.externals["json.loads"] = lambda e, s, a, k: [(s, Parsed(json_value(a[0].t)))] if len(a) == 1 and not k and isinstance(a[0], SV) else bad("json.loads")
    eng.externals["json.load"] = lambda e, s, a, k: [(s, Parsed(json_value(contents_of(a[0].path))))] if len(a) == 1 and not k and isinstance(a[0], FileV) else bad("json.load")
    return eng


def load_unit(cls):
    def gen(ctx):
        c, fn = method_of(ctx, DL, cls, "load")
        eng = loader_engine(ctx, fn)
        ref = z3.Const("self.reference", Obj)
        me = ObjV("self", c, {"reference": SV(ref), "options": SV(z3.Const("self.options", Obj))})
        st = start(ctx)
        data = json_value(contents_of(ref))
        st.pc.append(z3.Not(z3.And(is_list(data), is_dict(data))))
        st.pc += [line_count(ref) >= 0]
        m = Match(eng, f"{cls}.load")
        for s, v in eng.call_fn(FuncV(fn, me), [], {}, st):
            for g in s.store[TR].segs:
                f = g.elem.fields
                if f["kind"] != "open":
                    m.ob("loading only reads", s.pc, False)
                    continue
                m.ob("exactly the referenced file is read", s.pc, And(f["mode"] in ("r", "rt", "rb"), same_value(eng, s, SV(f["path"]), SV(ref))))
            if isinstance(v, Raised):
                m.ob("only data that is neither a list nor a dictionary is refused", s.pc, And(v.exc == "ValueError", z3.Not(is_list(data)), z3.Not(is_dict(data))) if cls == "JSONDataLoader" else False)
                continue
            got = eng.segs(v, s)
            if cls == "JSONLDataLoader":
                i = z3.Const(fresh_name("i"), I)
                want = [Seg([i], z3.And(i >= 0, i < line_count(ref)), Parsed(json_value(line_of(ref, i))))]
                m.ob("every line gives one row, in order", s.pc, same_list(eng, s, got, want))
                continue
            i = z3.Const(fresh_name("i"), I)
            a = s.copy()
            a.pc.append(is_list(data))
            if eng.feasible(a):
                m.ob("every item of a list gives one row, in order", a.pc, same_list(eng, a, got, [Seg([i], z3.And(i >= 0, i < seq_len(data)), Parsed(seq_at(data, i)))]))
            b = s.copy()
            b.pc.append(is_dict(data))
            if eng.feasible(b):
                if len(got) != 1 or got[0].bvs or not isinstance(got[0].elem, Cont) or got[0].elem.kind != "dict" or len(got[0].elem.segs) != 1:
                    raise Mismatch("dictionary of columns")
                key, val = got[0].elem.segs[0].elem
                m.ob("a dictionary is handed over as a whole", b.pc, And(got[0].guard, got[0].elem.segs[0].guard, key == "_dict", same_value(eng, b, val, Parsed(data))))
            d = s.copy()
            d.pc += [z3.Not(is_list(data)), z3.Not(is_dict(data))]
            if eng.feasible(d):
                m.ob("other data is refused", d.pc, False)
        yield from m.out
        ctx.close(eng)
    return Unit(f"{cls}.load", gen, keys=[f"{DL}:{cls}.load"])


class P20Node:
    """add_node as in P02, with the precision of the values"""


def node_unit():
    from . import mutators as mu

    def gen(ctx):
        fn = mu.find(ctx.prog, mu.GM + "add_node")
        eng = ctx.engine(mu.contracts(), fn.key)
        mu.setup(eng)
        seen = []

        def tensor(e, st, args, kws):
            e.assumed.add("torch.tensor(values, dtype=torch.float64) holds exactly these (Python) numbers, in order")
            t = mu.TensorV(args[0])
            t.dtype = kws.get("dtype", args[1] if len(args) > 1 else None)
            if len(args) > 1 or any(k != "dtype" for k in kws):
                raise Unsupported("arguments of torch.tensor")
            return [(st, t)]
        eng.externals["torch.tensor"] = tensor
        st = ctx.start(eng)
        vals, nm, i = mu.ListData(), z3.Const("name", Obj), z3.Const("id_", Id)
        st.pc.append(Not(mu.View(st.heap).node(i)))
        for s, v in eng.call_fn(FuncV(fn, ManagerV()), [nm, vals], {"id_": i}, st):
            if isinstance(v, Raised):
                yield Obl("add_node: never raises on a new id", s.pc, False)
                continue
            if not isinstance(v, NodeV):
                raise Mismatch("node returned")
            ct = getattr(v, "ctor", {})
            t = ct.get("values")
            if not isinstance(t, mu.TensorV):
                raise Mismatch("values of the node")
            yield Obl("add_node: the node has the given id", s.pc, v.id == i)
            yield Obl("add_node: the node has the given name and values", s.pc, bool(ct.get("name") is nm and t.t is vals))
            d = getattr(t, "dtype", None)
            if not isinstance(d, ExtV):
                raise Mismatch("type of the values")
            yield Obl("add_node: the values keep their precision", s.pc, d.name in ("torch.float64", "torch.double"))
        ctx.close(eng)
    return Unit("add_node(values)", gen, keys=[f"{GR}:GraphManager.add_node"])


def p20_units():
    return [graph_unit(h) for h in ("rows", "columns", "loader of rows", "loader of columns")] + [edges_unit(), load_unit("JSONDataLoader"), load_unit("JSONLDataLoader"), node_unit()]
