"""Contracts of the top level commands (P26), of reading results back and of comparing edges (P25).

Files, algorithms, models and graphs are opaque terms; what a command does is its trace."""
import ast, z3
from .base import *
from .interp import *
from .trace import *
from .verify import Obl, Unit
from .vars import attr_of
from .wspace import StrO, term, ModelC, flat
from .files import m_open, FileV
from .load import bad

TOP = "causy/cli.py"
SER = "causy/serialization.py"
INT = "causy/interfaces.py"
CLI = "causy/workspaces/cli.py"
read = z3.Function("json_file", Obj, Obj)
alg_of = z3.Function("algorithm_of", Obj, Obj)
named = z3.Function("algorithm_named", Obj, Obj)
known = z3.Function("is_available", Obj, B)
loader = z3.Function("json_loader", Obj, Obj)
dump, text = z3.Function("model_dump", Obj, Obj), z3.Function("json_text", Obj, Obj)
given = z3.Function("given", Obj, B)
renamed = z3.Function("renamed", Obj, Obj, Obj)


def need(ctx, dotted):
    r = ctx.prog.resolve(dotted)
    if r is None or r[0] != "func":
        raise Unsupported(f"{dotted} not found")
    return r[1].key


class Opt(StrO):
    """an option of a command: a text or not given"""
    def is_none(self, eng, st):
        return Not(given(self.t))
    def truth(self, eng, st):
        return given(self.t)


class Avail:
    closed = True
    def is_none(self, eng, st):
        return False
    def item(self, eng, st, k):
        return eng.guarded(st, known(term(k)), lambda s: ModelC(model_of(named(term(k)))), "KeyError")
    def contains(self, eng, st, k):
        return known(term(k))
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]


def model_of(alg):
    n = f"model:{alg}"
    g = ObjV(n + ".graph", "G")
    return ObjV(n, "Model", {"alg": SV(alg), "graph": ObjV(n + ".manager", "G", {"graph": g}), "_original_algorithm": OrigAlg(alg), "algorithm": SV(z3.Const("resolved_algorithm", Obj))})


class OrigAlg(SV):
    """the algorithm a model was made from, before its variables were resolved"""
    def subst(self, pairs):
        return OrigAlg(z3.substitute(self.t, *pairs))


class Lookup(SV):
    """nodes / edges looked at for printing only"""
    def item(self, eng, st, k):
        return [(st, Lookup(z3.Const("printed", Obj)))]
    def subst(self, pairs):
        return self


def engine(ctx, fn):
    eng = TraceEngine(ctx, fn.key)
    eng.sv_str = True
    eng.path_term = term
    eng.externals["builtins.open"] = m_open
    eng.externals["open"] = m_open
    eng.globals = {(TOP, "AVAILABLE_ALGORITHMS"): Avail()}

    class Read:
        def apply(self, e, s, b):
            return [(s, SV(read(term(b.get("pipeline_file")))))]

    class Spec:
        def apply(self, e, s, b):
            d = b.get("algorithm_dict")
            if not isinstance(d, SV):
                raise Mismatch("definition of the algorithm")
            return [(s, OrigAlg(alg_of(d.t)))]

    class Factory:
        def apply(self, e, s, b):
            a = b.get("algorithm")
            if not isinstance(a, OrigAlg) or b.get("variables") is not None:
                raise Mismatch("graph_model_factory")
            return [(s, ModelC(model_of(a.t)))]
    for d, c in (("causy.serialization.load_json", Read()), ("causy.serialization.load_algorithm_from_specification", Spec()), ("causy.graph_model.graph_model_factory", Factory())):
        eng.contracts[need(ctx, d)] = c

    def mk(kind, names):
        def h(e, s, recv, args, kws):
            b = bind_args(names, args, kws, kind)
            s = s.copy()
            event(s, kind, alg=recv.attrs["alg"].t, **b)
            return [(s, None)]
        return h
    eng.obj_methods[("Model", "create_graph_from_data")] = mk("data", ["data"])
    eng.obj_methods[("Model", "create_all_possible_edges")] = mk("edges", [])
    eng.obj_methods[("Model", "execute_pipeline_steps")] = mk("run", [])
    # what the graph holds depends on how far the model has come: the position in the trace
    at = lambda s, a, o: z3.Function(a + "_after", I, Obj)(z3.IntVal(len(s.store[TR].segs)))
    eng.obj_methods[("G", "retrieve_edges")] = lambda e, s, recv, a, kw: [(s, SV(at(s, "edges", recv)))]
    eng.attr_models[("G", "nodes")] = lambda e, s, o: [(s, Lookup(at(s, "nodes", o)))]
    eng.attr_models[("G", "action_history")] = lambda e, s, o: [(s, SV(at(s, "action_history", o)))]
    eng.attr_models[("G", "edges")] = lambda e, s, o: [(s, Lookup(z3.Const("printed", Obj)))]

    class Printed:
        def apply(self, e, s, b):
            i = z3.Const(fresh_name("i"), I)
            return [(s, Cont("list", [Seg([i], And(i >= 0, i < z3.Const("n_printed", I)), Lookup(z3.Const("printed", Obj)))]))]
    r = ctx.prog.resolve("causy.graph_utils.retrieve_edges")
    if r is not None and r[0] == "func":
        eng.contracts[r[1].key] = Printed()

    def new_loader(e, s, a, k):
        b = bind_args(["reference", "options"], a, k, "JSONDataLoader")
        if b.get("options") is not None:
            raise Mismatch("options of the loader")
        return [(s, SV(loader(term(b.get("reference")))))]
    eng.externals["new:JSONDataLoader"] = new_loader

    def result(e, s, a, kw):
        if a:
            raise Unsupported("Result(...)")
        return [(s, ObjV(fresh_name("result"), "Result", {k: s.store[v.oid] if isinstance(v, CRef) else v for k, v in kw.items()}))]
    eng.externals["new:Result"] = result
    eng.obj_methods[("Result", "model_dump")] = lambda e, s, r, a, k: [(s, RecV("dump:Result", r.attrs))] if not a and not k else bad("model_dump")
    eng.sv_methods["model_dump"] = lambda e, s, r, a, k: [(s, SV(dump(r.t)))] if not a and not k else bad("model_dump")

    def copy_(e, s, r, a, k):
        if a or set(k) - {"update", "deep"}:
            bad("model_copy")
        u = k.get("update")
        c = s.store[u.oid] if isinstance(u, CRef) else u
        if u is None:
            return [(s, r)]
        if not isinstance(c, Cont) or any(g.bvs or g.guard is not True for g in c.segs) or [g.elem[0] for g in c.segs] != ["name"]:
            raise Mismatch("what is changed in the copy")
        return [(s, OrigAlg(renamed(r.t, term(c.segs[0].elem[1]))))]
    eng.sv_methods["model_copy"] = copy_
    eng.sv_methods["get"] = lambda e, s, r, a, k: [(s, Opt(z3.Function("field_" + a[0], Obj, Obj)(r.t)))] if len(a) == 1 and isinstance(a[0], str) and not k else bad("get")
    eng.externals["copy.deepcopy"] = lambda e, s, a, k: [(s, a[0])]

    def dumps(e, s, a, k):
        if len(a) != 1 or set(k) - {"cls", "indent", "ensure_ascii"}:
            bad("json.dumps")
        if isinstance(a[0], (SV, RecV)):
            return [(s, Text(a[0]))]
        bad("json.dumps")
    eng.externals["json.dumps"] = dumps

    def jdump(e, s, a, k):
        if len(a) != 2 or not isinstance(a[1], FileV) or set(k) - {"cls", "indent", "ensure_ascii"} or not isinstance(a[0], (SV, RecV)):
            bad("json.dump")
        s = s.copy()
        event(s, "write", path=a[1].path, data=Text(a[0]))
        return [(s, None)]
    eng.externals["json.dump"] = jdump
    return eng


class Text:
    closed = True
    def __init__(self, v):
        self.v = v
    def subst(self, pairs):
        return Text(subst_val(self.v, pairs))


def execute_unit():
    def gen(ctx):
        fn = ctx.prog.mod(TOP).funcs["execute"]
        eng = engine(ctx, fn)
        f, p, a, o = [Opt(z3.Const(n, Obj)) for n in ("data_file", "pipeline", "algorithm", "output_file")]
        st = start(ctx)
        st.pc += [given(f.t), z3.Const("n_printed", I) >= 0]
        ctx.vacuity.append(("a pipeline", st.pc + [given(p.t)]))
        m = Match(eng, "execute")
        for s, v in eng.call_fn(FuncV(fn), [f], {"pipeline": p, "algorithm": a, "output_file": o, "log_level": "ERROR"}, st):
            evs = flat(s.store[TR].segs)
            kinds = [g.elem.fields["kind"] for g in evs]
            ok = Or(given(p.t), And(given(a.t), known(a.t)))
            if isinstance(v, Raised):
                m.ob("fails only without a pipeline and a known algorithm", s.pc, Not(ok))
                m.ob("nothing is written when it fails", s.pc, not any(k in ("open", "write") for k in kinds))
                continue
            m.ob("runs only with a pipeline or a known algorithm", s.pc, ok)
            if any(g.bvs or g.guard is not True for g in evs):
                raise Mismatch("trace of execute")
            work = [k for k in kinds if k in ("data", "edges", "run")]
            for k, txt in (("data", "the data is loaded"), ("edges", "the start graph is built"), ("run", "the pipeline runs")):
                if k not in work:
                    m.ob(txt, s.pc, False)
            if sorted(work) != ["data", "edges", "run"]:
                if set(work) == {"data", "edges", "run"}:
                    raise Mismatch("trace of execute")
                continue
            m.ob("the data is loaded first, then the start graph is built, then the pipeline runs", s.pc, work == ["data", "edges", "run"])
            alg = z3.If(given(p.t), alg_of(read(p.t)), named(a.t))
            for g in evs:
                h = g.elem.fields
                if h["kind"] == "data":
                    if not isinstance(h.get("data"), SV):
                        raise Mismatch("data")
                    m.ob("the data of the given file is used", s.pc, h["data"].t == loader(f.t))
                if h["kind"] in ("data", "edges", "run"):
                    m.ob("the given pipeline or algorithm is executed", s.pc, h["alg"] == alg)
            n = kinds.index("run") + 1
            writes = [g.elem.fields for g in evs if g.elem.fields["kind"] == "write"]
            opens = [g.elem.fields for g in evs if g.elem.fields["kind"] == "open"]
            m.ob("a file is written exactly if one is asked for", s.pc, Iff(given(o.t), bool(writes)))
            for h in opens:
                m.ob("only the output file is opened", s.pc, h["path"] == o.t)
                if not isinstance(h["mode"], str):
                    raise Mismatch("mode")
                m.ob("the file is replaced, not appended to", s.pc, h["mode"].startswith("w"))
            if len(writes) > 1:
                raise Mismatch("several writes")
            for h in writes:
                d = h["data"]
                if not isinstance(d, Text) or not isinstance(d.v, RecV) or d.v.cls != "dump:Result":
                    raise Mismatch("data written")
                m.ob("the result is written to the output file", s.pc, h["path"] == o.t)
                r = d.v.fields
                if set(r) - {"algorithm", "action_history", "edges", "nodes", "variables", "created_at", "data_loader_hash", "algorithm_hash", "variables_hash"}:
                    raise Mismatch("fields of the result")
                for k in ("nodes", "edges", "action_history"):
                    x = r.get(k)
                    if x is None:
                        m.ob(f"the result carries the {k} of the graph after the run", s.pc, False)
                        continue
                    if not isinstance(x, SV):
                        raise Mismatch(k)
                    i = z3.Const("$i", I)
                    fn_ = z3.Function(k + "_after", I, Obj)
                    m.ob(f"the result carries the {k} of the graph after the run", s.pc, Or(*[x.t == fn_(z3.IntVal(j)) for j in range(n, len(kinds) + 1)]))
                ref = r.get("algorithm")
                ref = fields_of(ref)
                m.ob("the result names what was executed", s.pc, ref_ok(eng, s, ref, p, a))
        yield from m.out
        ctx.close(eng)
    return Unit("cli.execute", gen, keys=[f"{TOP}:execute"])


def fields_of(x):
    if isinstance(x, Cont) and x.kind == "dict":
        out = {}
        for g in x.segs:
            if g.bvs or g.guard is not True or not isinstance(g.elem[0], str):
                raise Mismatch("reference")
            out[g.elem[0]] = g.elem[1]
        x = out
    elif isinstance(x, RecV) and x.cls == "AlgorithmReference":
        x = x.fields
    else:
        raise Mismatch("reference")
    if set(x) != {"type", "reference"}:
        raise Mismatch("reference")
    return x


def ref_ok(eng, s, ref, p, a):
    t, r = ref["type"], ref["reference"]
    if not isinstance(r, StrO):
        raise Mismatch("reference")
    k = kind_of(t)
    if k == "FILE":
        return And(given(p.t), r.t == p.t)
    if k == "NAME":
        return And(Not(given(p.t)), r.t == a.t)
    return False


def kind_of(t):
    n = getattr(t, "name", None) or (t if isinstance(t, str) else None)
    n = str(n).split(".")[-1].upper() if n is not None else None
    if n not in ("FILE", "NAME", "PYTHON_MODULE"):
        raise Mismatch("type of the reference")
    return n


def eject_unit():
    def gen(ctx):
        fn = ctx.prog.mod(TOP).funcs["eject"]
        eng = engine(ctx, fn)
        a, o = Opt(z3.Const("algorithm", Obj)), Opt(z3.Const("output_file", Obj))
        st = start(ctx)
        st.pc += [given(a.t), given(o.t)]
        m = Match(eng, "eject")
        for s, v in eng.call_fn(FuncV(fn), [a, o], {}, st):
            evs = flat(s.store[TR].segs)
            kinds = [g.elem.fields["kind"] for g in evs]
            if isinstance(v, Raised):
                m.ob("fails only for unknown algorithms", s.pc, Not(known(a.t)))
                m.ob("nothing is written when it fails", s.pc, not any(k in ("open", "write") for k in kinds))
                continue
            m.ob("runs only for known algorithms", s.pc, known(a.t))
            if any(g.bvs or g.guard is not True for g in evs) or set(kinds) - {"open", "write"}:
                raise Mismatch("trace of eject")
            writes = [g.elem.fields for g in evs if g.elem.fields["kind"] == "write"]
            if len(writes) > 1:
                raise Mismatch("several writes")
            m.ob("the algorithm is written", s.pc, bool(writes))
            for h in writes:
                d = h["data"]
                if not isinstance(d, Text) or not isinstance(d.v, SV):
                    raise Mismatch("data written")
                m.ob("it is written to the output file", s.pc, h["path"] == o.t)
                m.ob("the algorithm is written with its variable references", s.pc, Or(d.v.t == dump(renamed(named(a.t), a.t)), d.v.t == dump(named(a.t))))
        yield from m.out
        ctx.close(eng)
    return Unit("cli.eject", gen, keys=[f"{TOP}:eject"])


def load_json_unit():
    """load_json: the value of exactly the file named, read and not written"""
    def gen(ctx):
        r = ctx.prog.resolve("causy.serialization.load_json")
        fn = r[1] if r is not None and r[0] == "func" else None
        if fn is None:
            raise Unsupported("load_json not found")
        eng = TraceEngine(ctx, fn.key)
        eng.sv_str = True
        eng.path_term = term
        contents = z3.Function("contents_of", Obj, Obj)
        parsed = z3.Function("json_value", Obj, Obj)
        eng.externals["builtins.open"] = eng.externals["open"] = m_open
        eng.externals["json.loads"] = lambda e, s, a, k: [(s, SV(parsed(a[0].t)))] if len(a) == 1 and not k and isinstance(a[0], SV) else bad("json.loads")
        eng.externals["json.load"] = lambda e, s, a, k: [(s, SV(parsed(contents(a[0].path))))] if len(a) == 1 and not k and isinstance(a[0], FileV) else bad("json.load")
        st = start(ctx)
        p = z3.Const("pipeline_file", Obj)
        for s, v in eng.call_fn(FuncV(fn), [SV(p)], {}, st):
            if isinstance(v, Raised):
                yield Obl(f"load_json: never raises {v.exc} by itself", s.pc, False)
                continue
            if not isinstance(v, SV):
                raise Unsupported("value of load_json")
            yield Obl("load_json: the value is that of the file named", s.pc, v.t == parsed(contents(p)))
        ctx.close(eng)
    return Unit("load_json", gen, keys=[f"{SER}:load_json"])


def p26_units():
    return [execute_unit(), eject_unit(), load_json_unit()]


# ---------------------------------------------------------------- P25
ETY = "causy/edge_types.py"
WANT = {"DirectedEdge": ("DIRECTED", True, "-->", "<--"), "UndirectedEdge": ("UNDIRECTED", False, "---", "---"), "BiDirectedEdge": ("BIDIRECTED", False, "<->", "<->")}


def lit(prog, cls, name):
    """value of a class attribute, following X.Y.name of an enumeration"""
    ca = prog.class_attr(cls, name)
    if ca is None:
        raise Unsupported(f"attribute {name} of {cls.qual}")
    e = ca[1]
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.Attribute) and e.attr in ("name", "value") and isinstance(e.value, ast.Attribute) and isinstance(e.value.value, ast.Name):
        enum = prog.mod(ETY).classes.get(e.value.value.id)
        if enum is not None and e.value.attr in enum.attrs:
            return e.value.attr if e.attr == "name" else ast.literal_eval(enum.attrs[e.value.attr])
    raise Unsupported(f"attribute {name} of {cls.qual}")


def types_unit():
    def gen(ctx):
        mod = ctx.prog.mod(ETY)
        table = mod.consts.get("EDGE_TYPES")
        if not isinstance(table, ast.Dict):
            raise Unsupported("EDGE_TYPES")
        out = {}
        for k, v in zip(table.keys, table.values):
            if not isinstance(v, ast.Name) or v.id not in mod.classes:
                raise Unsupported("EDGE_TYPES")
            if isinstance(k, ast.Attribute) and k.attr == "name" and isinstance(k.value, ast.Call) and isinstance(k.value.func, ast.Name) and not k.value.args and not k.value.keywords:
                key = lit(ctx.prog, mod.classes[k.value.func.id], "name")
            elif isinstance(k, ast.Constant):
                key = k.value
            else:
                raise Unsupported("EDGE_TYPES")
            out[key] = v.id
        for n, (name, directed, text_, _) in WANT.items():
            yield Obl(f"edge types: {n} is read back as itself", [], z3.BoolVal(out.get(lit(ctx.prog, mod.classes[n], "name")) == n))
            yield Obl(f"edge types: {n} is {'directed' if directed else 'not directed'}", [], z3.BoolVal(lit(ctx.prog, mod.classes[n], "IS_DIRECTED") is directed))
            yield Obl(f"edge types: {n} is shown as {text_}", [], z3.BoolVal(lit(ctx.prog, mod.classes[n], "STR_REPRESENTATION") == text_))
    return Unit("edge types", gen, keys=[])


class TypeV(SV):
    """type of an edge"""
    def attr(self, eng, st, a):
        if a == "IS_DIRECTED":
            return [(st, z3.Function("is_directed", Obj, B)(self.t))]
        return SV.attr(self, eng, st, a)
    def subst(self, pairs):
        return TypeV(z3.substitute(self.t, *pairs))


def edge_v(ctx, n):
    c = ctx.prog.mod(INT).classes["EdgeInterface"]
    return ObjV(n, c, {"u": SV(z3.Const(n + ".u", Obj)), "v": SV(z3.Const(n + ".v", Obj)), "edge_type": TypeV(z3.Const(n + ".type", Obj)), "metadata": SV(z3.Const(n + ".metadata", Obj))})


def eq_unit():
    def gen(ctx):
        mod = ctx.prog.mod(INT)
        cls = mod.classes["EdgeInterface"]
        fn = ctx.prog.method(cls, "__eq__")
        if fn is None:
            raise Unsupported("EdgeInterface.__eq__")
        for other in (edge_v(ctx, "b"), None):
            eng = TraceEngine(ctx, fn.key)
            a = edge_v(ctx, "a")
            m = Match(eng, "EdgeInterface.__eq__")
            for s, v in eng.call_fn(FuncV(fn, a), [other], {}, start(ctx)):
                if isinstance(v, Raised):
                    m.ob("never raises", s.pc, False)
                    continue
                r = eng.truth(v, s)
                if other is None:
                    m.ob("an edge is never equal to no edge", s.pc, Not(r))
                    continue
                A, X = a.attrs, other.attrs
                same = And(A["u"].t == X["u"].t, A["v"].t == X["v"].t)
                swap = And(A["u"].t == X["v"].t, A["v"].t == X["u"].t)
                want = And(A["edge_type"].t == X["edge_type"].t, Or(same, And(Not(z3.Function("is_directed", Obj, B)(A["edge_type"].t)), swap)))
                m.ob("equal only if type and ends agree", s.pc, Implies(r, want))
                m.ob("equal if type and ends agree", s.pc, Implies(want, r))
            yield from m.out
            ctx.close(eng)
    return Unit("EdgeInterface.__eq__", gen, keys=[f"{INT}:EdgeInterface.__eq__", f"{INT}:EdgeInterface.is_connection_between_same_nodes"])


def repr_unit():
    def gen(ctx):
        fn = ctx.prog.mod(CLI).funcs.get("_edge_representation")
        if fn is None:
            raise Unsupported("_edge_representation")
        mod = ctx.prog.mod(ETY)
        for n, (name, directed, fwd, back) in WANT.items():
            for flip in (False, True):
                eng = TraceEngine(ctx, fn.key)
                eng.sv_str = True
                c = mod.classes[n]
                t = ObjV("t", "EdgeType", {"name": lit(ctx.prog, c, "name"), "IS_DIRECTED": lit(ctx.prog, c, "IS_DIRECTED"), "STR_REPRESENTATION": lit(ctx.prog, c, "STR_REPRESENTATION")})
                x, y = [ObjV(k, "N", {"name": StrO(z3.Const(k + ".name", Obj)), "id": StrO(z3.Const(k + ".id", Obj))}) for k in "xy"]
                e = ObjV("e", "E", {"u": x, "v": y, "edge_type": t})
                r = ObjV("r", "E", {"u": y if flip else x, "v": x if flip else y, "edge_type": SV(z3.Const("r.type", Obj))})
                st = start(ctx)
                st.pc += [x.attrs["name"].t != y.attrs["name"].t, x.attrs["id"].t != y.attrs["id"].t]
                m = Match(eng, f"_edge_representation ({n}, {'reversed' if flip else 'in the direction of the row'})")
                for s, v in eng.call_fn(FuncV(fn), [e, r], {}, st):
                    if isinstance(v, Raised):
                        m.ob("never raises", s.pc, False)
                        continue
                    if not isinstance(v, str):
                        raise Mismatch("text")
                    m.ob("the edge is shown in the direction of the row", s.pc, v == (back if flip else fwd))
                yield from m.out
                ctx.close(eng)
    return Unit("_edge_representation", gen, keys=[f"{CLI}:_edge_representation"])


class StoredD:
    """the dictionary read from a result file"""
    closed = True
    def item(self, eng, st, k):
        if k == "edges":
            return [(st, StoredEdges())]
        if k == "algorithm" and not any(g.elem.fields["kind"] == "algorithm" for g in st.store[TR].segs):
            return [(st, SV(z3.Const("stored_algorithm", Obj)))]
        raise Unsupported(f"key {k}")
    def set_item(self, eng, st, k, v):
        if k != "algorithm":
            raise Unsupported(f"key {k}")
        s = st.copy()
        event(s, "algorithm", value=v)
        return [(s, NORMAL)]


class StoredEdges:
    closed = True
    def iter_segs(self, eng, st):
        i = z3.Const(fresh_name("i"), I)
        return [Seg([i], z3.And(i >= 0, i < z3.Const("n_edges", I)), StoredEdge(i))]
    def length(self, eng, st):
        return [(st, z3.Const("n_edges", I))]
    def item(self, eng, st, k):
        return [(st, StoredEdge(k if isz(k) else z3.IntVal(k)))]
    def is_none(self, eng, st):
        return False


class StoredEdge:
    def __init__(self, i):
        self.i = i
    def subst(self, pairs):
        return StoredEdge(z3.substitute(self.i, *pairs))
    def item(self, eng, st, k):
        if k != "edge_type":
            raise Unsupported(f"key {k}")
        return [(st, StoredType(self.i))]
    def set_item(self, eng, st, k, v):
        if k != "edge_type" or not isinstance(v, MadeType):
            raise Mismatch("what is stored in the edge")
        s = st.copy()
        event(s, "type", at=self.i, cls=v.cls, src=v.src)
        return [(s, NORMAL)]


name_at = z3.Function("type_name", I, Obj)


class StoredType:
    def __init__(self, i):
        self.i = i
    def subst(self, pairs):
        return StoredType(z3.substitute(self.i, *pairs))
    def item(self, eng, st, k):
        if k != "name":
            raise Unsupported(f"key {k}")
        return [(st, SV(name_at(self.i)))]


class MadeType:
    def __init__(self, cls, src):
        self.cls, self.src = cls, src
    def subst(self, pairs):
        return MadeType(z3.substitute(self.cls, *pairs), z3.substitute(self.src, *pairs))


class TypeC:
    def __init__(self, n):
        self.n = n
    def subst(self, pairs):
        return TypeC(z3.substitute(self.n, *pairs))
    def call(self, eng, st, args, kws):
        src = kws.get("**")
        if args or set(kws) != {"**"} or not isinstance(src, StoredType):
            raise Mismatch("how the type is made")
        return [(st, MadeType(self.n, src.i))]


class TypesTable:
    closed = True
    def item(self, eng, st, k):
        return [(st, TypeC(term(k)))]
    def contains(self, eng, st, k):
        return True


def enum_(eng, st, args, kws):
    from . import builtins_model as bm
    if len(args) == 1 and isinstance(args[0], StoredEdges) and not kws:
        g, = args[0].iter_segs(eng, st)
        return [(st, Cont("list", [Seg(g.bvs, g.guard, (g.bvs[0], g.elem))]))]
    return bm._enumerate(eng, st, args, kws)


def read_unit():
    def gen(ctx):
        fn = ctx.prog.mod(SER).funcs["deserialize_result"]
        eng = TraceEngine(ctx, fn.key)
        eng.sv_str = True
        eng.globals = {(SER, "EDGE_TYPES"): TypesTable(), (ETY, "EDGE_TYPES"): TypesTable()}
        eng.externals["builtins.enumerate"] = eng.externals["enumerate"] = enum_

        def ref(e, s, a, k):
            src = k.get("**")
            if a or set(k) != {"**"} or not isinstance(src, SV):
                raise Mismatch("AlgorithmReference(...)")
            return [(s, SV(z3.Function("reference", Obj, Obj)(src.t)))]
        eng.externals["new:AlgorithmReference"] = ref

        class Adapter:
            closed = True
            def __init__(self, k):
                self.k = k
            def attr(self, e, s, a):
                return [(s, MethV(self, a))]
            def method(self, e, s, name, a, k):
                if name != "validate_python" or len(a) != 1 or k or not isinstance(a[0], StoredD):
                    raise Mismatch("validation of the result")
                s = s.copy()
                event(s, "validate")
                return [(s, SV(z3.Function("read_as", Obj, Obj)(self.k)))]
        eng.externals["pydantic.TypeAdapter"] = lambda e, s, a, k: [(s, Adapter(a[0].t))] if len(a) == 1 and isinstance(a[0], SV) else bad("TypeAdapter")
        klass = z3.Const("klass", Obj)
        st = start(ctx)
        st.pc.append(z3.Const("n_edges", I) >= 0)
        m = Match(eng, "deserialize_result")
        for s, v in eng.call_fn(FuncV(fn), [StoredD(), SV(klass)], {}, st):
            if isinstance(v, Raised):
                m.ob("never raises on a stored result", s.pc, False)
                continue
            if not isinstance(v, SV):
                raise Mismatch("value returned")
            segs = flat(s.store[TR].segs)
            kinds = [g.elem.fields["kind"] for g in segs]
            m.ob("the stored result is validated as the given class", s.pc, v.t == z3.Function("read_as", Obj, Obj)(klass))
            if kinds.count("validate") != 1 or kinds[-1] != "validate":
                raise Mismatch("order of reading")
            j = z3.Const("j", I)
            done = []
            for g in segs:
                h = g.elem.fields
                if h["kind"] == "type":
                    m.ob("each edge gets the type it was stored with", s.pc, ForAll(list(g.bvs), Implies(g.guard, And(h["at"] == h["src"], h["cls"] == name_at(h["at"])))))
                    done.append(Exists(list(g.bvs), And(g.guard, h["at"] == j)))
                if h["kind"] == "algorithm":
                    if not isinstance(h["value"], SV):
                        raise Mismatch("algorithm")
                    m.ob("the algorithm is the one stored", s.pc, h["value"].t == z3.Function("reference", Obj, Obj)(z3.Const("stored_algorithm", Obj)))
            m.ob("every edge gets its type", s.pc, ForAll([j], Implies(And(j >= 0, j < z3.Const("n_edges", I)), Or(*done))))
        yield from m.out
        ctx.close(eng)
    return Unit("deserialize_result", gen, keys=[f"{SER}:deserialize_result"])


def p25_units():
    from .diffs import units as diff_units
    return [types_unit(), eq_unit(), repr_unit(), read_unit()] + diff_units()
