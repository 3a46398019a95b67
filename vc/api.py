"""Contracts of the web API (P23): which stored result an answer is built from.

The loaders of stored results (P18) and of algorithms (P17) are used by their contracts. An answer is a record with the stored
result it was built from and the fields set afterwards; HTTPException(n, ...) is the exception "HTTPException(n)"."""
import ast, z3
from .base import *
from .interp import *
from .trace import *
from .verify import Obl, Unit
from .vars import attr_of
from .wspace import StrO, term
from .load import bad

SV_ = "causy/ui/server.py"
has = z3.Function("has_experiment", Obj, B)
exp_at = z3.Function("experiment", Obj, Obj)
versions_of = z3.Function("versions_of", Obj, Obj)
listed = z3.Function("stored_version", Obj, Obj, B)
result_of = z3.Function("stored_result", Obj, Obj, Obj)
field_of = z3.Function("stored_field", Obj, Obj, Obj)
readable = z3.Function("readable", Obj, Obj, B)
sconst = lambda x: z3.Const("str:" + x, Obj)
reference_of = z3.Function("AlgorithmReference", Obj, Obj)


class Exps:
    """the experiments of the workspace"""
    closed = True
    def contains(self, eng, st, x):
        return has(term(x))
    def is_none(self, eng, st):
        return False
    def truth(self, eng, st):
        raise Unsupported("truth of the experiments")
    def iter_segs(self, eng, st):
        k = z3.Const(fresh_name("k"), Obj)
        return [Seg([k], has(k), StrO(k))]
    def item(self, eng, st, k):
        return eng.guarded(st, has(term(k)), lambda s: SV(exp_at(term(k))), "KeyError")
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if args or kws or name not in ("items", "keys", "values"):
            raise Unsupported(f"experiments.{name}")
        k = z3.Const(fresh_name("k"), Obj)
        e = {"items": (StrO(k), SV(exp_at(k))), "keys": StrO(k), "values": SV(exp_at(k))}[name]
        return [(st, Cont("list", [Seg([k], has(k), e)]))]


class WsV:
    closed = True
    def is_none(self, eng, st):
        return False
    def truth(self, eng, st):
        return True
    def attr(self, eng, st, a):
        if a == "experiments":
            return [(st, Exps())]
        raise Unsupported(f"workspace.{a}")


class Loaded:
    """a stored result read as a dictionary; fields set later are kept in the heap"""
    def __init__(self, t, key):
        self.t, self.key = t, key
    def is_none(self, eng, st):
        return False
    def truth(self, eng, st):
        return True
    def over(self, st):
        return st.heap.get(("loaded", self.key), {})
    def item(self, eng, st, k):
        if not isinstance(k, str):
            raise Unsupported("key of a result")
        o = self.over(st)
        return [(st, o[k] if k in o else SV(field_of(self.t, sconst(k))))]
    def set_item(self, eng, st, k, v):
        if not isinstance(k, str):
            raise Unsupported("key of a result")
        s = st.copy()
        s.heap[("loaded", self.key)] = {**self.over(st), k: eng.freeze(v, s)}
        return [(s, NORMAL)]
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name == "update" and len(args) <= 1 and all(isinstance(a, (CRef, Cont)) for a in args):
            s = st
            d = dict(kws)
            for a in args:
                for g in eng.segs(a, s):
                    if g.bvs or g.guard is not True or not isinstance(g.elem, tuple) or not isinstance(g.elem[0], str):
                        raise Unsupported("update of a result")
                    d[g.elem[0]] = g.elem[1]
            for k, v in d.items():
                s = self.set_item(eng, s, k, v)[0][0]
            return [(s, None)]
        raise Unsupported(f"result.{name}")


class Fields:
    """a new model object whose fields are set one by one"""
    def __init__(self, cls, ref):
        self.cls, self.ref = cls, ref
    def is_none(self, eng, st):
        return False
    def truth(self, eng, st):
        return True
    def set_attr(self, eng, st, a, v):
        return eng.setitem(self.ref, a, v, st)
    def attr(self, eng, st, a):
        raise Unsupported("field of a new object")
    def freeze(self, eng, st):
        c = eng.freeze(self.ref, st)
        f = {}
        for g in c.segs:
            if g.bvs or g.guard is not True:
                raise Mismatch("field set conditionally")
            f[g.elem[0]] = g.elem[1]
        return RecV(self.cls, f)


def exc_name(nm, e):
    if nm != "HTTPException" or not isinstance(e, ast.Call):
        return nm
    a = e.args[0] if e.args else next((k.value for k in e.keywords if k.arg == "status_code"), None)
    return f"HTTPException({ast.literal_eval(a)})" if isinstance(a, ast.Constant) else "HTTPException(?)"


def api_engine(ctx, fn, loaded=True):
    eng = TraceEngine(ctx, fn.key)
    eng.run_async = True
    eng.exc_name = exc_name
    eng.globals = {(SV_, "WORKSPACE"): WsV() if loaded else None}
    for d in ("fastapi.HTTPException", "fastapi.exceptions.HTTPException", "starlette.exceptions.HTTPException"):
        eng.externals[d] = lambda e, s, a, k: [(s, ExcV("HTTPException"))]
    eng.externals["builtins.str"] = lambda e, s, a, k: [(s, StrV())]

    def name_of(b):
        if not isinstance(b.get("workspace"), WsV):
            raise Mismatch("another workspace")
        return term(b.get("experiment_name"))

    def load(s, n, v):
        return Loaded(result_of(n, v), fresh_name("loaded"))

    class Latest:
        def apply(self, e, s, b):
            n = name_of(b)
            t = versions_of(n)
            v = seq_at(t, 0)
            return e.guarded(s, And(has(n), seq_len(t) > 0, readable(n, v)), lambda s2: load(s2, n, v), "ValueError")

    class One:
        def apply(self, e, s, b):
            n, v = name_of(b), b.get("version_number")
            if not isinstance(v, SV):
                raise Mismatch("version")
            return e.guarded(s, And(has(n), listed(n, v.t), readable(n, v.t)), lambda s2: load(s2, n, v.t), "ValueError")

    class Versions:
        def apply(self, e, s, b):
            return [(s, VList(versions_of(name_of(b))))]

    class Alg:
        def apply(self, e, s, b):
            t, r = b.get("reference_type"), b.get("algorithm")
            ok = z3.Function("loadable", Obj, Obj, B)(term(t), term(r))
            return e.guarded(s, ok, lambda s2: SV(z3.Function("loaded_algorithm", Obj, Obj, Obj)(term(t), term(r))), "Exception")
    for dotted, c in (("causy.workspaces.cli._load_latest_experiment_result", Latest()), ("causy.workspaces.cli._load_experiment_result", One()),
                      ("causy.workspaces.cli._load_experiment_versions", Versions()), ("causy.serialization.load_algorithm_by_reference", Alg())):
        r = ctx.prog.resolve(dotted)
        if r is None or r[0] != "func":
            raise Unsupported(f"{dotted} not found")
        eng.contracts[r[1].key] = c

    def result(e, s, a, k):
        k = dict(k)
        base = k.pop("**", None)
        if a or not isinstance(base, Loaded):
            raise Unsupported("ExtendedResult of other data")
        if set(k) & set(base.over(s)):
            raise Unsupported("field given twice")
        return [(s, RecV("ExtendedResult", {"$base": SV(base.t), **base.over(s), **{x: e.freeze(v, s) for x, v in k.items()}}))]
    eng.externals["new:ExtendedResult"] = result

    def ref(e, s, a, k):
        if a or set(k) != {"**"} or not isinstance(k["**"], SV):
            raise Unsupported("AlgorithmReference of other data")
        return [(s, SV(reference_of(k["**"].t)))]
    eng.externals["new:AlgorithmReference"] = ref

    def version(e, s, a, k):
        if a or set(k) != {"version", "name"}:
            raise Unsupported("ExperimentVersion")
        return [(s, RecV("ExperimentVersion", {x: e.freeze(v, s) for x, v in k.items()}))]
    eng.externals["new:ExperimentVersion"] = version

    def extended(e, s, a, k):
        k = dict(k)
        base = k.pop("**", None)
        if a or not isinstance(base, SV):
            raise Unsupported("ExtendedExperiment of other data")
        s = s.copy()
        r = s.new(Cont("dict", [Seg((), True, ("$base", base))]))
        for x, v in k.items():
            s = e.setitem(r, x, v, s)[0][0]
        return [(s, Fields("ExtendedExperiment", r))]
    eng.externals["new:ExtendedExperiment"] = extended
    dump = z3.Function("model_dump", Obj, Obj)
    eng.sv_methods["model_dump"] = lambda e, s, r, a, k: [(s, SV(dump(r.t)))] if not a and not k else bad("model_dump")
    iso, frm = z3.Function("isoformat", Obj, Obj), z3.Function("fromtimestamp", Obj, Obj)
    eng.sv_methods["isoformat"] = lambda e, s, r, a, k: [(s, SV(iso(r.t)))] if not a and not k else bad("isoformat")
    eng.externals["datetime.datetime.fromtimestamp"] = lambda e, s, a, k: [(s, SV(frm(a[0].t)))] if len(a) == 1 and not k and isinstance(a[0], SV) else bad("fromtimestamp")
    return eng


def axioms():
    n, i = z3.Const("n", Obj), z3.Const("i", I)
    return [z3.ForAll([n], seq_len(versions_of(n)) >= 0), z3.ForAll([n, i], z3.Implies(z3.And(i >= 0, i < seq_len(versions_of(n))), listed(n, seq_at(versions_of(n), i))))]


class VList(TList):
    """the versions of an experiment"""
    def subst(self, pairs):
        return VList(z3.substitute(self.t, *pairs))
    def item(self, eng, st, k):
        if isinstance(k, int) and not isinstance(k, bool):
            i = z3.IntVal(k) if k >= 0 else seq_len(self.t) + k
            return eng.guarded(st, And(seq_len(self.t) > i, i >= 0), lambda s: SV(seq_at(self.t, i)), "IndexError")
        raise Unsupported("index of a version")


def served(m, eng, s, v, n, ver):
    """the answer is the stored result of this version"""
    if v is None:
        m.ob("a stored result is served", s.pc, False)
        return
    if isinstance(v, Loaded):
        base, over = v.t, v.over(s)
    elif isinstance(v, RecV) and v.cls == "ExtendedResult":
        base, over = v.fields["$base"].t, {k: x for k, x in v.fields.items() if k != "$base"}
    else:
        raise Mismatch("answer")
    m.ob("the served result is the one stored for this version", s.pc, base == result_of(n, ver))
    for k, x in over.items():
        if k == "version":
            if not isinstance(x, SV):
                raise Mismatch("version")
            m.ob("it carries its version", s.pc, x.t == ver)
        elif k == "algorithm":
            if not isinstance(x, SV):
                raise Mismatch("algorithm")
            w = field_of(result_of(n, ver), sconst("algorithm"))
            m.ob("it carries its algorithm", s.pc, Or(x.t == w, x.t == reference_of(w)))
        else:
            m.ob(f"no other field is set: {k}", s.pc, False)
    if "version" not in over:
        m.ob("it carries its version", s.pc, False)


def result_unit(func, latest):
    def gen(ctx):
        fn = ctx.prog.mod(SV_).funcs[func]
        for loaded in (True, False):
            eng = api_engine(ctx, fn, loaded)
            n, ver = z3.Const("name", Obj), z3.Const("version", Obj)
            st = start(ctx)
            st.pc += axioms()
            want = seq_at(versions_of(n), 0) if latest else ver
            there = And(seq_len(versions_of(n)) > 0, readable(n, want)) if latest else And(listed(n, ver), readable(n, ver))
            m = Match(eng, func + ("" if loaded else " (no workspace)"))
            for s, v in eng.call_fn(FuncV(fn), [StrO(n)] + ([] if latest else [SV(ver)]), {}, st):
                if isinstance(v, Raised):
                    m.ob("only HTTP errors are raised", s.pc, v.exc.startswith("HTTPException("))
                    if v.exc.startswith("HTTPException("):
                        m.ob("an existing result is served", s.pc, Not(And(has(n), there)) if loaded else True)
                        if v.exc == "HTTPException(404)":
                            m.ob("not found only for unknown experiments", s.pc, Not(And(has(n), there)) if loaded else True)
                    continue
                m.ob("nothing is served without a stored result", s.pc, And(has(n), there) if loaded else False)
                if loaded:
                    served(m, eng, s, v, n, want)
            yield from m.out
            ctx.close(eng)
    return Unit(func, gen, keys=[f"{SV_}:{func}"])


def list_unit():
    def gen(ctx):
        fn = ctx.prog.mod(SV_).funcs["get_experiments"]
        for loaded in (True, False):
            eng = api_engine(ctx, fn, loaded)
            st = start(ctx)
            st.pc += axioms()
            m = Match(eng, "get_experiments" + ("" if loaded else " (no workspace)"))
            for s, v in eng.call_fn(FuncV(fn), [], {}, st):
                if isinstance(v, Raised):
                    m.ob("only HTTP errors are raised", s.pc, v.exc.startswith("HTTPException("))
                    m.ob("the list is served", s.pc, not loaded)
                    continue
                m.ob("nothing is served without a workspace", s.pc, loaded)
                if not loaded:
                    continue
                got = eng.segs(v, s)
                x = z3.Const("$x", Obj)
                cover = []
                for g in got:
                    f = g.elem.fields if isinstance(g.elem, RecV) and g.elem.cls == "ExtendedExperiment" else None
                    if f is None or "$base" not in f:
                        raise Mismatch("entry")
                    pc = s.pc + [tob(g.guard)]
                    if not isinstance(f.get("name"), SV):
                        m.ob("an entry carries its name", pc, False)
                        continue
                    n = f["name"].t
                    cover.append(Exists(g.bvs, And(g.guard, n == x)))
                    m.ob("every entry is an experiment of the workspace", pc, has(n))
                    m.ob("an entry shows its own configuration", pc, f["$base"].t == z3.Function("model_dump", Obj, Obj)(exp_at(n)))
                    vs = f.get("versions")
                    if vs is None:
                        m.ob("an entry lists its versions", pc, False)
                        continue
                    i = z3.Const(fresh_name("i"), I)
                    e = seq_at(versions_of(n), i)
                    a = s.copy()
                    a.pc = pc
                    want = [Seg([i], z3.And(i >= 0, i < seq_len(versions_of(n))), RecV("ExperimentVersion", {"version": SV(e), "name": SV(z3.Function("isoformat", Obj, Obj)(z3.Function("fromtimestamp", Obj, Obj)(e)))}))]
                    m.ob("an entry lists exactly its stored versions, newest first, with their time", pc, same_list(eng, a, eng.segs(vs, a), want))
                m.ob("every experiment is listed", s.pc, Implies(has(x), Or(*cover)))
                for j, g in enumerate(got):
                    if len(g.bvs) > 1:
                        raise Mismatch("entries")
                if len(got) > 1:
                    raise Mismatch("entries")
            yield from m.out
            ctx.close(eng)
    return Unit("get_experiments", gen, keys=[f"{SV_}:get_experiments"])


class Members:
    """AlgorithmReferenceType.__members__"""
    closed = True
    def is_none(self, eng, st):
        return False
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name == "values" and not args and not kws:
            return [(st, self)]
        raise Unsupported("members")
    def contains(self, eng, st, x):
        return z3.Function("is_reference_type", Obj, B)(term(x))


class Ref(StrO):
    """a string whose beginning and parts are looked at"""
    def subst(self, pairs):
        return Ref(z3.substitute(self.t, *pairs))
    def contains(self, eng, st, x):
        return z3.Function("contains_" + x, Obj, B)(self.t) if isinstance(x, str) else bad("part of a string")
    def method(self, eng, st, name, args, kws):
        if name in ("startswith", "endswith") and len(args) == 1 and isinstance(args[0], str) and not kws:
            return [(st, z3.Function(f"{name}_{args[0]}", Obj, B)(self.t))]
        return StrO.method(self, eng, st, name, args, kws)


def alg_unit():
    def gen(ctx):
        fn = ctx.prog.mod(SV_).funcs["get_algorithm"]
        eng = api_engine(ctx, fn)
        eng.class_attrs = {("AlgorithmReferenceType", "__members__"): Members()}
        t, r = Ref(z3.Const("reference_type", Obj)), Ref(z3.Const("reference", Obj))
        m = Match(eng, "get_algorithm")
        dots = Or(z3.Function("startswith_/", Obj, B)(r.t), z3.Function("contains_..", Obj, B)(r.t))
        known = z3.Function("is_reference_type", Obj, B)(t.t)
        ok = z3.Function("loadable", Obj, Obj, B)(t.t, r.t)
        for s, v in eng.call_fn(FuncV(fn), [t, r], {}, start(ctx)):
            if isinstance(v, Raised):
                m.ob("only HTTP errors are raised", s.pc, v.exc.startswith("HTTPException("))
                m.ob("an algorithm that can be loaded is served", s.pc, Or(dots, Not(known), Not(ok)))
                continue
            if not isinstance(v, SV):
                raise Mismatch("algorithm")
            m.ob("exactly the referenced algorithm is served", s.pc, And(ok, v.t == z3.Function("loaded_algorithm", Obj, Obj, Obj)(t.t, r.t)))
        yield from m.out
        ctx.close(eng)
    return Unit("get_algorithm", gen, keys=[f"{SV_}:get_algorithm"])


def p23_units():
    return [result_unit("get_latest_experiment", True), result_unit("get_experiment", False), list_unit(), alg_unit()]
