"""Options of steps, logic steps and generators, and reading them back (P16).

A constructor is run on an object whose fields are those of its class (annotations of the class and its bases); the constructor of
pydantic (the root of the chain) gives every field the value handed over or its default.  Options are arbitrary values: None or not,
true or false, a dictionary (saved form) or not."""
import ast, os
import z3
from .base import *
from .interp import *
from .verify import Obl, Unit
from .trace import *
from .vars import MapV, Inst, ObjDict, has_key, val_at, attr_of, isa, flat_segs, m_setattr
from .wspace import WMap, StrO, sconst, term, DOM, VAL

GU = "causy/graph_utils.py"
SER = "causy/serialization.py"
VARS = "causy/variables.py"
GENS = "causy/generators.py"
ROOTS = ("PipelineStepInterface", "GeneratorInterface", "LogicStepInterface")
is_none, is_dict, is_gen = (z3.Function("is_" + n, Obj, B) for n in ("none", "dict", "GeneratorInterface"))
loaded, loaded_steps = z3.Function("loaded", Obj, Obj), z3.Function("loaded_steps", Obj, Obj)
NESTED = {"generator", "comparison_settings", "exit_condition"}


def fields(prog, cls):
    """fields of a pydantic class: name -> default expression (None: required)"""
    out = {}
    for c in reversed(prog.mro(cls)):
        for s in c.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and not s.target.id.startswith("_") and "ClassVar" not in ast.unparse(s.annotation):
                out[s.target.id] = s.value
    return out


def classes(prog):
    """every step, logic step and generator class of the package: [(root, class)]"""
    out = []
    base = os.path.join(prog.root, "causy")
    for d, ds, fs in os.walk(base):
        ds[:] = sorted(x for x in ds if x not in ("tests", "__pycache__", "static"))
        for f in sorted(fs):
            if not f.endswith(".py") or f.startswith("test_"):
                continue
            m = prog.mod(os.path.relpath(os.path.join(d, f), prog.root))
            for c in m.classes.values():
                names = [k.qual for k in prog.mro(c)]
                for r in ROOTS:
                    if r in names[1:]:
                        out.append((r, c))
    return out


class Opt(SV):
    """an option as it was given"""
    def subst(self, pairs):
        return Opt(z3.substitute(self.t, *pairs))
    def item(self, eng, st, k):
        if k == 0:
            return eng.guarded(st, self.truth(eng, st), lambda s: Opt(seq_at(self.t, z3.IntVal(0))), "IndexError")
        raise Unsupported("index of an option")
    def contains(self, eng, st, x):
        raise Unsupported("membership in an option")
    def attr(self, eng, st, a):
        raise Unsupported(f"option .{a}")
    def eq_to(self, eng, st, o):
        raise Unsupported("comparison of an option")


class FieldsV:
    """model_fields"""
    closed = True
    def __init__(self, names):
        self.names = list(names)
    def contains(self, eng, st, x):
        if isinstance(x, str):
            return x in self.names
        raise Unsupported("name of a field")
    def iter_segs(self, eng, st):
        return [Seg((), True, n) for n in self.names]
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name == "keys" and not args:
            return [(st, self)]
        raise Unsupported(f"model_fields.{name}")
    def truth(self, eng, st):
        return bool(self.names)


class Model:
    """an object of a pydantic class under construction"""
    closed = True
    def __init__(self, cls, names):
        self.cls, self.names = cls, names
    def __repr__(self):
        return "<self>"
    def attr(self, eng, st, a):
        if ("self", a) in st.heap:
            return [(st, st.heap[("self", a)])]
        if a == "model_fields":
            return [(st, FieldsV(self.names))]
        if a == "__class__":
            return [(st, TypeV(self))]
        fn = eng.prog.method(self.cls, a)
        if fn:
            return [(st, FuncV(fn, self))]
        if a in self.names:
            return [(st, Raised("AttributeError"))]
        raise Unsupported(f"attribute {a}")
    def set_attr(self, eng, st, a, v):
        s = st.copy()
        if a not in self.names and not a.startswith("_"):
            return [(s, ("raise", Raised("ValueError")))]
        s.heap[("self", a)] = eng.freeze(v, s)
        return [(s, NORMAL)]
    def isinst(self, eng, st, n):
        return n in [k.qual for k in eng.prog.mro(self.cls)] + ["BaseModel"]
    def is_none(self, eng, st):
        return False
    def truth(self, eng, st):
        return True


class TypeV:
    closed = True
    def __init__(self, obj):
        self.obj = obj
    def attr(self, eng, st, a):
        if a == "model_fields":
            return [(st, FieldsV(self.obj.names))]
        raise Unsupported(f"class .{a}")


def default(cls, n, expr):
    if isinstance(expr, ast.Constant) and expr.value is None:
        return None
    return SV(z3.Const(f"default:{cls.qual}.{n}", Obj))


class Apply:
    """contract of a one argument function: the value is f(argument)"""
    def __init__(self, f, wrap=SV, what=""):
        self.f, self.wrap, self.what = f, wrap, what
    def apply(self, eng, st, b):
        v = list(b.values())[0] if b else None
        if len(b) != 1 or not isinstance(v, SV):
            raise Mismatch(f"argument of {self.what}")
        return [(st, self.wrap(self.f(v.t)))]


def set_attr_fn(eng, st, args, kws):
    if len(args) != 3 or not isinstance(args[1], str) or not hasattr(args[0], "set_attr"):
        raise Unsupported("setattr")
    return [(s, None if o is NORMAL else o[1]) for s, o in args[0].set_attr(eng, st, args[1], args[2])]


def ctor_unit(root, cls):
    def gen(ctx):
        prog = ctx.prog
        fs = fields(prog, cls)
        fn = prog.method(cls, "__init__")
        if fn is None:
            raise Unsupported("no constructor")
        bad_hooks = [n for c in prog.mro(cls) for n in c.methods if n in ("__setattr__", "__new__", "__getattribute__", "model_post_init")]
        deco = [d for c in prog.mro(cls) for f in c.methods.values() for d in f.decos if "validator" in d]
        if bad_hooks or deco:
            raise Unsupported("hooks of construction")
        names = list(fs)
        opts = {n: Opt(z3.Const(f"option:{n}", Obj)) for n in names}
        # in the presence of an option of its own every combination matters only once per constructor: classes which inherit it are run
        # with all options given and with none
        own = any("__init__" in c.methods for c in prog.mro(cls) if c.qual not in ROOTS) or root != "PipelineStepInterface" or cls.qual == "ColliderTest"
        runs = [("given", set(names)), ("not given", set())]
        if own:
            runs += [(f"without {n}", set(names) - {n}) for n in names]
        need = {"generator"} if cls.qual == "RandomSampleGenerator" else set()
        lab = cls.qual
        goals = {}

        def goal(n, name, pc, g):
            if g is True or n and any(isz(p) and p.eq(is_none(opts[n].t)) for p in pc) and "takes effect" in name:
                return goals.setdefault((n, name), [])
            goals.setdefault((n, name), []).append(Implies(And(*pc), g))
        for what, given in runs:
            given = given | need
            eng = TraceEngine(ctx, fn.key)
            me = Model(cls, names)

            def root_init(e, s, a, k):
                if a:
                    raise Unsupported("positional arguments of a model")
                s = s.copy()
                for n in names:
                    s.heap[("self", n)] = e.freeze(k[n], s) if n in k else default(cls, n, fs[n])
                return [(s, None)]
            eng.externals.update({"super.__init__": root_init, "builtins.setattr": set_attr_fn, "builtins.type": lambda e, s, a, k: [(s, TypeV(a[0]))] if isinstance(a[0], Model) else bad("type")})
            eng.contracts[f"{GU}:load_pipeline_artefact_by_definition"] = Apply(loaded, what="load_pipeline_artefact_by_definition")
            eng.contracts[f"{GU}:load_pipeline_steps_by_definition"] = Apply(loaded_steps, TList, "load_pipeline_steps_by_definition")
            st = start(ctx)
            for n in names:
                t = opts[n].t
                st.pc += [z3.Not(z3.And(is_none(t), is_dict(t))), z3.Not(z3.And(is_none(t), is_gen(t))), z3.Not(z3.And(is_dict(t), is_gen(t))),
                          z3.Implies(is_none(t), z3.Not(z3.Function("truthy", Obj, B)(t))), z3.Implies(is_gen(t), z3.Function("truthy", Obj, B)(t))]
                if n == "generator":
                    st.pc.append(z3.Or(is_none(t), is_dict(t), is_gen(t)))
                if n == "pipeline_steps":
                    st.pc += [z3.Function("truthy", Obj, B)(t) == (seq_len(t) > 0), seq_len(t) >= 0, seq_len(loaded_steps(t)) == seq_len(t)]
                if n in need or n in given and (not own or what != "given"):
                    st.pc.append(z3.Not(is_none(t)))
            for s, v in eng.call_fn(FuncV(fn, me), [], {n: opts[n] for n in names if n in given}, st):
                if isinstance(v, Raised):
                    goal("", f"never raises {v.exc}", s.pc, False)
                    continue
                for n in names:
                    x = s.heap.get(("self", n), "missing")
                    d = default(cls, n, fs[n])
                    t = opts[n].t
                    ok_default = (x is None) if d is None else isinstance(x, SV) and (True if x.t.eq(d.t) else x.t == d.t)
                    if n == "pipeline_steps":
                        empty = isinstance(x, Cont) and not x.segs
                        ok_default = Or(ok_default, empty)
                    if n not in given:
                        goal(n, f"option {n} not given: default", s.pc, ok_default)
                        continue
                    if isinstance(x, str):
                        raise Mismatch(f"value of {n}")
                    if n == "pipeline_steps":
                        first = seq_at(t, z3.IntVal(0))
                        tr = z3.Function("truthy", Obj, B)(t)
                        if isinstance(x, SV):
                            goal(n, f"option {n}: the steps given, in order", s.pc, Implies(tr, x.t == z3.If(is_dict(first), loaded_steps(t), t)))
                        else:
                            goal(n, f"option {n}: the steps given, in order", s.pc, Not(tr))
                        continue
                    want = z3.If(is_dict(t), loaded(t), t) if n in NESTED else t
                    if x is not None and not isinstance(x, SV):
                        if isinstance(x, (Cont, RecV)) or isz(x):
                            raise Mismatch(f"value of {n}")
                    goal(n, f"option {n} given: it takes effect, whatever its value", s.pc, True if isinstance(x, SV) and x.t.eq(want) else Implies(Not(is_none(t)), x.t == want if isinstance(x, SV) else False))
                    goal(n, f"option {n} given as None: default", s.pc, True if ok_default is True or x is None or isinstance(x, SV) and x.t.eq(t) else Implies(is_none(t), Or(ok_default, isinstance(x, SV) and x.t == t)))
            ctx.close(eng)
        for (n, name), gs in goals.items():
            yield Obl(f"{lab}: {name}", [], And(*gs) if gs else True)
    keys = [f"{c.mod.rel}:{c.qual}.__init__" for c in [cls] if "__init__" in c.methods]
    return Unit(f"{cls.qual} (constructor)", gen, keys=keys or [f"{cls.mod.rel}:{cls.qual}"])


def bad(x):
    raise Unsupported(x)


# ---------------------------------------------------------------- reading a saved element

path_of, last_of = z3.Function("module_part", Obj, Obj), z3.Function("last_part", Obj, Obj)
module, member = z3.Function("module", Obj, Obj), z3.Function("member", Obj, Obj, Obj)


class NameV(SV):
    """a value of the saved form, used as a dotted name"""
    def subst(self, pairs):
        return NameV(z3.substitute(self.t, *pairs))
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name == "split" and args == ["."] and not kws:
            return [(st, PartsV(self.t))]
        if name == "rsplit" and (args == [".", 1] or args == ["."] and kws == {"maxsplit": 1}):
            return [(st, (StrO(path_of(self.t)), StrO(last_of(self.t))))]
        if name == "rpartition" and args == ["."]:
            return [(st, (StrO(path_of(self.t)), ".", StrO(last_of(self.t))))]
        raise Unsupported(f"str.{name}")


class PartsV(SV):
    """name.split('.')"""
    def subst(self, pairs):
        return PartsV(z3.substitute(self.t, *pairs))
    def item(self, eng, st, k):
        if k == -1:
            return [(st, StrO(last_of(self.t)))]
        raise Unsupported("part of a name")
    def slice(self, eng, st, ps):
        if list(ps) == [None, -1, None]:
            return [(st, Front(self.t))]
        raise Unsupported("part of a name")
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        raise Unsupported(f"list.{name}")
    def iter_segs(self, eng, st):
        raise Unsupported("parts of a name")


class Front(PartsV):
    def subst(self, pairs):
        return Front(z3.substitute(self.t, *pairs))
    def item(self, eng, st, k):
        raise Unsupported("part of a name")
    def slice(self, eng, st, ps):
        raise Unsupported("part of a name")


class StepMap(WMap):
    def wrap(self, t):
        return NameV(t)


def as_map(eng, st, v):
    """(in domain, value) of a dictionary as functions of a key"""
    if isinstance(v, WMap):
        d, x = v.get(st, ".dom"), v.get(st, ".val")
        return (lambda k: z3.Select(d, k)), (lambda k: z3.Select(x, k))
    if isinstance(v, CRef):
        v = st.store[v.oid]
    if isinstance(v, Cont) and v.kind == "dict" and len(v.segs) == 1 and len(v.segs[0].bvs) == 1:
        g = v.segs[0]
        k0, kk, vv = g.bvs[0], g.elem[0], g.elem[1]
        if isinstance(kk, SV) and kk.t.eq(k0) and isinstance(vv, SV):
            return (lambda k: z3.substitute(tob(g.guard), (k0, k))), (lambda k: z3.substitute(vv.t, (k0, k)))
    raise Mismatch("dictionary")


def join_hook(eng, st, sep, args):
    if sep == "." and len(args) == 1 and isinstance(args[0], Front):
        return [(st, StrO(path_of(args[0].t)))]
    raise Unsupported("str.join")


def artefact_unit():
    def gen(ctx):
        fn = ctx.prog.mod(GU).funcs["load_pipeline_artefact_by_definition"]
        eng = TraceEngine(ctx, fn.key)
        eng.join_hook = join_hook
        st = start(ctx)
        step = StepMap("step")
        dom, val = st.heap["step.dom"], st.heap["step.val"] = z3.Const("step.dom", DOM), z3.Const("step.val", VAL)
        name = sconst("name")
        n = z3.Select(val, name)
        made = z3.Const("made", Obj)
        cls = member(module(path_of(n)), last_of(n))
        st.pc += [z3.Select(dom, name), z3.Function("truthy", Obj, B)(cls)]

        def imp(e, s, a, k):
            if len(a) != 1 or k or not isinstance(a[0], StrO):
                raise Unsupported("import_module")
            return [(s, SV(module(a[0].t)))]

        def mem(e, s, a, k):
            if len(a) not in (2, 3) or not isinstance(a[0], SV) or not isinstance(a[1], SV):
                raise Unsupported("getattr")
            return [(s, SV(member(a[0].t, a[1].t)))]

        def call(e, s, f, a, k):
            s = s.copy()
            if a or set(k) != {"**"}:
                raise Mismatch("arguments of the class")
            d, x = as_map(e, s, k["**"])
            kk = z3.Const("$key", Obj)
            event(s, "make", cls=f.t, dom=d(kk), val=x(kk))
            return [(s, SV(made))]
        eng.externals.update({"importlib.import_module": imp, "builtins.getattr": mem})
        eng.sv_call = call
        m = Match(eng, "load_pipeline_artefact_by_definition")
        for s, v in eng.call_fn(FuncV(fn), [step], {}, st):
            if isinstance(v, Raised):
                m.ob(f"never raises {v.exc}", s.pc, False)
                continue
            ev = s.store[TR].segs
            if len(ev) != 1:
                raise Mismatch("trace")
            f = m.ev(ev[0], "make")
            m.ob("the named class is used", s.pc, f["cls"] == cls)
            kk = z3.Const("$key", Obj)
            m.ob("every option of the saved form is handed over", s.pc, z3.Implies(z3.And(z3.Select(dom, kk), kk != name), f["dom"]))
            m.ob("nothing else is handed over", s.pc, z3.Implies(f["dom"], z3.And(z3.Select(dom, kk), kk != name)))
            m.ob("with its saved value", s.pc, z3.Implies(z3.And(f["dom"], kk != name), f["val"] == z3.Select(val, kk)))
            m.value("the new object is returned", s, v, SV(made))
        yield from m.out
        ctx.close(eng)
    return Unit("load_pipeline_artefact_by_definition", gen, keys=[f"{GU}:load_pipeline_artefact_by_definition"])


class Deser:
    """contract of deserialize_variable_references: the object itself, its references read"""
    def apply(self, eng, st, b):
        v = b.get("element")
        if not isinstance(v, SV):
            raise Mismatch("argument of deserialize_variable_references")
        s = st.copy()
        event(s, "references", obj=v)
        return [(s, v)]


def steps_unit():
    def gen(ctx):
        fn = ctx.prog.mod(GU).funcs["load_pipeline_steps_by_definition"]
        eng = TraceEngine(ctx, fn.key)
        eng.contracts[f"{GU}:load_pipeline_artefact_by_definition"] = Apply(loaded, what="load_pipeline_artefact_by_definition")
        eng.contracts[f"{VARS}:deserialize_variable_references"] = Deser()
        st = start(ctx)
        steps = TList(z3.Const("steps", Obj))
        m = Match(eng, "load_pipeline_steps_by_definition")
        for s, v in eng.call_fn(FuncV(fn), [steps], {}, st):
            if isinstance(v, Raised):
                m.ob(f"never raises {v.exc}", s.pc, False)
                continue
            i = z3.Const(fresh_name("i"), I)
            want = Cont("list", [Seg([i], z3.And(i >= 0, i < seq_len(steps.t)), SV(loaded(seq_at(steps.t, i))))])
            m.value("every saved step is loaded, in order", s, eng.freeze(v, s), want)
            ev = s.store[TR].segs
            if len(ev) != 1:
                raise Mismatch("trace")
            j, g, f = m.loop_event(ev[0], "references", steps.t, s, "references are read")
            m.ob("the references of every loaded step are read", s.pc, ForAll([j], Implies(g, f["obj"].t == loaded(seq_at(steps.t, j)))))
        yield from m.out
        ctx.close(eng)
    return Unit("load_pipeline_steps_by_definition", gen, keys=[f"{GU}:load_pipeline_steps_by_definition"])


# ---------------------------------------------------------------- the whole algorithm

class SpecMap(WMap):
    """the saved form of an algorithm"""
    def wrap(self, t):
        return SpecVal(t)


class SpecVal(SV):
    def subst(self, pairs):
        return SpecVal(z3.substitute(self.t, *pairs))
    def iter_segs(self, eng, st):
        i = z3.Const(fresh_name("i"), I)
        return [Seg([i], z3.And(i >= 0, i < seq_len(self.t)), SpecVal(seq_at(self.t, i)))]
    def contains(self, eng, st, k):
        return has_key(self.t, term(k))
    def item(self, eng, st, k):
        if not isinstance(k, (str, SV)):
            raise Unsupported("index of a saved value")
        return eng.guarded(st, has_key(self.t, term(k)), lambda s: SpecVal(val_at(self.t, term(k))), "KeyError")
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name == "get" and len(args) == 1:
            out = []
            for s, v in self.item(eng, st, args[0]):
                out.append((s, None if isinstance(v, Raised) else v))
            return out
        raise Unsupported(f".{name}")


class Table(SV):
    """a table of classes, looked up by name"""
    def item(self, eng, st, k):
        return eng.guarded(st, self.contains(eng, st, k), lambda s: SV(z3.Function("entry", Obj, Obj, Obj)(self.t, term(k))), "KeyError")
    def contains(self, eng, st, x):
        return z3.Function("is_known", Obj, Obj, B)(self.t, term(x))
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        raise Unsupported(f"table.{name}")


made_of = z3.Function("made_of", Obj, Obj, Obj)
variable_of = z3.Function("variable_of", Obj, Obj)
entry = z3.Function("entry", Obj, Obj, Obj)


def spec_unit():
    def gen(ctx):
        fn = ctx.prog.mod(SER).funcs["load_algorithm_from_specification"]
        eng = TraceEngine(ctx, fn.key)
        eng.contracts[f"{GU}:load_pipeline_steps_by_definition"] = Apply(loaded_steps, TList, "load_pipeline_steps_by_definition")
        eng.contracts[f"{VARS}:deserialize_variable"] = Apply(variable_of, what="deserialize_variable")
        types = z3.Const("EDGE_TYPES", Obj)
        eng.values = {"causy.edge_types.EDGE_TYPES": Table(types)}

        def call(e, s, f, a, k):
            if a or set(k) != {"**"} or not isinstance(k["**"], SV):
                raise Mismatch("arguments of the edge type")
            return [(s, SV(made_of(f.t, k["**"].t)))]
        eng.sv_call = call
        st = start(ctx)
        spec = SpecMap("spec")
        dom, val = st.heap["spec.dom"], st.heap["spec.val"] = z3.Const("spec.dom", DOM), z3.Const("spec.val", VAL)
        names = ["name", "pipeline_steps", "edge_types", "extensions", "variables", "pre_graph_update_hooks", "post_graph_update_hooks"]
        K = {n: sconst(n) for n in names}
        sel = lambda n: z3.Select(val, K[n])
        has = lambda n: z3.Select(dom, K[n])
        i = z3.Const("i", I)
        truthy = z3.Function("truthy", Obj, B)
        et = lambda x: seq_at(sel("edge_types"), x)
        st.pc += [z3.Distinct(*K.values()), has("pipeline_steps"), has("name"), z3.Not(is_none(sel("pipeline_steps"))),
                  z3.ForAll([i], z3.Implies(is_dict(et(i)), z3.And(has_key(et(i), sconst("name")), z3.Function("is_known", Obj, Obj, B)(types, val_at(et(i), sconst("name")))))),
                  *[z3.Implies(z3.Not(is_none(sel(n))), truthy(sel(n)) == (seq_len(sel(n)) > 0)) for n in ("edge_types", "extensions", "variables")],
                  *[z3.Implies(is_none(sel(n)), z3.Not(truthy(sel(n)))) for n in ("edge_types", "extensions", "variables")],
                  *[seq_len(sel(n)) >= 0 for n in names]]
        out = z3.Const("algorithm", Obj)

        class Adapter:
            closed = True
            def attr(self, e, s, a):
                return [(s, MethV(self, a))]
            def method(self, e, s, name, a, k):
                if name != "validate_python" or len(a) != 1 or not isinstance(a[0], SpecMap):
                    raise Mismatch("validation of the algorithm")
                s = s.copy()
                event(s, "validate", vals={n: s.heap.get(("spec", n)) for n in names}, dom=s.heap["spec.dom"], val=s.heap["spec.val"])
                return [(s, SV(out))]
        eng.externals["pydantic.TypeAdapter"] = lambda e, s, a, k: [(s, Adapter())] if len(a) == 1 and isinstance(a[0], ClassV) and a[0].name == "Algorithm" else bad("TypeAdapter")

        # lists stored in the specification are kept beside the arrays
        def set_item(self, e, s, k, v):
            s = s.copy()
            if not isinstance(k, str) or k not in names:
                raise Unsupported("key of the specification")
            v = e.freeze(v, s)
            s.heap[("spec", k)] = v
            t = z3.Const(fresh_name("stored_" + k), Obj)
            s.heap["spec.dom"] = z3.Store(s.heap["spec.dom"], K[k], True)
            s.heap["spec.val"] = z3.Store(s.heap["spec.val"], K[k], t)
            return [(s, NORMAL)]

        def item(self, e, s, k):
            if isinstance(k, str) and ("spec", k) in s.heap:
                return [(s, s.heap[("spec", k)])]
            return WMap.item(self, e, s, k)
        spec.set_item = set_item.__get__(spec)
        spec.item = item.__get__(spec)
        m = Match(eng, "load_algorithm_from_specification")
        for s, v in eng.call_fn(FuncV(fn), [spec], {}, st):
            if isinstance(v, Raised):
                m.ob(f"never raises {v.exc}", s.pc, False)
                continue
            if len(s.store[TR].segs) != 1:
                raise Mismatch("trace")
            f = m.ev(s.store[TR].segs[0], "validate")
            m.value("the validated algorithm is returned", s, v, SV(out))
            got = f["vals"]

            def segs_of(n):
                x = got[n]
                if isinstance(x, Cont):
                    return x.segs
                if isinstance(x, SV):
                    return [Seg([j], z3.And(j >= 0, j < seq_len(x.t)), SV(seq_at(x.t, j))) for j in [z3.Const(fresh_name("j"), I)]]
                raise Mismatch(f"{n} of the algorithm")

            def listed(n, label, source, elem):
                """the stored list is [elem(i) for i in source]"""
                present = And(has(n), Not(is_none(sel(n))))
                sg = [g for g in segs_of(n) if g.guard is not False]
                if not sg:
                    m.ob(label, s.pc, Not(And(present, seq_len(source) > 0)))
                    return
                if len(sg) != 1 or len(sg[0].bvs) != 1:
                    raise Mismatch(f"{n} of the algorithm")
                g, j = sg[0], sg[0].bvs[0]
                if isinstance(g.elem, BlockV):
                    ps = g.elem.paths
                    if any(sk or len(gs) != 1 or gs[0].bvs or gs[0].guard is not True or not isinstance(gs[0].elem, SV) for _, sk, gs in ps):
                        raise Mismatch(f"{n} of the algorithm")
                    m.ob(label, s.pc, ForAll([j], Iff(And(j >= 0, j < seq_len(source), present), And(g.guard, Or(*[And(*pc) for pc, _, _ in ps])))))
                    for pc, _, gs in ps:
                        m.ob(label, s.pc, ForAll([j], Implies(And(g.guard, *pc), gs[0].elem.t == elem(j))))
                    return
                if not isinstance(g.elem, SV):
                    raise Mismatch(f"{n} of the algorithm")
                m.ob(label, s.pc, ForAll([j], And(Iff(And(j >= 0, j < seq_len(source), present), g.guard), Implies(g.guard, g.elem.t == elem(j)))))
            x = got["pipeline_steps"]
            if not isinstance(x, SV):
                raise Mismatch("steps of the algorithm")
            m.ob("the steps are those of the saved form, loaded", s.pc, x.t == loaded_steps(sel("pipeline_steps")))
            x = got["extensions"]
            if isinstance(x, SV):
                m.ob("the extensions are those of the saved form, loaded", s.pc, And(has("extensions"), Not(is_none(sel("extensions"))), x.t == loaded_steps(sel("extensions"))))
            elif isinstance(x, Cont) and not x.segs:
                m.ob("the extensions are those of the saved form, loaded", s.pc, Not(And(has("extensions"), truthy(sel("extensions")))))
            elif x is None and ("spec", "extensions") not in s.heap:
                m.ob("the extensions are those of the saved form, loaded", s.pc, Not(And(has("extensions"), truthy(sel("extensions")))))
            else:
                raise Mismatch("extensions of the algorithm")
            listed("variables", "the variables are those of the saved form, in order", sel("variables"), lambda j: variable_of(seq_at(sel("variables"), j)))
            listed("edge_types", "the edge types are those of the saved form, in order", sel("edge_types"),
                   lambda j: z3.If(is_dict(et(j)), made_of(entry(types, val_at(et(j), sconst("name"))), et(j)), et(j)))
            for n in ("name", "pre_graph_update_hooks", "post_graph_update_hooks"):
                m.ob(f"{n} is kept", s.pc, And(Iff(z3.Select(f["dom"], K[n]), has(n)), z3.Select(f["val"], K[n]) == sel(n)) if got[n] is None else False)
        yield from m.out
        ctx.close(eng)
    return Unit("load_algorithm_from_specification", gen, keys=[f"{SER}:load_algorithm_from_specification"])


def variable_unit():
    def gen(ctx):
        mod = ctx.prog.mod(VARS)
        fn = mod.funcs["deserialize_variable"]
        eng = TraceEngine(ctx, fn.key)
        st = start(ctx)
        eng.sv_str = True
        table = eng.const(mod, "VARIABLE_MAPPING", mod.consts["VARIABLE_MAPPING"]) if "VARIABLE_MAPPING" in mod.consts else None
        if not isinstance(table, Cont):
            raise Unsupported("VARIABLE_MAPPING")
        m = Match(eng, "deserialize_variable")
        names = {}
        for g in table.segs:
            k, c = g.elem
            k = getattr(k, "value", k)
            if not isinstance(k, str) or not isinstance(c, ClassV):
                raise Unsupported("VARIABLE_MAPPING")
            names[k] = c.name
        want = {"string": "StringVariable", "integer": "IntegerVariable", "float": "FloatVariable", "bool": "BoolVariable"}
        for k, c in want.items():
            m.ob(f"a saved {k} variable is read as {c}", [], names.get(k) == c)
        T = z3.Const("VARIABLE_MAPPING", Obj)
        eng.values = {"VARIABLE_MAPPING": Table(T)}
        saved = SpecVal(z3.Const("variable_dict", Obj))

        def call(e, s, f, a, k):
            if a or set(k) != {"**"} or not isinstance(k["**"], SV):
                raise Mismatch("arguments of the variable")
            return [(s, SV(made_of(f.t, k["**"].t)))]
        eng.sv_call = call
        ty = val_at(saved.t, sconst("type"))
        known = z3.And(has_key(saved.t, sconst("type")), z3.Function("is_known", Obj, Obj, B)(T, ty))
        for s, v in eng.call_fn(FuncV(fn), [saved], {}, st):
            if isinstance(v, Raised):
                m.ob("a variable is refused only if its type is missing or unknown", s.pc, z3.Not(known))
                continue
            m.value("the variable is made by the class of its type from all saved fields", s, v, SV(made_of(entry(T, ty), saved.t)))
        yield from m.out
        ctx.close(eng)
    return Unit("deserialize_variable", gen, keys=[f"{VARS}:deserialize_variable"])


reference_to = z3.Function("reference_to", Obj, Obj)


class VMap(MapV):
    """attributes, whose values may be saved forms"""
    def subst(self, pairs):
        return VMap(z3.substitute(self.t, *pairs))
    def item(self, eng, st, k):
        return [(s, v if isinstance(v, Raised) else SpecVal(v.t)) for s, v in super().item(eng, st, k)]
    def method(self, eng, st, name, args, kws):
        if name in ("items", "values"):
            s = st.copy()
            k = z3.Const(fresh_name("k"), Obj)
            v = SpecVal(val_at(self.t, k))
            return [(s, s.new(Cont("list", [Seg([k], has_key(self.t, k), (SV(k), v) if name == "items" else v)])))]
        return super().method(eng, st, name, args, kws)


class DInst(Inst):
    """object whose attributes may be saved references"""
    def subst(self, pairs):
        return DInst(z3.substitute(self.t, *pairs))
    def attr(self, eng, st, a):
        if a == "pipeline_steps":
            return [(st, TList(attr_of(a, self.t)))]
        if a == "__dict__":
            d = ObjDict(self)
            d.m = VMap(d.m.t)
            return [(st, d)]
        return super().attr(eng, st, a)


def references_unit():
    def gen(ctx):
        fn = ctx.prog.mod(VARS).funcs["deserialize_variable_references"]
        eng = TraceEngine(ctx, fn.key)
        obj = DInst(z3.Const("element", Obj))

        class Rec:
            def apply(self, e, st, b):
                o = b.get("element")
                if not isinstance(o, SV):
                    raise Mismatch("recursive call")
                s = st.copy()
                event(s, "rec", obj=o)
                return [(s, o)]      # the object itself, changed in place

        def newref(e, s, a, k):
            if a or set(k) != {"name"} or not isinstance(k["name"], SV):
                raise Mismatch("VariableReference")
            return [(s, SV(reference_to(k["name"].t)))]
        eng.contracts[fn.key] = Rec()
        eng.externals["builtins.setattr"] = m_setattr
        eng.externals["new:VariableReference"] = newref
        eng.sv_str = True
        st = start(ctx)
        d = MapV(attr_of("__dict__", obj.t))
        k = z3.Const("k", Obj)
        x = z3.Const("x", Obj)
        hasd = z3.Function("has___dict__", Obj, B)
        isd = lambda t: isa("dict", t)
        st.pc += [z3.ForAll([x], z3.Implies(isd(x), z3.Not(hasd(x)))), z3.ForAll([x], z3.Implies(hasd(x), z3.Not(isd(x))))]
        REF = sconst("reference")
        isref = lambda t: z3.And(isd(t), has_key(t, sconst("type")), val_at(t, sconst("type")) == REF)
        st.pc.append(z3.ForAll([x], z3.Implies(isref(x), has_key(x, sconst("name")))))
        m = Match(eng, "deserialize_variable_references")
        for s, v in eng.inline(FuncV(fn), {"element": obj}, st):
            if isinstance(v, Raised):
                m.ob(f"never raises {v.exc}", s.pc, False)
                continue
            m.value("the object itself is returned", s, v, obj)
            cover, read = [], []
            src = attr_of("pipeline_steps", obj.t)
            for g in flat_segs(s.store[TR].segs):
                f = g.elem.fields
                if f["kind"] == "rec":
                    read.append(lambda t, g=g, o=f["obj"]: Exists(list(g.bvs), And(g.guard, o.t == t)))
                    continue
                if f["kind"] != "set" or not isinstance(f["owner"], SV):
                    raise Mismatch("trace")
                a, val = f["attr"], f["value"]
                if a == "pipeline_steps":
                    if g.bvs or not isinstance(val, (Cont, SV)):
                        raise Mismatch("steps of a logic step")
                    m.value("the inner steps stay the same, in order", s, val, TList(src))
                    continue
                if not isinstance(a, SV) or not isinstance(val, SV):
                    raise Mismatch("assignment")
                cur = val_at(d.t, a.t)
                m.ob("only attributes of the object are replaced", s.pc, ForAll(list(g.bvs), Implies(g.guard, And(f["owner"].t == obj.t, has_key(d.t, a.t)))))
                m.ob("a saved reference becomes a reference to the same variable", s.pc, ForAll(list(g.bvs), Implies(And(g.guard, isref(cur)), val.t == reference_to(val_at(cur, sconst("name"))))))
                m.ob("nothing else is replaced", s.pc, ForAll(list(g.bvs), Implies(And(g.guard, Not(isref(cur))), val.t == cur)))
                cover.append(lambda t, g=g, a=a: Exists(list(g.bvs), And(g.guard, a.t == t)))
            cur = val_at(d.t, k)
            j = z3.Const("j", I)
            m.ob("every saved reference is read", s.pc, ForAll([k], Implies(And(has_key(d.t, k), isref(cur)), Or(*[c(k) for c in cover]))))
            m.ob("objects inside the object are read as well", s.pc, ForAll([k], Implies(And(has_key(d.t, k), hasd(cur), Not(isa("Enum", cur)), Not(isref(cur))), Or(*[c(cur) for c in read]))))
            has_steps = z3.Function("has_pipeline_steps", Obj, B)(obj.t)
            m.ob("all inner steps are read", s.pc, ForAll([j], Implies(And(has_steps, j >= 0, j < seq_len(src)), Or(*[c(seq_at(src, j)) for c in read]))))
        yield from m.out
        ctx.close(eng)
    return Unit("deserialize_variable_references", gen, keys=[f"{VARS}:deserialize_variable_references"])


def dump_unit(cls):
    """GeneratorInterface._serialize_all_options: no option of a generator is lost"""
    def gen(ctx):
        prog = ctx.prog
        fn = prog.method(cls, "_serialize_all_options")
        if fn is None:
            raise Unsupported("no serializer")
        eng = TraceEngine(ctx, fn.key)
        names = list(fields(prog, cls))
        iface = list(fields(prog, prog.mod(IFACE).classes["GeneratorInterface"]))
        me = Model(cls, names)
        st = start(ctx)
        for n in names:
            st.heap[("self", n)] = SV(z3.Const(f"option:{n}", Obj))
        ser = WMap("ser")
        dom, val = st.heap["ser.dom"], st.heap["ser.val"] = z3.Const("ser.dom", DOM), z3.Const("ser.val", VAL)
        st.pc += [z3.Select(dom, sconst(n)) for n in iface] + [z3.Distinct(*[sconst(n) for n in set(names + iface)])]
        # the dump of pydantic: fields of the interface, possibly more; with the value of the option
        st.pc += [z3.Implies(z3.Select(dom, sconst(n)), z3.Select(val, sconst(n)) == z3.Function("dumped", Obj, Obj)(z3.Const(f"option:{n}", Obj))) for n in names]

        class Handler:
            closed = True
            def call(self, e, s, a, k):
                if len(a) != 1 or a[0] is not me:
                    raise Mismatch("handler")
                return [(s, ser)]
        base = WMap.method

        def method(e, s, name, a, k):
            if name == "setdefault" and len(a) == 2:
                out = []
                p, q = e.split(s, ser.contains(e, s, a[0]))
                if p is not None:
                    out.append((p, None))
                if q is not None:
                    out += [(s2, None) for s2, _ in ser.set_item(e, q, a[0], a[1])]
                return out
            return base(ser, e, s, name, a, k)
        ser.method = method

        def getattr_(e, s, a, k):
            if len(a) == 2 and a[0] is me and isinstance(a[1], str):
                return me.attr(e, s, a[1])
            raise Unsupported("getattr")
        eng.externals.update({"builtins.type": lambda e, s, a, k: [(s, TypeV(a[0]))] if isinstance(a[0], Model) else bad("type"), "builtins.getattr": getattr_})
        eng.class_attrs = {("GeneratorInterface", "model_fields"): FieldsV(iface)}
        m = Match(eng, f"{cls.qual}: saved options")
        for s, v in eng.call_fn(FuncV(fn, me), [Handler()], {}, st):
            if isinstance(v, Raised):
                m.ob(f"never raises {v.exc}", s.pc, False)
                continue
            if v is not ser:
                raise Mismatch("saved form")
            D, V = s.heap["ser.dom"], s.heap["ser.val"]
            for n in names:
                k = sconst(n)
                m.ob(f"option {n} is saved", s.pc, z3.Select(D, k))
                o = z3.Const(f"option:{n}", Obj)
                m.ob(f"option {n} is saved with its value", s.pc, z3.Or(z3.Select(V, k) == o, z3.Select(V, k) == z3.Function("dumped", Obj, Obj)(o)))
        yield from m.out
        ctx.close(eng)
    return Unit(f"{cls.qual} (saved options)", gen, keys=[f"{IFACE}:GeneratorInterface._serialize_all_options"])


def name_unit():
    """the name a step, logic step or generator is saved under: its module and its class, which is where the loader looks for it"""
    def gen(ctx):
        for root, c in classes(ctx.prog):
            fn = ctx.prog.method(c, "name")
            if fn is None or not any("property" in d for d in fn.decos):
                raise Unsupported("how a step gets its name")
            mod = c.mod.rel[:-3].replace("/", ".")
            if mod.endswith(".__init__"):
                mod = mod[:-9]
            eng = ctx.engine({}, fn.key)
            eng.fstring = lambda e, s, ps: "".join(ps) if all(isinstance(x, str) for x in ps) else StrV()
            st = ctx.start(eng, ri=False)
            kind = ObjV("class " + c.qual, "class", {"__module__": mod, "__name__": c.qual.split(".")[-1], "__qualname__": c.qual})
            me = ObjV("one " + c.qual, c, {"__class__": kind})
            for s, v in eng.call(FuncV(fn, me), [], {}, st):
                if isinstance(v, Raised):
                    yield Obl(f"name of {c.qual}: never raises {v.exc}", s.pc, False)
                    continue
                if not isinstance(v, str):
                    raise Unsupported("value of a name")
                yield Obl(f"name of {c.qual}: module and class", s.pc, v == f"{mod}.{c.qual}")
            ctx.close(eng)
    return Unit("serialize_module_name", gen, keys=["causy/graph_utils.py:serialize_module_name", "causy/interfaces.py:PipelineStepInterface.name", "causy/interfaces.py:LogicStepInterface.name",
                                                    "causy/interfaces.py:GeneratorInterface.name", "causy/interfaces.py:ExitConditionInterface.name"])


def p16_units():
    from .program import Program
    cs = classes(Program())
    return [ctor_unit(r, c) for r, c in cs] + [dump_unit(c) for r, c in cs if r == "GeneratorInterface"] + \
        [name_unit(), artefact_unit(), steps_unit(), spec_unit(), variable_unit(), references_unit()]
