"""Contracts of the variable handling (P15)."""
import z3
from .base import *
from .interp import *
from .trace import *
from .verify import Obl, Unit

VARS = "causy/variables.py"
has_key = z3.Function("has_key", Obj, Obj, B)
val_at = z3.Function("val_at", Obj, Obj, Obj)


def in_list(l, x):
    i = z3.Const(fresh_name("c"), I)
    return z3.Exists([i], z3.And(i >= 0, i < seq_len(l), seq_at(l, i) == x))


attr_of = lambda n, t: z3.Function("attr_" + n, Obj, Obj)(t)
isa = lambda n, t: z3.Function("is_" + n, Obj, B)(t)


class MapV(SV):
    """an opaque dictionary"""
    def subst(self, pairs):
        return MapV(z3.substitute(self.t, *pairs))
    def isinst(self, eng, st, n):
        return n in ("dict", "Dict", "Mapping")
    def is_none(self, eng, st):
        return False
    def truth(self, eng, st):
        k = z3.Const(fresh_name("k"), Obj)
        return z3.Exists([k], has_key(self.t, k))
    def key(self, x):
        if isinstance(x, SV):
            return x.t
        if isinstance(x, str):
            return z3.Const("str:" + x, Obj)
        if isz(x) and x.sort() == Obj:
            return x
        raise Unsupported(f"key {x!r}")
    def contains(self, eng, st, x):
        return has_key(self.t, self.key(x))
    def item(self, eng, st, k):
        return eng.guarded(st, has_key(self.t, self.key(k)), lambda s: SV(val_at(self.t, self.key(k))), "KeyError")
    def iter_segs(self, eng, st):
        k = z3.Const(fresh_name("k"), Obj)
        return [Seg([k], has_key(self.t, k), SV(k))]
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        s = st.copy()
        if name == "keys":
            return [(st, self)]
        if name in ("items", "values"):
            k = z3.Const(fresh_name("k"), Obj)
            v = SV(val_at(self.t, k))
            return [(s, s.new(Cont("list", [Seg([k], has_key(self.t, k), (SV(k), v) if name == "items" else v)])))]
        if name == "get":
            d = args[1] if len(args) > 1 else None
            a, b = eng.split(st, has_key(self.t, self.key(args[0])))
            return ([(a, SV(val_at(self.t, self.key(args[0]))))] if a is not None else []) + ([(b, d)] if b is not None else [])
        raise Unsupported(f"dict.{name}")


def kinds(t):
    """python's builtin scalar types"""
    i, b, f, s = (isa(n, t) for n in ("int", "bool", "float", "str"))
    return [z3.Implies(b, i), z3.Not(z3.And(i, f)), z3.Not(z3.And(i, s)), z3.Not(z3.And(f, s))]


TYPES = {"StringVariable": lambda t: isa("str", t), "IntegerVariable": lambda t: z3.And(isa("int", t), z3.Not(isa("bool", t))),
         "FloatVariable": lambda t: isa("float", t), "BoolVariable": lambda t: isa("bool", t)}


def valid(cls, val, choices):
    return TYPES[cls](val) if choices is None else z3.And(TYPES[cls](val), z3.Or(seq_len(choices) == 0, in_list(choices, val)))


def var_obj(ctx, cls, st, choices):
    c = ctx.prog.mod(VARS).classes.get(cls)
    if c is None:
        raise Unsupported(f"{cls} not found")
    ch = z3.Const("choices", Obj) if choices else None
    if choices:
        st.pc.append(seq_len(ch) >= 0)
    return c, ch, ObjV("self", c, {"choices": TList(ch) if choices else None, "name": SV(z3.Const("name", Obj)), "value": SV(z3.Const("default", Obj)), "type": SV(z3.Const("type", Obj))})


def value_unit(cls, entry):
    """entry: validate_value | is_valid_value | is_valid | __init__"""
    def gen(ctx):
        for choices in (False, True):
            yield from with_choices(ctx, choices)

    def with_choices(ctx, choices):
        eng = TraceEngine(ctx, None)
        st = start(ctx)
        c, ch, me = var_obj(ctx, cls, st, choices)
        fn = ctx.prog.method(c, entry)
        if fn is None:
            raise Unsupported(f"{cls}.{entry} not found")
        eng.target = fn.key
        x = z3.Const("value", Obj) if entry in ("validate_value", "is_valid_value") else z3.Const("default", Obj)
        st.pc += kinds(x)
        eng.externals["super.__init__"] = lambda e, s, a, k: [(s, None)]
        ok = valid(cls, x, ch)
        args = [SV(x)] if entry in ("validate_value", "is_valid_value") else []
        for s, v in eng.call_fn(FuncV(fn, me), args, {}, st):
            lab = f"{cls}.{entry}"
            if isinstance(v, Raised):
                if entry in ("is_valid", "is_valid_value"):
                    yield Obl(f"{lab}: never raises", s.pc, False)
                else:
                    yield Obl(f"{lab}: only a value of another type or outside the choices is rejected", s.pc, Not(ok))
                    yield Obl(f"{lab}: rejected with ValueError", s.pc, v.exc == "ValueError")
            elif entry in ("is_valid", "is_valid_value"):
                yield Obl(f"{lab}: true exactly for the allowed values", s.pc, Iff(eng.truth(v, s), ok))
            else:
                yield Obl(f"{lab}: a value of another type or outside the choices is rejected", s.pc, ok)
        ctx.close(eng)
    key = f"{VARS}:" + ("IntegerVariable" if cls == "IntegerVariable" and entry == "validate_value" else "BaseVariable") + "." + entry
    return Unit(f"{cls}.{entry}", gen, keys=[key])


def values_unit():
    """validate_variable_values: every given value belongs to a declared variable and is valid for it"""
    def gen(ctx):
        fn = ctx.prog.mod(VARS).funcs["validate_variable_values"]
        eng = TraceEngine(ctx, fn.key)
        decl, vals = SV(z3.Const("declared", Obj)), MapV(z3.Const("values", Obj))
        okv = z3.Function("valid_for", Obj, Obj, B)

        def vv(e, st, recv, args, kws):
            b = bind_args(["value"], args, kws, "validate_value")
            if not isinstance(b["value"], SV):
                raise Unsupported("value")
            a, r = e.split(st, okv(recv.t, b["value"].t))
            return ([(a, None)] if a is not None else []) + ([(r, Raised("ValueError"))] if r is not None else [])
        eng.sv_methods["validate_value"] = vv
        st = start(ctx)
        i, j = z3.Ints("i j")
        name = lambda q: attr_of("name", seq_at(decl.t, q))
        rng = lambda q: z3.And(q >= 0, q < seq_len(decl.t))
        st.pc.append(z3.ForAll([i, j], z3.Implies(z3.And(rng(i), rng(j), name(i) == name(j)), i == j)))
        k = z3.Const("k", Obj)
        good = z3.ForAll([k], z3.Implies(has_key(vals.t, k), z3.Exists([i], z3.And(rng(i), name(i) == k, okv(seq_at(decl.t, i), val_at(vals.t, k))))))
        for s, v in eng.call_fn(FuncV(fn), [ObjV("algorithm", None, {"variables": decl}), vals], {}, st):
            if isinstance(v, Raised):
                yield Obl("validate_variable_values: only undeclared or invalid values are rejected", s.pc, Not(good))
                yield Obl("validate_variable_values: rejected with ValueError", s.pc, v.exc == "ValueError")
            else:
                yield Obl("validate_variable_values: undeclared and invalid values are rejected", s.pc, good)
        ctx.close(eng)
    return Unit("validate_variable_values", gen, keys=[f"{VARS}:validate_variable_values"])


def resolve_unit():
    def gen(ctx):
        fn = ctx.prog.mod(VARS).funcs["resolve_variables"]
        eng = TraceEngine(ctx, fn.key)
        decl, vals = SV(z3.Const("declared", Obj)), MapV(z3.Const("values", Obj))
        st = start(ctx)
        i, j = z3.Ints("i j")
        name = lambda q: attr_of("name", seq_at(decl.t, q))
        rng = lambda q: z3.And(q >= 0, q < seq_len(decl.t))
        st.pc.append(z3.ForAll([i, j], z3.Implies(z3.And(rng(i), rng(j), name(i) == name(j)), i == j)))
        want = lambda q: z3.If(has_key(vals.t, name(q)), val_at(vals.t, name(q)), attr_of("value", seq_at(decl.t, q)))
        for s, v in eng.call_fn(FuncV(fn), [decl, vals], {}, st):
            if isinstance(v, Raised):
                yield Obl(f"resolve_variables: never raises {v.exc}", s.pc, False)
                continue
            c = s.store[v.oid] if isinstance(v, CRef) else v
            if not (isinstance(c, Cont) and c.kind == "dict"):
                raise Mismatch("value returned")
            q = z3.Const("q", I)
            some = []
            for g in flat_segs(c.segs):
                key, val = g.elem
                if not (isinstance(key, SV) and isinstance(val, SV)):
                    raise Mismatch("resolved entry")
                yield Obl("resolve_variables: every entry is a declared variable with the user's value or else its default", s.pc,
                          ForAll(list(g.bvs), Implies(g.guard, Exists([q], And(rng(q), key.t == name(q), val.t == want(q))))))
                some.append(Exists(list(g.bvs), And(g.guard, key.t == name(q))))
            yield Obl("resolve_variables: every declared variable is resolved", s.pc, ForAll([q], Implies(rng(q), Or(*some))))
        ctx.close(eng)
    return Unit("resolve_variables", gen, keys=[f"{VARS}:resolve_variables"])


def flat_segs(segs):
    out = []
    for g in segs:
        if isinstance(g.elem, BlockV):
            for pc, sk, gs in g.elem.paths:
                for h in flat_segs(gs):
                    out.append(Seg(list(g.bvs) + list(sk) + list(h.bvs), And(g.guard, *pc, h.guard), h.elem))
        else:
            out.append(g)
    return out


class ObjDict:
    """obj.__dict__: replacing an attribute is an event"""
    closed = True
    def __init__(self, owner):
        self.owner = owner
        self.m = MapV(attr_of("__dict__", owner.t))
    def iter_segs(self, eng, st):
        return self.m.iter_segs(eng, st)
    def contains(self, eng, st, x):
        return self.m.contains(eng, st, x)
    def item(self, eng, st, k):
        return self.m.item(eng, st, k)
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        return self.m.method(eng, st, name, args, kws)
    def set_item(self, eng, st, k, v):
        event(st, "set", owner=self.owner, attr=k, value=eng.freeze(v, st))
        return [(st, NORMAL)]


class Inst(SV):
    """an object whose attributes are walked"""
    def subst(self, pairs):
        return Inst(z3.substitute(self.t, *pairs))
    def attr(self, eng, st, a):
        if a == "__dict__":
            return [(st, ObjDict(self))]
        return super().attr(eng, st, a)
    def set_attr(self, eng, st, a, v):
        event(st, "set", owner=self, attr=a, value=eng.freeze(v, st))
        return [(st, NORMAL)]


def m_setattr(eng, st, args, kws):
    s = st.copy()
    event(s, "set", owner=args[0], attr=args[1], value=eng.freeze(args[2], s))
    return [(s, None)]


def object_unit():
    """resolve_variable_to_object: one attribute of an arbitrary object"""
    def gen(ctx):
        fn = ctx.prog.mod(VARS).funcs["resolve_variable_to_object"]
        eng = TraceEngine(ctx, fn.key)
        rec = z3.Function("resolved", Obj, Obj)
        obj, vars_ = Inst(z3.Const("obj", Obj)), MapV(z3.Const("variables", Obj))

        class Rec:
            def apply(self, e, st, b):
                o, v = b.get("obj"), b.get("variables")
                if not isinstance(o, SV) or not (isinstance(v, MapV) and v.t.eq(vars_.t)):
                    raise Mismatch("recursive call")
                s = st.copy()
                event(s, "rec", obj=o)
                return [(s, SV(rec(o.t)))]
        st = start(ctx)
        m = Match(eng, "resolve_variable_to_object")
        eng.contracts[fn.key] = Rec()
        eng.externals["builtins.setattr"] = m_setattr
        top = True
        for s, v in eng.inline(FuncV(fn), {"obj": obj, "variables": vars_}, st):
            d = MapV(attr_of("__dict__", obj.t))
            k = z3.Const("k", Obj)
            isref = lambda t: isa("VariableReference", t)
            nm = lambda t: attr_of("name", t)
            if isinstance(v, Raised):
                m.ob("an error is reported only for an unknown variable", s.pc, z3.Exists([k], z3.And(has_key(d.t, k), isref(val_at(d.t, k)), z3.Not(has_key(vars_.t, nm(val_at(d.t, k)))))))
                m.ob("an unknown variable is reported with ValueError", s.pc, v.exc == "ValueError")
                continue
            m.ob("a reference to an unknown variable is reported", s.pc, z3.ForAll([k], z3.Implies(z3.And(has_key(d.t, k), isref(val_at(d.t, k))), has_key(vars_.t, nm(val_at(d.t, k))))))
            m.value("the object itself is returned", s, v, obj)
            sets, recs = [], []
            for g in flat_segs(s.store[TR].segs):
                f = g.elem.fields
                (sets if f["kind"] == "set" else recs).append((g, f))
            cover = []
            for g, f in sets:
                a, val = f["attr"], f["value"]
                if not (isinstance(a, SV) and isinstance(val, SV) and isinstance(f["owner"], SV)):
                    raise Mismatch("assignment")
                cur = val_at(d.t, a.t)
                m.ob("only attributes of the object are replaced", s.pc, ForAll(list(g.bvs), Implies(g.guard, And(f["owner"].t == obj.t, has_key(d.t, a.t)))))
                m.ob("a reference is replaced by the value of the variable it names", s.pc, ForAll(list(g.bvs), Implies(And(g.guard, isref(cur)), val.t == val_at(vars_.t, nm(cur)))))
                m.ob("anything else is only replaced by its resolved form", s.pc, ForAll(list(g.bvs), Implies(And(g.guard, Not(isref(cur))), val.t == rec(cur))))
                cover.append(lambda t, g=g, a=a: Exists(list(g.bvs), And(g.guard, a.t == t)))
            m.ob("every reference is replaced", s.pc, ForAll([k], Implies(And(has_key(d.t, k), isref(val_at(d.t, k))), Or(*[c(k) for c in cover]))))
            hasd, hasv = z3.Function("has___dict__", Obj, B), z3.Function("has_value", Obj, B)
            x = val_at(d.t, k)
            m.ob("loop body: objects inside the object are resolved as well", s.pc, ForAll([k], Implies(And(has_key(d.t, k), Not(isref(x)), hasd(x), Not(hasv(x)), Not(isa("NoneType", x))), Or(*[c(k) for c in cover]))))
        yield from m.out
        ctx.close(eng)
    return Unit("resolve_variable_to_object", gen, keys=[f"{VARS}:resolve_variable_to_object"])


class StepsV(SV):
    """a list of steps; replacing an element is an event"""
    def subst(self, pairs):
        return StepsV(z3.substitute(self.t, *pairs))
    def iter_segs(self, eng, st):
        i = z3.Const(fresh_name("i"), I)
        return [Seg([i], z3.And(i >= 0, i < seq_len(self.t)), Inst(seq_at(self.t, i)))]
    def item(self, eng, st, k):
        if isz(k) and k.sort() == I:
            return [(st, Inst(seq_at(self.t, k)))]
        raise Unsupported("index")
    def set_item(self, eng, st, k, v):
        event(st, "item", owner=self, index=k, value=eng.freeze(v, st))
        return [(st, NORMAL)]


def steps_unit():
    def gen(ctx):
        fn = ctx.prog.mod(VARS).funcs["resolve_variables_to_algorithm_for_pipeline_steps"]
        one = ctx.prog.mod(VARS).funcs["resolve_variable_to_object"]
        eng = TraceEngine(ctx, fn.key)
        steps, vars_ = StepsV(z3.Const("steps", Obj)), MapV(z3.Const("variables", Obj))
        rsteps = z3.Function("resolved_steps", Obj, Obj)

        class One:
            def apply(self, e, st, b):
                if not (isinstance(b.get("obj"), SV) and isinstance(b.get("variables"), MapV) and b["variables"].t.eq(vars_.t)):
                    raise Mismatch("call of resolve_variable_to_object")
                s = st.copy()
                event(s, "one", obj=b["obj"])
                return [(s, b["obj"])]      # the object itself, changed in place

        class Sub:
            def apply(self, e, st, b):
                if not (isinstance(b.get("pipeline_steps"), SV) and isinstance(b.get("variables"), MapV) and b["variables"].t.eq(vars_.t)):
                    raise Mismatch("recursive call")
                s = st.copy()
                event(s, "sub", steps=b["pipeline_steps"])
                return [(s, b["pipeline_steps"])]
        eng.contracts[one.key] = One()
        eng.contracts[fn.key] = Sub()
        eng.externals["builtins.setattr"] = m_setattr
        st = start(ctx)
        m = Match(eng, "resolve_variables_to_algorithm_for_pipeline_steps")
        run = StepRun("", {})
        run.m = m
        for s, v in eng.inline(FuncV(fn), {"pipeline_steps": steps, "variables": vars_}, st):
            if isinstance(v, Raised):
                m.ob(f"never raises {v.exc}", s.pc, False)
                continue
            i, rng, paths = run.loop(s, s.store[TR].segs, steps, "the steps are worked on")
            x = Inst(seq_at(steps.t, i))
            nested = z3.Function("has_pipeline_steps", Obj, B)(x.t)
            sub = attr_of("pipeline_steps", x.t)
            for pc, gs in paths:
                s2 = run.within(s, rng, *pc)
                ones = subs = 0
                for g in gs:
                    if g.bvs or g.guard is not True:
                        raise Mismatch("nested loop")
                    f = g.elem.fields
                    if f["kind"] == "one":
                        ones += 1
                        m.value("each step itself is resolved", s2, f["obj"], x)
                    elif f["kind"] == "sub":
                        subs += 1
                        m.ob("the steps of a logic step are resolved", s2.pc, And(nested, f["steps"].t == sub))
                    elif f["kind"] == "item":
                        m.ob("a step stays where it is", s2.pc, And(f["index"] == i, f["value"].t == x.t, f["owner"].t == steps.t))
                    elif f["kind"] == "set":
                        if f["attr"] != "pipeline_steps" or not isinstance(f["value"], SV):
                            raise Mismatch("assignment")
                        m.ob("the steps of a logic step stay with it", s2.pc, And(f["owner"].t == x.t, f["value"].t == sub))
                    else:
                        raise Mismatch(f["kind"])
                m.ob("every step is resolved", s2.pc, ones > 0)
                m.ob("the steps nested in a step are resolved", s2.pc, Implies(nested, subs > 0))
            if not isinstance(v, SV):
                raise Mismatch("value returned")
            m.value("the steps are returned", s, v, steps)
        yield from m.out
        ctx.close(eng)
    return Unit("resolve_variables_to_algorithm_for_pipeline_steps", gen, keys=[f"{VARS}:resolve_variables_to_algorithm_for_pipeline_steps"])


def p15_units():
    out = [value_unit(c, "validate_value") for c in TYPES]
    out += [value_unit(c, e) for e in ("is_valid_value", "is_valid", "__init__") for c in TYPES]
    return out + [values_unit(), resolve_unit(), object_unit(), steps_unit()]


def deserialize_unit():
    def gen(ctx):
        fn = ctx.prog.mod(VARS).funcs["deserialize_variable"]
        eng = TraceEngine(ctx, fn.key)
        made = []
        for kind, cls in (("string", "StringVariable"), ("integer", "IntegerVariable"), ("float", "FloatVariable"), ("bool", "BoolVariable"), ("other", None), (None, None)):
            st = start(ctx)
            d = [("name", SV(z3.Const("name", Obj))), ("value", SV(z3.Const("value", Obj)))] + ([("type", kind)] if kind else [])
            ref = st.new(Cont("dict", [Seg((), True, x) for x in d]))
            for c in TYPES:
                def mk(e, s, a, k, c=c):
                    return [(s, RecV(c, dict(k)))]
                eng.externals["new:" + c] = mk
            lab = f"deserialize_variable (type {kind})"
            for s, v in eng.call_fn(FuncV(fn), [ref], {}, st):
                if isinstance(v, Raised):
                    yield Obl(f"{lab}: only an unknown type is rejected", s.pc, cls is None)
                    yield Obl(f"{lab}: rejected with ValueError", s.pc, v.exc == "ValueError")
                    continue
                if not isinstance(v, RecV):
                    raise Mismatch("value returned")
                yield Obl(f"{lab}: a variable of that type is made", s.pc, v.cls == cls)
                for k in ("name", "value"):
                    if k not in v.fields:
                        raise Mismatch("fields")
                    yield Obl(f"{lab}: its {k} is kept", s.pc, same_value(eng, s, v.fields[k], dict(d)[k]))
        ctx.close(eng)
    return Unit("deserialize_variable", gen, keys=[f"{VARS}:deserialize_variable"])


def factory_unit():
    """graph_model_factory resolves the references of the pipeline with the given values, or with the declared defaults"""
    def gen(ctx):
        fn = ctx.prog.mod(GMF).funcs["graph_model_factory"]
        vm = ctx.prog.mod(VARS)
        rv, rs = vm.funcs["resolve_variables"], vm.funcs["resolve_variables_to_algorithm_for_pipeline_steps"]
        for declared in (False, True):
            for given in (False, True):
                eng = TraceEngine(ctx, fn.key)
                eng.externals["copy.deepcopy"] = lambda e, s, a, k: [(s, SV(z3.Const(fresh_name("copy"), Obj)))]
                steps, decl = SV(z3.Const("steps", Obj)), SV(z3.Const("declared", Obj))
                vals = MapV(z3.Const("values", Obj))

                class RV:
                    def apply(self, e, st, b):
                        s = st.copy()
                        r = MapV(skolem(s, "resolved"))
                        event(s, "vars", declared=b.get("variables"), values=contents(e, b.get("variable_values"), s), result=r)
                        return [(s, r)]

                class RS:
                    def apply(self, e, st, b):
                        s = st.copy()
                        r = SV(skolem(s, "new_steps"))
                        event(s, "steps", steps=b.get("pipeline_steps"), values=contents(e, b.get("variables"), s), result=r)
                        return [(s, r)]
                eng.contracts[rv.key], eng.contracts[rs.key] = RV(), RS()
                alg = ObjV("algorithm", None, {"variables": decl if declared else None, "pipeline_steps": steps, "edge_types": None, "extensions": None})
                st = start(ctx)
                if declared:
                    st.pc.append(Not(decl.is_none(eng, st)))
                m = Match(eng, f"graph_model_factory (variables declared {declared}, given {given})")
                for s, v in eng.call_fn(FuncV(fn), [], {"algorithm": alg, "variables": vals if given else None}, st):
                    if isinstance(v, Raised):
                        m.ob(f"never raises {v.exc}", s.pc, False)
                        continue
                    tr = list(s.store[TR].segs)
                    want = vals if given else Cont("dict")
                    if declared and not given:
                        if not tr:
                            raise Mismatch("defaults")
                        f = m.ev(tr.pop(0), "vars")
                        m.value("the declared variables are resolved", s, f["declared"], decl)
                        m.ob("no user values are invented", s.pc, isinstance(f["values"], Cont) and not f["values"].segs)
                        want = f["result"]
                    if len(tr) != 1:
                        if not tr:
                            m.ob("the references of the pipeline are resolved", s.pc, False)
                            continue
                        raise Mismatch("resolution of the steps")
                    f = m.ev(tr[0], "steps")
                    m.value("the steps of the algorithm are resolved", s, f["steps"], steps)
                    if isinstance(want, Cont):
                        m.ob("without variables nothing is resolved", s.pc, isinstance(f["values"], Cont) and not f["values"].segs)
                    else:
                        if not isinstance(f["values"], SV):
                            m.ob("the references get the resolved values", s.pc, False)
                            continue
                        m.value("the references get the resolved values", s, f["values"], want)
                    got = s.heap.get(("o", "algorithm", "pipeline_steps"))
                    if not isinstance(got, SV):
                        raise Mismatch("steps of the algorithm")
                    m.value("the model runs the resolved steps", s, got, f["result"])
                yield from m.out
                ctx.close(eng)
    return Unit("graph_model_factory", gen, keys=[f"{GMF}:graph_model_factory"])


def p15_units():
    out = [value_unit(c, "validate_value") for c in TYPES]
    out += [value_unit(c, e) for e in ("is_valid_value", "is_valid", "__init__") for c in TYPES]
    return out + [values_unit(), resolve_unit(), object_unit(), steps_unit(), deserialize_unit(), factory_unit()]
