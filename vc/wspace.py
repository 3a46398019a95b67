"""Contracts of the workspace commands (P22, P19, P18).

The stored workspace is ghost state: three maps (pipelines, data loaders, experiments) and the variables of every experiment.
`_current_workspace` hands out an object with the stored contents, `write_to_workspace` stores the contents of the object."""
import z3
from .base import *
from .interp import *
from .trace import *
from .vars import attr_of, isa, kinds, TYPES
from .verify import Obl, Unit

CLI = "causy/workspaces/cli.py"
DOM, VAL = z3.ArraySort(Obj, B), z3.ArraySort(Obj, Obj)
MAPS = ("pipelines", "dataloaders", "experiments")
XDOM, XVAL = z3.ArraySort(Obj, DOM), z3.ArraySort(Obj, VAL)
TRUE, FALSE = z3.Const("py:bool:True", Obj), z3.Const("py:bool:False", Obj)
lower = z3.Function("lower", Obj, Obj)


def sconst(x):
    return z3.Const("str:" + x, Obj)


class StrO(SV):
    """an opaque string"""
    def subst(self, pairs):
        return StrO(z3.substitute(self.t, *pairs))
    def is_none(self, eng, st):
        return False
    def isinst(self, eng, st, n):
        return n == "str"
    def truth(self, eng, st):
        return self.t != sconst("")
    def eq_to(self, eng, st, o):
        if isinstance(o, str):
            return self.t == sconst(o)
        if isinstance(o, (bool, int, float, type(None))):
            return False
        return super().eq_to(eng, st, o)
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name == "lower" and not args and not kws:
            return [(st, StrO(lower(self.t)))]
        raise Unsupported(f"str.{name}")


def term(v):
    if isinstance(v, SV):
        return v.t
    if hasattr(v, "obj_term"):
        return v.obj_term()
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isz(v) and v.sort() == B:
        return z3.If(v, TRUE, FALSE)
    if isz(v) and v.sort() == Obj:
        return v
    if isinstance(v, str):
        return sconst(v)
    raise Unsupported(f"value {v!r}")


class WMap:
    """a dictionary of the workspace object; its contents are heap components"""
    closed = True
    def __init__(self, name, path=()):
        self.name, self.path = name, path
    def __repr__(self):
        return f"WMap({self.name})"
    def subst(self, pairs):
        return WMap(self.name, tuple(z3.substitute(p, *pairs) for p in self.path))
    def get(self, st, k):
        a = st.heap[self.name + k]
        for p in self.path:
            a = z3.Select(a, p)
        return a
    def put(self, st, k, a):
        st.heap[self.name + k] = z3.Store(st.heap[self.name + k], self.path[0], a) if self.path else a
    def wrap(self, t):
        return SV(t)
    def contains(self, eng, st, x):
        return z3.Select(self.get(st, ".dom"), term(x))
    def is_none(self, eng, st):
        return False
    def isinst(self, eng, st, n):
        return n in ("dict", "Dict")
    def truth(self, eng, st):
        return eng.nonempty(self.iter_segs(eng, st))
    def item(self, eng, st, k):
        return eng.guarded(st, self.contains(eng, st, k), lambda s: self.wrap(z3.Select(self.get(s, ".val"), term(k))), "KeyError")
    def iter_segs(self, eng, st):
        k = z3.Const(fresh_name("k"), Obj)
        return [Seg([k], z3.Select(self.get(st, ".dom"), k), StrO(k))]
    def dict_segs(self, eng, st):
        g = self.iter_segs(eng, st)[0]
        return [Seg(g.bvs, g.guard, (g.elem, self.wrap(z3.Select(self.get(st, ".val"), g.elem.t))))]
    def set_item(self, eng, st, k, v):
        s = st.copy()
        self.put(s, ".dom", z3.Store(self.get(s, ".dom"), term(k), True))
        self.put(s, ".val", z3.Store(self.get(s, ".val"), term(k), term(v)))
        return [(s, NORMAL)]
    def assign(self, eng, st, v):
        """the attribute that holds this dictionary is replaced"""
        s = st.copy()
        if isinstance(v, WMap) and v.name == self.name:
            return [(s, NORMAL)]
        c = s.store[v.oid] if isinstance(v, CRef) else v
        if not isinstance(c, Cont) or c.kind != "dict" or self.path:
            raise Unsupported("replacing a dictionary of the workspace")
        x = z3.Const(fresh_name("x"), Obj)
        dom, val = z3.BoolVal(False), z3.Select(self.get(s, ".val"), x)
        for g in c.segs:                # later entries win
            k, e = term(g.elem[0]), term(g.elem[1])
            if not g.bvs:
                here = And(g.guard, x == k)
            elif len(g.bvs) == 1 and k.eq(g.bvs[0]):
                here, e = subst_val(g.guard, [(k, x)]), z3.substitute(e, (k, x))
            else:
                raise Unsupported("replacing a dictionary of the workspace")
            here = tob(here)
            dom, val = z3.Or(dom, here), z3.If(here, e, val)
        self.put(s, ".dom", z3.Lambda([x], dom))
        self.put(s, ".val", z3.Lambda([x], val))
        return [(s, NORMAL)]
    def del_item(self, eng, st, k):
        out = []
        a, b = eng.split(st, self.contains(eng, st, k))
        if a is not None:
            s = a.copy()
            self.put(s, ".dom", z3.Store(self.get(s, ".dom"), term(k), False))
            out.append((s, NORMAL))
        if b is not None:
            out.append((b, ("raise", Raised("KeyError"))))
        return out
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name == "keys":
            return [(st, self)]
        if name in ("items", "values"):
            s = st.copy()
            g = self.iter_segs(eng, s)[0]
            v = self.wrap(z3.Select(self.get(s, ".val"), g.elem.t))
            return [(s, s.new(Cont("list", [Seg(g.bvs, g.guard, (g.elem, v) if name == "items" else v)])))]
        if name in ("get", "pop"):
            out = []
            for s, v in self.item(eng, st, args[0]):
                if isinstance(v, Raised):
                    out.append((s, args[1] if len(args) > 1 else v if name == "pop" else None))
                elif name == "get":
                    out.append((s, v))
                else:
                    out += [(s2, v) for s2, o in self.del_item(eng, s, args[0])]
            return out
        if name == "update" and len(args) == 1 and isinstance(args[0], (CRef, Cont)):
            cur = [st]
            for g in (st.store[args[0].oid] if isinstance(args[0], CRef) else args[0]).segs:
                if g.bvs or g.guard is not True:
                    raise Unsupported("dict.update")
                cur = [s2 for s in cur for s2, _ in self.set_item(eng, s, g.elem[0], g.elem[1])]
            return [(s, None) for s in cur]
        raise Unsupported(f"dict.{name}")


COMPONENTS = [m + k for m in MAPS for k in (".dom", ".val")] + ["xvars.dom", "xvars.val"]


def ws_state(ctx, eng):
    """start state: the stored workspace; the engine gets the contracts of reading and storing it"""
    st = start(ctx)
    for m in MAPS:
        st.heap[m + ".dom"], st.heap[m + ".val"] = z3.Const(m + ".dom", DOM), z3.Const(m + ".val", VAL)
    st.heap["xvars.dom"], st.heap["xvars.val"] = z3.Const("xvars.dom", XDOM), z3.Const("xvars.val", XVAL)
    init = {}
    for k in COMPONENTS:
        st.heap["disk:" + k] = init[k] = st.heap[k]
    a, b = z3.Consts("n1 n2", Obj)
    ex, dom = init["experiments.val"], init["experiments.dom"]
    st.pc += [z3.ForAll([a, b], z3.Implies(z3.And(dom[a], dom[b], ex[a] == ex[b]), a == b)),   # every experiment is an object of its own
              z3.ForAll([a], z3.Implies(dom[a], init["pipelines.dom"][attr_of("pipeline", ex[a])])),
              z3.ForAll([a], z3.Implies(dom[a], init["dataloaders.dom"][attr_of("dataloader", ex[a])])),
              TRUE != FALSE, isa("bool", TRUE), isa("bool", FALSE), isa("int", TRUE), isa("int", FALSE),
              z3.Distinct(sconst(""), sconst("true"), sconst("false"))]
    ws = ObjV("workspace", "Workspace", {m: WMap(m) for m in MAPS})
    eng.sv_attrs = {"variables": lambda e, s, v: [(s, WMap("xvars", (v.t,)))],
                    "pipeline": lambda e, s, v: [(s, StrO(attr_of("pipeline", v.t)))],
                    "dataloader": lambda e, s, v: [(s, StrO(attr_of("dataloader", v.t)))]}
    m = ctx.prog.mod(CLI)

    class Cur:
        def apply(self, e, s, b):
            if any(not s.heap[k].eq(s.heap["disk:" + k]) for k in COMPONENTS) or s.heap.get("loaded"):
                raise Unsupported("workspace read twice")
            s = s.copy()
            s.heap["loaded"] = True
            return [(s, ws)]

    class Write:
        def apply(self, e, s, b):
            w = b.get("workspace")
            if not (isinstance(w, ObjV) and w.name == "workspace"):
                raise Mismatch("workspace stored")
            s = s.copy()
            for k in COMPONENTS:
                s.heap["disk:" + k] = s.heap[k]
            return [(s, None)]
    for n, c in (("_current_workspace", Cur()), ("write_to_workspace", Write())):
        if n in m.funcs:
            eng.contracts[m.funcs[n].key] = c
    return st, ws, init


def disk(s, k):
    return s.heap["disk:" + k]


def map_same(s, init, name, but=None):
    """the stored map is the initial one (without `but`)"""
    k = z3.Const(fresh_name("k"), Obj)
    d0, v0 = init[name + ".dom"], init[name + ".val"]
    d1, v1 = disk(s, name + ".dom"), disk(s, name + ".val")
    keep = d0[k] if but is None else z3.And(d0[k], k != but)
    return z3.ForAll([k], z3.And(d1[k] == keep, z3.Implies(keep, v0[k] == v1[k])))


def xvars_same(s, init):
    return z3.And(disk(s, "xvars.dom") == init["xvars.dom"], disk(s, "xvars.val") == init["xvars.val"])


def unchanged(s, init):
    return And(*[map_same(s, init, m) for m in MAPS], xvars_same(s, init))


def remove_unit(func, param, coll, attr):
    """removing a pipeline / data loader / experiment"""
    def gen(ctx):
        fn = ctx.prog.mod(CLI).funcs[func]
        eng = TraceEngine(ctx, fn.key)
        st, ws, init = ws_state(ctx, eng)
        name = StrO(z3.Const("name", Obj))
        m = ctx.prog.mod(CLI)
        if "_clear_experiment" in m.funcs:
            class Clear:
                def apply(self, e, s, b):
                    s = s.copy()
                    event(s, "clear", name=b.get("experiment_name"))
                    return [(s, skolem(s, "removed", I))]
            eng.contracts[m.funcs["_clear_experiment"].key] = Clear()
        used = False
        if attr:
            k = z3.Const("k", Obj)
            used = z3.Exists([k], z3.And(init["experiments.dom"][k], attr_of(attr, init["experiments.val"][k]) == name.t))
        there = init[coll + ".dom"][name.t]
        refused = Or(Not(there), used)
        what = coll[:-1]
        for s, v in eng.call_fn(FuncV(fn), [name], {}, st):
            yield Obl(f"{func}: a {what} that is unknown" + (" or still used" if attr else "") + " leaves the stored workspace unchanged", s.pc, Implies(refused, unchanged(s, init)))
            if not isinstance(v, Raised):
                others = And(*[map_same(s, init, x) for x in MAPS if x != coll])
                yield Obl(f"{func}: removes exactly the given {what}", s.pc, Implies(Not(refused), map_same(s, init, coll, name.t)))
                yield Obl(f"{func}: nothing else of the workspace changes", s.pc, Implies(Not(refused), And(others, xvars_same(s, init))))
            else:
                yield Obl(f"{func}: only a refused removal raises", s.pc, refused)
        ctx.close(eng)
    return Unit(func, gen, keys=[f"{CLI}:{func}"])


def clear_unit():
    def gen(ctx):
        fn = ctx.prog.mod(CLI).funcs["clear_experiment"]
        eng = TraceEngine(ctx, fn.key)
        st, ws, init = ws_state(ctx, eng)

        class Clear:
            def apply(self, e, s, b):
                return [(s, skolem(s, "removed", I))]
        eng.contracts[ctx.prog.mod(CLI).funcs["_clear_experiment"].key] = Clear()
        for s, v in eng.call_fn(FuncV(fn), [StrO(z3.Const("name", Obj))], {}, st):
            yield Obl("clear_experiment: the stored workspace stays as it is", s.pc, unchanged(s, init))
        ctx.close(eng)
    return Unit("clear_experiment", gen, keys=[f"{CLI}:clear_experiment"])


def clear_call_unit(func):
    """clearing / removing an experiment clears the results of exactly the experiment it names"""
    def gen(ctx):
        m = ctx.prog.mod(CLI)
        fn = m.funcs[func]
        eng = TraceEngine(ctx, fn.key)
        st, ws, init = ws_state(ctx, eng)
        name = StrO(z3.Const("name", Obj))

        class Clear:
            def apply(self, e, s, b):
                n = b.get("experiment_name")
                if not isinstance(n, StrO):
                    raise Mismatch("name of the experiment to clear")
                s = s.copy()
                event(s, "clear", name=n)
                return [(s, skolem(s, "removed", I))]
        eng.contracts[m.funcs["_clear_experiment"].key] = Clear()
        known = init["experiments.dom"][name.t]
        for s, v in eng.call_fn(FuncV(fn), [name], {}, st):
            hit = []
            for g in flat(s.store[TR].segs):
                if g.elem.fields["kind"] != "clear":
                    continue
                same = g.elem.fields["name"].t == name.t
                yield Obl(f"{func}: deletes results of the given experiment only", s.pc, ForAll(list(g.bvs), Implies(g.guard, And(same, known))))
                hit.append(Exists(list(g.bvs), And(g.guard, same)))
            if isinstance(v, Raised):
                yield Obl(f"{func}: a known experiment is cleared without {v.exc}", s.pc, Not(known))
            else:
                yield Obl(f"{func}: deletes the results of the given experiment", s.pc, Implies(known, Or(*hit)))
        ctx.close(eng)
    return Unit(func + " (results)", gen, keys=[f"{CLI}:{func}"])


PYT = {"StringVariable": "str", "IntegerVariable": "int", "FloatVariable": "float", "BoolVariable": "bool"}
conv = {t: z3.Function("conv_" + t, Obj, Obj) for t in ("int", "float")}
parses = {t: z3.Function("parses_" + t, Obj, B) for t in ("int", "float")}
valid_for = z3.Function("valid_for", Obj, Obj, B)


def m_conv(t):
    def h(eng, st, args, kws):
        if len(args) != 1 or kws or not isinstance(args[0], StrO):
            raise Unsupported(f"{t}(...)")
        x = args[0].t
        if t == "str":
            return [(st, args[0])]
        if t == "bool":
            return [(st, x != sconst(""))]
        return eng.guarded(st, parses[t](x), lambda s: SV(conv[t](x)), "ValueError")
    return h


def update_unit():
    def gen(ctx):
        fn = ctx.prog.mod(CLI).funcs["update_experiment_variable"]
        eng = TraceEngine(ctx, fn.key)
        st, ws, init = ws_state(ctx, eng)
        exp, var, val = (StrO(z3.Const(n, Obj)) for n in ("experiment_name", "variable_name", "variable_value"))
        alg = z3.Function("algorithm_of", Obj, Obj, Obj)

        class Load:
            def apply(self, e, s, b):
                return [(s, SV(alg(term(b.get("reference_type")), term(b.get("algorithm")))))]

        class Validate:
            def apply(self, e, s, b):
                d = b.get("variable_values")
                c = s.store[d.oid] if isinstance(d, CRef) else d
                a = b.get("algorithm")
                if not (isinstance(c, Cont) and c.kind == "dict" and isinstance(a, SV)) or any(g.bvs or g.guard is not True for g in c.segs):
                    raise Unsupported("validate_variable_values")
                seq = attr_of("declared", a.t)
                q = z3.Const(fresh_name("q"), I)
                good = And(*[z3.Exists([q], z3.And(q >= 0, q < seq_len(seq), attr_of("name", seq_at(seq, q)) == term(g.elem[0]), valid_for(seq_at(seq, q), term(g.elem[1])))) for g in c.segs])
                return e.guarded(s, good, lambda s2: True, "ValueError")
        eng.contracts[ctx.prog.resolve("causy.serialization.load_algorithm_by_reference")[1].key] = Load()
        eng.contracts[ctx.prog.resolve("causy.variables.validate_variable_values")[1].key] = Validate()

        def variables(e, s, v):
            if z3.is_app(v.t) and v.t.decl().name() == "algorithm_of":
                return [(s, SV(attr_of("declared", v.t)))]
            return [(s, WMap("xvars", (v.t,)))]
        eng.sv_attrs["variables"] = variables
        eng.sv_attrs["name"] = lambda e, s, v: [(s, StrO(attr_of("name", v.t)))]

        def pytype(e, s, v):
            out = []
            for c, t in PYT.items():
                a = e.assume(s, isa(c, v.t))
                if a is not None:
                    out.append((a, ExtV("builtins." + t)))
            return out
        eng.sv_attrs["_PYTHON_TYPE"] = pytype

        def vv(e, s, recv, args, kws):
            b = bind_args(["value"], args, kws, "validate_value")
            return e.guarded(s, valid_for(recv.t, term(b["value"])), lambda s2: None, "ValueError")
        eng.sv_methods["validate_value"] = vv

        def ivv(e, s, recv, args, kws):
            b = bind_args(["value"], args, kws, "is_valid_value")
            return [(s, valid_for(recv.t, term(b["value"])))]
        eng.sv_methods["is_valid_value"] = ivv
        for t in ("str", "int", "float", "bool"):
            eng.externals["builtins." + t] = m_conv(t)
        x, y = z3.Consts("x y", Obj)
        names = list(PYT)
        st.pc += [z3.ForAll([x], z3.PbEq([(isa(c, x), 1) for c in names], 1)),
                  *[z3.ForAll([x, y], z3.Implies(z3.And(isa(c, x), valid_for(x, y)), TYPES[c](y)), patterns=[valid_for(x, y)]) for c in names],
                  isa("str", val.t), *kinds(val.t), *[z3.ForAll([x], z3.And(isa(t, c(x)), *kinds(c(x)), z3.Not(isa("bool", c(x))))) for t, c in conv.items()]]
        e0 = init["experiments.val"][exp.t]
        pl = init["pipelines.val"][attr_of("pipeline", e0)]
        seq = attr_of("declared", alg(attr_of("type", pl), attr_of("reference", pl)))
        i, j = z3.Ints("i j")
        nm = lambda q: attr_of("name", seq_at(seq, q))
        rng = lambda q: z3.And(q >= 0, q < seq_len(seq))
        st.pc.append(z3.ForAll([i, j], z3.Implies(z3.And(rng(i), rng(j), nm(i) == nm(j)), i == j)))
        low = lower(val.t)

        def converts(v, r):
            return z3.Or(z3.And(isa("StringVariable", v), r == val.t),
                         *[z3.And(isa(c, v), parses[PYT[c]](val.t), r == conv[PYT[c]](val.t)) for c in ("IntegerVariable", "FloatVariable")],
                         z3.And(isa("BoolVariable", v), z3.Or(z3.And(low == sconst("true"), r == TRUE), z3.And(low == sconst("false"), r == FALSE))))
        q, r = z3.Const("q", I), z3.Const("r", Obj)
        # the (only) accepted value, if there is one
        accepted = lambda q, r: z3.And(init["experiments.dom"][exp.t], rng(q), nm(q) == var.t, converts(seq_at(seq, q), r), valid_for(seq_at(seq, q), r))
        k = z3.Const("k", Obj)
        same_maps = And(*[True])
        for s, v in eng.call_fn(FuncV(fn), [exp, var, val], {}, st):
            lab = "update_experiment_variable"
            maps = And(*[map_same(s, init, m) for m in MAPS])
            yield Obl(f"{lab}: pipelines, data loaders and the set of experiments stay as they are", s.pc, maps)
            o = z3.Const("o", Obj)
            yield Obl(f"{lab}: the variables of other experiments stay as they are", s.pc,
                      z3.ForAll([o], z3.Implies(o != e0, z3.And(disk(s, "xvars.dom")[o] == init["xvars.dom"][o], disk(s, "xvars.val")[o] == init["xvars.val"][o]))))
            d0, v0, d1, v1 = init["xvars.dom"][e0], init["xvars.val"][e0], disk(s, "xvars.dom")[e0], disk(s, "xvars.val")[e0]
            yield Obl(f"{lab}: other variables of the experiment stay as they are", s.pc,
                      z3.ForAll([k], z3.Implies(k != var.t, z3.And(d1[k] == d0[k], z3.Implies(d0[k], v1[k] == v0[k])))))
            yield Obl(f"{lab}: an unknown variable or a value that does not fit leaves the workspace unchanged", s.pc,
                      z3.Implies(z3.ForAll([q, r], z3.Not(accepted(q, r))), z3.And(d1[var.t] == d0[var.t], z3.Implies(d0[var.t], v1[var.t] == v0[var.t]))))
            yield Obl(f"{lab}: a fitting value is stored converted to the declared type", s.pc,
                      z3.ForAll([q, r], z3.Implies(accepted(q, r), z3.And(d1[var.t], v1[var.t] == r))))
        ctx.close(eng)
    return Unit("update_experiment_variable", gen, keys=[f"{CLI}:update_experiment_variable"])


def p22_units():
    return [remove_unit("remove_pipeline", "pipeline_name", "pipelines", "pipeline"),
            remove_unit("remove_data_loader", "data_loader_name", "dataloaders", "dataloader"),
            remove_unit("remove_experiment", "experiment_name", "experiments", None),
            clear_unit(), update_unit()]


# ---------------------------------------------------------------- P19

class Quiet:
    """an object of the user interface: what is done with it is dropped"""
    closed = True
    def __init__(self, none=False):
        self.none = none
    def enter(self, eng, st):
        return [(st, self)]
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        return [(st, Quiet())]
    def item(self, eng, st, k):
        return [(st, Quiet())]
    def is_none(self, eng, st):
        return self.none
    def truth(self, eng, st):
        return Not(self.none)


class AlgV(SV):
    """a loaded algorithm; what it says now is the heap component `content`"""
    def subst(self, pairs):
        return AlgV(z3.substitute(self.t, *pairs))
    def is_none(self, eng, st):
        return False
    def attr(self, eng, st, a):
        if a == "variables":
            return [(st, SV(attr_of("declared", self.t)))]
        if a == "hash":
            return [(st, MethV(self, a))]
        return super().attr(eng, st, a)
    def method(self, eng, st, name, args, kws):
        return [(st, SV(hash_alg(z3.Select(st.heap["content"], self.t))))]


class LoaderV(SV):
    def subst(self, pairs):
        return LoaderV(z3.substitute(self.t, *pairs))
    def is_none(self, eng, st):
        return False
    def attr(self, eng, st, a):
        if a == "hash":
            return [(st, MethV(self, a))]
        return super().attr(eng, st, a)
    def method(self, eng, st, name, args, kws):
        return [(st, SV(hash_loader(self.t)))]


hash_alg, hash_loader, hash_dict = (z3.Function(n, Obj, Obj) for n in ("hash_algorithm", "hash_loader", "hash_dictionary"))
loader_of = z3.Function("loader", Obj, Obj)
file_of = z3.Function("referenced_algorithm", Obj, Obj, Obj)
resolved_alg = z3.Function("resolved_algorithm", Obj, Obj, Obj)
resolve_of = z3.Function("resolved_variables", Obj, DOM, VAL, Obj)
invalid_for = z3.Function("invalid_values", Obj, DOM, VAL, B)
declared_in = z3.Function("declared_in", Obj, Obj)


def p19_state(ctx, fn):
    eng = TraceEngine(ctx, fn.key)
    base_any = eng.any_value
    eng.any_value = lambda s, n, old: Quiet(skolem(s, "none_" + n, B)) if old is None or isinstance(old, Quiet) else base_any(s, n, old)
    st, ws, init = ws_state(ctx, eng)
    st.heap["content"] = z3.Const("content", z3.ArraySort(Obj, Obj))

    class Load:
        def apply(self, e, s, b):
            s = s.copy()
            a = skolem(s, "algorithm")
            text = file_of(term(b.get("reference_type")), term(b.get("algorithm")))
            s.heap["content"] = z3.Store(s.heap["content"], a, text)
            s.pc.append(attr_of("declared", a) == declared_in(text))
            return [(s, AlgV(a))]

    def vals(s, v):
        c = s.store[v.oid] if isinstance(v, CRef) else v
        if isinstance(c, Cont) and c.kind == "dict" and not c.segs:
            return z3.K(Obj, z3.BoolVal(False)), z3.Const("no_values", VAL)
        if not (isinstance(v, WMap) and v.name == "xvars"):
            raise Mismatch("variables of the experiment")
        return v.get(s, ".dom"), v.get(s, ".val")

    class Validate:
        def apply(self, e, s, b):
            a, d = b.get("algorithm"), vals(s, b.get("variable_values"))
            if not isinstance(a, AlgV):
                raise Mismatch("algorithm")
            return e.guarded(s, Not(invalid_for(attr_of("declared", a.t), *d)), lambda s2: True, "ValueError")

    class Resolve:
        def apply(self, e, s, b):
            v = b.get("variables")
            if not isinstance(v, SV):
                raise Mismatch("declared variables")
            return [(s, SV(resolve_of(v.t, *vals(s, b.get("variable_values")))))]

    class Hash:
        def apply(self, e, s, b):
            d = b.get("dct")
            if isinstance(d, WMap):
                return [(s, SV(hash_dict(z3.Function("dict_of", DOM, VAL, Obj)(*vals(s, d)))))]
            if not isinstance(d, SV):
                raise Mismatch("dictionary hashed")
            return [(s, SV(hash_dict(d.t)))]

    class Loader:
        def apply(self, e, s, b):
            return [(s, LoaderV(loader_of(term(b.get("reference")))))]

    class Factory:
        def apply(self, e, s, b):
            a, v = b.get("algorithm"), b.get("variables")
            if not isinstance(a, AlgV) or not isinstance(v, SV):
                raise Mismatch("graph_model_factory")
            s = s.copy()
            c = s.heap["content"]
            s.heap["content"] = z3.Store(c, a.t, resolved_alg(z3.Select(c, a.t), v.t))
            n = f"model:{a.t}"
            return [(s, ModelC(ObjV(n, "Model", {"algorithm": a, "alg": a, "variables": v, "pipeline_steps": SV(z3.Const("steps", Obj)), "graph": ObjV(n + ".graph", "G", {"graph": ObjV(n + ".graph", "G")})})))]

    class Versions:
        def apply(self, e, s, b):
            s = s.copy()
            t = z3.Function("versions_of", Obj, Obj)(term(b.get("experiment_name")))
            s.pc.append(seq_len(t) >= 0)
            return [(s, TList(t))]

    class Latest:
        def apply(self, e, s, b):
            n = term(b.get("experiment_name"))
            t = z3.Function("versions_of", Obj, Obj)(n)
            return e.guarded(s, And(seq_len(t) > 0, z3.Select(s.heap["experiments.dom"], n)), lambda s2: SV(z3.Function("latest_result", Obj, Obj)(n)), "ValueError")

    class Des:
        def apply(self, e, s, b):
            return [(s, SV(z3.Function("deserialized", Obj, Obj)(term(b.get("result")))))]
    for dotted, c in (("causy.serialization.load_algorithm_by_reference", Load()), ("causy.variables.validate_variable_values", Validate()),
                      ("causy.variables.resolve_variables", Resolve()), ("causy.graph_utils.hash_dictionary", Hash()), ("causy.data_loader.load_data_loader", Loader()),
                      ("causy.graph_model.graph_model_factory", Factory()), ("causy.serialization.deserialize_result", Des()),
                      ("causy.workspaces.cli._load_experiment_versions", Versions()), ("causy.workspaces.cli._load_latest_experiment_result", Latest())):
        r = ctx.prog.resolve(dotted)
        if r is None or r[0] != "func":
            raise Unsupported(f"{dotted} not found")
        eng.contracts[r[1].key] = c
    x = z3.Const("x", Obj)
    for f in (hash_alg, hash_loader, hash_dict):
        st.pc.append(z3.ForAll([x], z3.Not(z3.Function("is_none", Obj, B)(f(x)))))
    return eng, st, ws, init


class ModelC:
    """the class graph_model_factory returns"""
    closed = True
    def __init__(self, obj):
        self.obj = obj
    def call(self, eng, st, args, kws):
        if args or kws:
            raise Unsupported("model arguments")
        return [(st, self.obj)]


def expected(init, e0):
    """current hashes of an experiment object"""
    pl = init["pipelines.val"][attr_of("pipeline", e0)]
    text = file_of(attr_of("type", pl), attr_of("reference", pl))
    d = (init["xvars.dom"][e0], init["xvars.val"][e0])
    v = resolve_of(declared_in(text), *d)
    return {"text": text, "vars": v, "invalid": invalid_for(declared_in(text), *d), "pipeline": pl, "variables_hash": hash_dict(v), "algorithm_hash": hash_alg(resolved_alg(text, v)),
            "loader": loader_of(init["dataloaders.val"][attr_of("dataloader", e0)]), "data_loader_hash": hash_loader(loader_of(init["dataloaders.val"][attr_of("dataloader", e0)]))}


HASHES = ("variables_hash", "algorithm_hash", "data_loader_hash")


def needs_unit():
    def gen(ctx):
        fn = ctx.prog.mod(CLI).funcs["_experiment_needs_reexecution"]
        eng, st, ws, init = p19_state(ctx, fn)
        name = StrO(z3.Const("name", Obj))
        w = expected(init, init["experiments.val"][name.t])
        res = z3.Function("deserialized", Obj, Obj)(z3.Function("latest_result", Obj, Obj)(name.t))
        vs = z3.Function("versions_of", Obj, Obj)(name.t)
        st.pc.append(seq_len(vs) >= 0)
        there = init["experiments.dom"][name.t]
        lab = "_experiment_needs_reexecution"
        for s, v in eng.call_fn(FuncV(fn), [ws, name], {}, st):
            if isinstance(v, Raised):
                yield Obl(f"{lab}: only an unknown experiment or invalid variables raise", s.pc, Or(Not(there), w["invalid"]))
                yield Obl(f"{lab}: raises ValueError", s.pc, v.exc == "ValueError")
                continue
            r = eng.truth(v, s)
            yield Obl(f"{lab}: not needed only if a result is stored", s.pc, Implies(Not(r), And(there, seq_len(vs) > 0)))
            for h in HASHES:
                yield Obl(f"{lab}: not needed only if the {h} is the current one", s.pc, Implies(Not(r), attr_of(h, res) == w[h]))
            yield Obl(f"{lab}: not needed if nothing changed", s.pc, Implies(And(there, seq_len(vs) > 0, *[attr_of(h, res) == w[h] for h in HASHES]), Not(r)))
        ctx.close(eng)
    return Unit("_experiment_needs_reexecution", gen, keys=[f"{CLI}:_experiment_needs_reexecution"])


def run_unit():
    def gen(ctx):
        fn = ctx.prog.mod(CLI).funcs["_execute_experiment"]
        eng, st, ws, init = p19_state(ctx, fn)
        k = z3.Const("experiment_name", Obj)
        e0 = init["experiments.val"][k]
        st.pc.append(init["experiments.dom"][k])
        w = expected(init, e0)
        st.pc.append(Not(w["invalid"]))
        eng.externals["rich.progress.Progress"] = eng.externals["rich.progress.SpinnerColumn"] = eng.externals["rich.progress.TextColumn"] = lambda e, s, a, k: [(s, Quiet())]

        def mk(kind, names, result=None):
            def h(e, s, recv, args, kws):
                b = bind_args(names, args, kws, kind)
                s = s.copy()
                event(s, kind, model=recv, content=z3.Select(s.heap["content"], recv.attrs["alg"].t), **b)
                return [(s, result(s) if result else None)]
            return h
        eng.obj_methods[("Model", "create_graph_from_data")] = mk("data", ["data"])
        eng.obj_methods[("Model", "create_all_possible_edges")] = mk("edges", [])
        eng.obj_methods[("Model", "execute_pipeline_step_with_progress")] = mk("run", [], lambda s: Tasks())
        eng.obj_methods[("Model", "execute_pipeline_steps")] = mk("run", [])
        eng.obj_methods[("G", "retrieve_edges")] = lambda e, s, recv, a, kw: [(s, SV(z3.Const("edges", Obj)))]
        eng.attr_models[("G", "nodes")] = lambda e, s, o: [(s, SV(z3.Const("nodes", Obj)))]
        eng.attr_models[("G", "action_history")] = lambda e, s, o: [(s, SV(z3.Const("action_history", Obj)))]
        made = []

        def result(e, s, a, kw):
            if a:
                raise Unsupported("Result(...)")
            s = s.copy()
            event(s, "result", **kw)
            return [(s, RecV("Result", dict(kw)))]
        eng.externals["new:Result"] = result
        m = Match(eng, "_execute_experiment")
        for s, v in eng.call_fn(FuncV(fn), [ws, SV(e0)], {}, st):
            if isinstance(v, Raised):
                m.ob(f"never raises {v.exc} on valid variables", s.pc, False)
                continue
            if not (isinstance(v, RecV) and v.cls == "Result"):
                raise Mismatch("value returned")
            for key, want in [("variables", w["vars"]), ("algorithm", w["pipeline"])] + [(h, w[h]) for h in HASHES]:
                if key not in v.fields or not isinstance(v.fields[key], SV):
                    if key in v.fields and v.fields[key] is not None:
                        raise Mismatch(key)
                    m.ob(f"the result carries the {key} of the run", s.pc, False)
                    continue
                m.ob(f"the result carries the {key} of the run", s.pc, v.fields[key].t == want)
            for key in ("edges", "nodes", "action_history"):
                x = v.fields.get(key)
                if not isinstance(x, SV):
                    raise Mismatch(key)
                m.ob(f"the result carries the {key} of the graph", s.pc, x.t == z3.Const(key, Obj))
            evs = [m.ev(g, g.elem.fields["kind"]) if isinstance(g.elem, RecV) else m.ev(g, "") for g in s.store[TR].segs]
            kindsof = [f["kind"] for f in evs]
            if sorted(kindsof) != ["data", "edges", "result", "run"]:
                for kd, txt in (("data", "the data is loaded"), ("edges", "the start graph is built"), ("run", "the pipeline runs")):
                    if kd not in kindsof:
                        m.ob(txt, s.pc, False)
                if all(x in kindsof for x in ("data", "edges", "run")):
                    raise Mismatch("trace of an execution")
                continue
            m.ob("the data is loaded first, then the start graph is built, then the pipeline runs", s.pc, kindsof == ["data", "edges", "run", "result"])
            for f in evs:
                if f["kind"] == "data":
                    d = f["data"]
                    if not isinstance(d, SV):
                        raise Mismatch("data")
                    m.ob("the configured data is used", s.pc, d.t == w["loader"])
                if f["kind"] == "run":
                    m.ob("the configured pipeline runs with the resolved variables", s.pc, f["content"] == resolved_alg(w["text"], w["vars"]))
        yield from m.out
        ctx.close(eng)
    return Unit("_execute_experiment", gen, keys=[f"{CLI}:_execute_experiment"])


class Tasks:
    """the progress of a run, one element per step (consumed completely)"""
    closed = True
    def iter_segs(self, eng, st):
        i = z3.Const(fresh_name("i"), I)
        return [Seg([i], z3.And(i >= 0, i < z3.Const("tasks", I)), Quiet())]
    def is_none(self, eng, st):
        return False


def execute_unit():
    def gen(ctx):
        mod = ctx.prog.mod(CLI)
        fn = mod.funcs["execute"]
        for named in (False, True):
            eng = TraceEngine(ctx, fn.key)
            st, ws, init = ws_state(ctx, eng)
            needs, bad = z3.Function("needs", Obj, B), z3.Function("needs_raises", Obj, B)
            out_of = z3.Function("result_of", Obj, Obj)

            class Needs:
                def apply(self, e, s, b):
                    n = term(b.get("experiment_name"))
                    return e.guarded(s, Not(bad(n)), lambda s2: needs(n), "ValueError")

            class Exec:
                def apply(self, e, s, b):
                    s = s.copy()
                    x = b.get("experiment")
                    if not isinstance(x, SV):
                        raise Mismatch("experiment")
                    event(s, "exec", experiment=x)
                    return [(s, SV(out_of(x.t)))]

            class Save:
                def apply(self, e, s, b):
                    s = s.copy()
                    event(s, "save", name=b.get("experiment_name"), result=b.get("result"))
                    return [(s, None)]
            for n, c in (("_experiment_needs_reexecution", Needs()), ("_execute_experiment", Exec()), ("_save_experiment_result", Save())):
                eng.contracts[mod.funcs[n].key] = c
            name, force = StrO(z3.Const("name", Obj)), z3.Const("force", B)
            lab = f"execute ({'one experiment' if named else 'all experiments'})"
            dom, val = init["experiments.dom"], init["experiments.val"]
            for s, v in eng.call_fn(FuncV(fn), [], {"experiment_name": name if named else None, "force_reexecution": force}, st):
                if isinstance(v, Raised):
                    yield Obl(f"{lab}: never raises {v.exc}", s.pc, Not(dom[name.t]) if named else False)
                    continue
                segs = flat(s.store[TR].segs)
                k = z3.Const("k", Obj)
                want = And(dom[k], Or(needs(k), bad(k), force))
                may = dom[k]
                if named:
                    want, may = And(want, k == name.t), And(may, k == name.t)
                ran = Or(*[Exists(list(g.bvs), And(g.guard, g.elem.fields["experiment"].t == val[k])) for g in segs if g.elem.fields["kind"] == "exec"])
                saved = Or(*[Exists(list(g.bvs), And(g.guard, term(g.elem.fields["name"]) == k, term(g.elem.fields["result"]) == out_of(val[k]))) for g in segs if g.elem.fields["kind"] == "save"])
                yield Obl(f"{lab}: an experiment that needs it (or is forced) is executed", s.pc, ForAll([k], Implies(want, ran)))
                yield Obl(f"{lab}: its result is stored under its name", s.pc, ForAll([k], Implies(And(may, ran), saved)))
                if not named:
                    yield Obl(f"{lab}: an unchanged experiment is skipped", s.pc, ForAll([k], Implies(And(dom[k], Not(want)), Not(ran))))
                for g in segs:
                    if g.elem.fields["kind"] == "save":
                        yield Obl(f"{lab}: nothing else is stored", s.pc, ForAll(list(g.bvs), Implies(g.guard, Exists([k], And(may, term(g.elem.fields["name"]) == k, term(g.elem.fields["result"]) == out_of(val[k]))))))
            ctx.close(eng)
    return Unit("execute", gen, keys=[f"{CLI}:execute"])


def flat(segs):
    from .vars import flat_segs
    out = flat_segs(segs)
    if any(not (isinstance(g.elem, RecV) and g.elem.cls == "event") for g in out):
        raise Mismatch("trace")
    return out


def p19_units():
    return [needs_unit(), run_unit(), execute_unit()]
