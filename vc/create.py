"""Contracts of creating workspaces, pipelines, data loaders and experiments, and of storing workspaces (P27).

The answers of the dialogue are arbitrary (a choice is one of the offered ones); file names and references are strings of
z3's string theory; the entries of the workspace are terms over them."""
import ast, json, os, re, z3
from .base import *
from .interp import *
from .trace import *
from .verify import Obl, Unit
from .vars import attr_of
from .wspace import WMap, StrO, term, MAPS, DOM, CLI, COMPONENTS, ws_state, disk, map_same, xvars_same, unchanged, flat, ModelC
from .files import ZS, S, ts, fmt, FileV, m_open
from .load import bad
from .program import REPO

slug = z3.Function("slug", S, S)
algref = z3.Function("algorithm_reference", Obj, S, Obj)
dlref = z3.Function("data_loader_reference", S, S, Obj)
exper = z3.Function("experiment", Obj, Obj, Obj, Obj)
named = z3.Function("algorithm_named", S, Obj)
name_of = z3.Function("name_of", Obj, S)
known = z3.Function("is_available", S, B)
loaded = z3.Function("algorithm_of", Obj, Obj, Obj)
declared = lambda a: attr_of("declared", a)
defaults = z3.Function("defaults", Obj, Obj)
NOVARS = z3.Const("no_variables", Obj)
so = z3.Function("str_obj", S, Obj)
ANS = lambda n: z3.Const("answer:" + n, S)
KIND = {k: z3.Const("AlgorithmReferenceType." + k, Obj) for k in ("FILE", "NAME", "PYTHON_MODULE")}
CHOICES = {"kind": {"PRECONFIGURED", "EJECT", "SKELETON"}, "type": {"json", "jsonl", "dynamic"}}


class Algs:
    """AVAILABLE_ALGORITHMS"""
    closed = True
    def is_none(self, eng, st):
        return False
    def item(self, eng, st, k):
        return eng.guarded(st, known(ts(k)), lambda s: ModelC(model(named(ts(k)))), "KeyError")
    def contains(self, eng, st, k):
        return known(ts(k))
    def iter_segs(self, eng, st):
        k = z3.Const(fresh_name("k"), S)
        return [Seg([k], known(k), ZS(k))]
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name == "keys" and not args:
            return [(st, self)]
        raise Unsupported(f"AVAILABLE_ALGORITHMS.{name}")


def model(alg):
    return ObjV(f"model:{alg}", "Model", {"_original_algorithm": Orig(alg), "algorithm": Resolved(alg)})


class Orig(SV):
    """an algorithm with its variable references"""
    def subst(self, pairs):
        return type(self)(z3.substitute(self.t, *pairs))
    def attr(self, eng, st, a):
        if a == "name":
            return [(st, ZS(name_of(self.t)))]
        raise Unsupported(f"algorithm.{a}")


class Resolved(Orig):
    """an algorithm whose variables were replaced by their values"""


class Yaml:
    closed = True
    def __init__(self, v):
        self.v = v
    def subst(self, pairs):
        return Yaml(subst_val(self.v, pairs))


class Choice:
    closed = True
    def __init__(self, value):
        self.value = value


class Ask:
    closed = True
    def __init__(self, v):
        self.v = v
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name in ("ask", "unsafe_ask") and not args:
            return [(st, self.v)]
        raise Unsupported(f"question.{name}")


def q_choice(eng, st, args, kws):
    b = bind_args(["title", "value"], args, kws, "Choice")
    return [(st, Choice(b.get("value", b.get("title"))))]


def once(s, what):
    """two answers of the same kind are two different answers"""
    n = s.heap.get("asked:" + what, 0)
    s.heap["asked:" + what] = n + 1
    if n:
        raise Mismatch(f"asked twice: {what}")


def q_select(eng, st, args, kws):
    b = bind_args(["message", "choices", "default"], args, kws, "select")
    c = b.get("choices")
    s = st.copy()
    if isinstance(c, Algs):
        once(s, "algorithm")
        s.pc.append(known(ANS("algorithm")))
        return [(s, Ask(ZS(ANS("algorithm"))))]
    if isinstance(c, WMap) and not c.path:
        once(s, c.name)
        k = z3.Const("answer:" + c.name, Obj)
        s.pc.append(c.contains(eng, s, SV(k)))
        return [(s, Ask(StrO(k)))]
    sg = (s.store[c.oid] if isinstance(c, CRef) else c).segs if isinstance(c, (CRef, Cont)) else None
    if sg is None:
        raise Mismatch("choices")
    if len(sg) == 1 and len(sg[0].bvs) == 1:
        g = sg[0]
        x = g.bvs[0]
        if isinstance(g.elem, ZS) and g.elem.t.eq(x) and isz(g.guard) and g.guard.eq(known(x)):
            return q_select(eng, st, [None, Algs()], {})
        for m in MAPS:
            if isinstance(g.elem, StrO) and g.elem.t.eq(x) and isz(g.guard) and g.guard.eq(z3.Select(s.heap[m + ".dom"], x)):
                return q_select(eng, st, [None, WMap(m)], {})
        raise Mismatch("choices")
    vals = []
    for g in sg:
        v = g.elem.value if isinstance(g.elem, Choice) else g.elem
        if g.bvs or g.guard is not True or not isinstance(v, str):
            raise Mismatch("choices")
        vals.append(v)
    for n, want in CHOICES.items():
        if set(vals) & want:
            once(s, n)
            t = ANS(n)
            s.pc.append(Or(*[t == z3.StringVal(v) for v in vals]))
            s.heap["offered:" + n] = frozenset(vals)
            return [(s, Ask(ZS(t)))]
    raise Mismatch("choices")


def q_text(what):
    def h(eng, st, args, kws):
        s = st.copy()
        once(s, what)
        return [(s, Ask(ZS(ANS(what))))]
    return h


class Jinja:
    closed = True
    def __init__(self, what=None, fields=None):
        self.what, self.fields = what, fields
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if self.what is None and name == "get_template" and len(args) == 1 and isinstance(args[0], str):
            return [(st, Jinja(args[0]))]
        if self.what is not None and self.fields is None and name in ("stream", "render") and not args:
            return [(st, Jinja(self.what, dict(kws)))]
        if self.fields is not None and name == "dump" and len(args) == 1:
            s = st.copy()
            event(s, "write", path=ts(args[0]), data=self)
            return [(s, None)]
        raise Unsupported(f"template.{name}")
    def subst(self, pairs):
        return self


def str_kind(v):
    n = getattr(v, "name", None) or (v if isinstance(v, str) else None)
    n = str(n).split(".")[-1].upper() if n is not None else None
    if n not in KIND:
        raise Mismatch("type of the reference")
    return KIND[n]


def no_extra(kws, *names):
    if set(kws) != set(names):
        raise Mismatch("fields " + ", ".join(sorted(kws)))


def engine(ctx, fn):
    eng = TraceEngine(ctx, fn.key)
    eng.sv_str = True
    eng.fstring = fmt
    eng.path_term = ts
    st, ws, init = ws_state(ctx, eng)
    eng.globals = {(CLI, "JINJA_ENV"): Jinja()}
    eng.values = dict(getattr(eng, "values", {}))
    for d in ("causy.causal_discovery.constraint.algorithms.AVAILABLE_ALGORITHMS", "causy.causal_discovery.AVAILABLE_ALGORITHMS"):
        eng.values[d] = Algs()
    x = eng.externals
    x["builtins.open"] = x["open"] = m_open
    for m in ("questionary", "questionary.prompts"):
        x[m + ".select"], x[m + ".text"], x[m + ".path"], x[m + ".Choice"] = q_select, q_text("name"), q_text("path"), q_choice
    x["markdown.extensions.toc.slugify"] = lambda e, s, a, k: [(s, ZS(slug(ts(a[0]))))] if len(a) == 2 and a[1] == "_" or k.get("separator") == "_" else bad("slugify")
    x["pydantic_yaml.to_yaml_str"] = lambda e, s, a, k: [(s, Yaml(a[0]))] if len(a) == 1 and not k and isinstance(a[0], Orig) else bad("to_yaml_str")

    def ref(e, s, a, k):
        no_extra(k, "reference", "type")
        return [(s, SV(algref(str_kind(k["type"]), ts(k["reference"]))))]

    def dl(e, s, a, k):
        if set(k) - {"options"} != {"reference", "type"} or k.get("options") is not None:
            raise Mismatch("data loader reference")
        t = k["type"]
        n = getattr(t, "name", None)
        t = z3.StringVal(str(n).split(".")[-1].lower()) if n is not None else ts(t)
        return [(s, SV(dlref(t, ts(k["reference"]))))]

    def ex(e, s, a, k):
        if set(k) - {"variables"} != {"pipeline", "dataloader"}:
            raise Mismatch("experiment")
        v = k.get("variables")
        c = s.store[v.oid] if isinstance(v, CRef) else v
        if isinstance(c, Cont) and not c.segs or v is None:
            v = SV(NOVARS)
        if not isinstance(v, SV):
            raise Mismatch("variables of the experiment")
        return [(s, SV(exper(term(k["pipeline"]), term(k["dataloader"]), v.t)))]
    x["new:AlgorithmReference"], x["new:DataLoaderReference"], x["new:Experiment"] = ref, dl, ex

    class Load:
        def apply(self, e, s, b):
            return [(s, Alg(loaded(term(b.get("reference_type")), term(b.get("algorithm")))))]

    class Resolve:
        def apply(self, e, s, b):
            v, d = b.get("variables"), b.get("variable_values")
            c = s.store[d.oid] if isinstance(d, CRef) else d
            if not isinstance(v, SV) or not (isinstance(c, Cont) and not c.segs):
                raise Mismatch("resolve_variables")
            return [(s, SV(defaults(v.t)))]
    for d, c in (("causy.serialization.load_algorithm_by_reference", Load()), ("causy.variables.resolve_variables", Resolve())):
        r = ctx.prog.resolve(d)
        if r is None or r[0] != "func":
            raise Unsupported(d)
        eng.contracts[r[1].key] = c
    eng.sv_attrs["type"] = lambda e, s, v: [(s, SV(attr_of("type", v.t)))]
    eng.sv_attrs["reference"] = lambda e, s, v: [(s, SV(attr_of("reference", v.t)))]
    # facts about all experiments are not needed here; instances of the other facts keep the obligations decidable
    st.pc[:] = [p for p in st.pc if not z3.is_quantifier(p)]
    r = init["pipelines.val"][z3.Const("answer:pipelines", Obj)]
    d = declared(loaded(attr_of("type", r), attr_of("reference", r)))
    st.pc += [seq_len(d) >= 0, z3.Implies(seq_len(d) == 0, defaults(d) == NOVARS),
              z3.Implies(known(ANS("algorithm")), name_of(named(ANS("algorithm"))) == ANS("algorithm"))]     # the table of algorithms, proved by `table`
    return eng, st, ws, init


class Decl(SV):
    """the declared variables: a list"""
    def subst(self, pairs):
        return Decl(z3.substitute(self.t, *pairs))
    def is_none(self, eng, st):
        return False
    def truth(self, eng, st):
        return seq_len(self.t) > 0


class Alg(SV):
    """a loaded algorithm"""
    def subst(self, pairs):
        return Alg(z3.substitute(self.t, *pairs))
    def attr(self, eng, st, a):
        if a == "variables":
            return [(st, Decl(declared(self.t)))]
        raise Unsupported(f"algorithm.{a}")


def written(s):
    """the files written: [(path, data)]"""
    out = []
    for g in flat(s.store[TR].segs):
        h = g.elem.fields
        if g.bvs or g.guard is not True:
            raise Mismatch("files written")
        if h["kind"] == "write":
            out.append((h["path"], h["data"]))
        elif h["kind"] == "open" and not h["mode"].startswith(("r", "w")):
            raise Mismatch("mode")
        elif h["kind"] not in ("open", "write"):
            raise Mismatch("event " + h["kind"])
    return out


def map_add(s, init, name, keys, val, cur=lambda s, k: s.heap[k]):
    """the map of the workspace is the initial one with val under one of the keys"""
    k = z3.Const(fresh_name("k"), Obj)
    d0, v0, d1, v1 = init[name + ".dom"], init[name + ".val"], cur(s, name + ".dom"), cur(s, name + ".val")
    return z3.Or(*[z3.And(d1[key], v1[key] == val, z3.ForAll([k], z3.Implies(k != key, z3.And(d1[k] == d0[k], z3.Implies(d0[k], v1[k] == v0[k]))))) for key in keys])


def same_map(s, init, name):
    k = z3.Const(fresh_name("k"), Obj)
    d0, v0, d1, v1 = init[name + ".dom"], init[name + ".val"], s.heap[name + ".dom"], s.heap[name + ".val"]
    return z3.ForAll([k], z3.And(d1[k] == d0[k], z3.Implies(d0[k], v1[k] == v0[k])))


def keys_of(t):
    return [so(t), so(slug(t))]


def check_ws(v):
    if not (isinstance(v, ObjV) and v.name == "workspace"):
        raise Mismatch("workspace returned")


def pipeline_post(m, s, init, lab, cur=lambda s, k: s.heap[k]):
    t, kind, alg = ANS("name"), ANS("kind"), ANS("algorithm")
    w = written(s)
    m.ob("every way of creating a pipeline is offered", s.pc, s.heap.get("offered:kind") == frozenset(CHOICES["kind"]))
    key = keys_of(t)
    pre, ej, sk = (kind == z3.StringVal(x) for x in ("PRECONFIGURED", "EJECT", "SKELETON"))
    m.ob("a preconfigured pipeline is stored as a reference by the name of the chosen algorithm", s.pc, z3.Implies(pre, map_add(s, init, "pipelines", key, algref(KIND["NAME"], alg), cur)))
    m.ob("a preconfigured pipeline writes no file", s.pc, Implies(pre, not w))
    one = w[0] if len(w) == 1 else None
    if len(w) > 1:
        raise Mismatch("several writes")
    m.ob("ejected pipelines and skeletons write a file", s.pc, Implies(Or(ej, sk), one is not None))
    if one is None:
        return
    p, d = one
    m.ob("an ejected pipeline is stored as a reference to the file written", s.pc, z3.Implies(ej, map_add(s, init, "pipelines", key, algref(KIND["FILE"], p), cur)))
    m.ob("an ejected pipeline is the chosen algorithm with its variable references", s.pc, Implies(ej, isinstance(d, Yaml) and type(d.v) is Orig and d.v.t == named(alg)))
    mod = z3.SubString(p, 0, z3.Length(p) - 3)
    m.ob("a skeleton is written to a python file", s.pc, Implies(sk, z3.SuffixOf(z3.StringVal(".py"), p)))
    m.ob("a skeleton is stored as a reference to the pipeline in the file written", s.pc, z3.Implies(sk, map_add(s, init, "pipelines", key, algref(KIND["PYTHON_MODULE"], z3.Concat(mod, z3.StringVal(".PIPELINE"))), cur)))
    if isinstance(d, Jinja):
        f = d.fields.get("pipeline_name")
        if not isinstance(f, ZS):
            raise Mismatch("fields of the template")
        m.ob("a skeleton is made from the template of pipelines with the name of the pipeline", s.pc, Implies(sk, And(d.what == "pipeline.py.tpl", f.t == t)))
    elif not isinstance(d, Yaml):
        raise Mismatch("data written")
    else:
        m.ob("a skeleton is made from the template of pipelines with the name of the pipeline", s.pc, Not(sk))


def loader_post(m, s, init, lab, cur=lambda s, k: s.heap[k], w=None, pc=()):
    t, kind, path = ANS("name"), ANS("type"), ANS("path")
    w = written(s) if w is None else w
    m.ob("every type of data loader is offered", s.pc, s.heap.get("offered:type") == frozenset(CHOICES["type"]))
    key = keys_of(t)
    dyn = kind == z3.StringVal("dynamic")
    m.ob("a data loader of a file is stored with its type and path", s.pc, z3.Implies(z3.Not(dyn), map_add(s, init, "dataloaders", key, dlref(kind, path), cur)))
    m.ob("a data loader of a file writes no file", s.pc, Implies(Not(dyn), not w))
    if len(w) > 1:
        raise Mismatch("several writes")
    m.ob("a dynamic data loader writes a file", s.pc, Implies(dyn, len(w) == 1))
    if not w:
        return
    p, d = w[0]
    mod = z3.SubString(p, 0, z3.Length(p) - 3)
    m.ob("a dynamic data loader is written to a python file", s.pc, Implies(dyn, z3.SuffixOf(z3.StringVal(".py"), p)))
    m.ob("a dynamic data loader is stored as a reference to the module written", s.pc, z3.Implies(dyn, map_add(s, init, "dataloaders", key, dlref(z3.StringVal("dynamic"), mod), cur)))
    m.ob("a dynamic data loader is made from the template of data loaders", s.pc, Implies(dyn, isinstance(d, Jinja) and d.what == "dataloader.py.tpl"))


def experiment_post(m, s, init, lab):
    t, p, d = ANS("name"), z3.Const("answer:pipelines", Obj), z3.Const("answer:dataloaders", Obj)
    r = init["pipelines.val"][p]
    a = loaded(attr_of("type", r), attr_of("reference", r))
    m.ob("the experiment is stored with the chosen pipeline and data loader and the default values of the variables", s.pc, map_add(s, init, "experiments", keys_of(t), exper(p, d, defaults(declared(a)))))
    m.ob("no file is written", s.pc, not written(s))


POSTS = {"_create_pipeline": (pipeline_post, "pipelines"), "_create_data_loader": (loader_post, "dataloaders"), "_create_experiment": (experiment_post, "experiments")}


def create_unit(func):
    post, coll = POSTS[func]

    def gen(ctx):
        fn = ctx.prog.mod(CLI).funcs[func]
        eng, st, ws, init = engine(ctx, fn)
        m = Match(eng, func)
        st.heap["loaded"] = True
        for s, v in eng.call_fn(FuncV(fn), [ws], {}, st):
            if isinstance(v, Raised):
                m.ob("never fails for an answered dialogue", s.pc, False)
                continue
            check_ws(v)
            for x in MAPS:
                if x != coll:
                    m.ob(f"the {x} of the workspace stay as they are", s.pc, same_map(s, init, x))
            post(m, s, init, func)
        yield from m.out
        ctx.close(eng)
    return Unit(func, gen, keys=[f"{CLI}:{func}"])


class Created:
    """contract of the creating functions: one entry is added to one of the maps"""
    def __init__(self, func, coll):
        self.func, self.coll = func, coll
    def apply(self, e, s, b):
        check_ws(b.get("workspace"))
        s = s.copy()
        n = s.heap.get("created:" + self.coll, 0)
        if n:
            raise Mismatch("created twice")
        s.heap["created:" + self.coll] = 1
        k, v = z3.Const("new_key:" + self.coll, Obj), z3.Const("new_entry:" + self.coll, Obj)
        s.heap[self.coll + ".dom"] = z3.Store(s.heap[self.coll + ".dom"], k, True)
        s.heap[self.coll + ".val"] = z3.Store(s.heap[self.coll + ".val"], k, v)
        return [(s, b.get("workspace"))]


def command_unit(func, callee):
    coll = POSTS[callee][1]

    def gen(ctx):
        mod = ctx.prog.mod(CLI)
        fn = mod.funcs[func]
        eng, st, ws, init = engine(ctx, fn)
        eng.contracts[mod.funcs[callee].key] = Created(callee, coll)
        m = Match(eng, func)
        for s, v in eng.call_fn(FuncV(fn), [], {}, st):
            if isinstance(v, Raised):
                m.ob("never fails for an answered dialogue", s.pc, False)
                continue
            k, e = z3.Const("new_key:" + coll, Obj), z3.Const("new_entry:" + coll, Obj)
            m.ob("what was created is stored", s.pc, map_add(s, init, coll, [k], e, disk))
            for x in MAPS:
                if x != coll:
                    m.ob(f"the {x} stored stay as they are", s.pc, map_same(s, init, x))
            m.ob("the variables of the experiments stay as they are", s.pc, xvars_same(s, init))
        yield from m.out
        ctx.close(eng)
    return Unit(func, gen, keys=[f"{CLI}:{func}"])



# ---------------------------------------------------------------- init

join = z3.Function("path_join", S, S, S)
CWD = z3.Const("cwd", S)
there = z3.Function("exists", S, B)
WSFILE = join(CWD, z3.StringVal("workspace.yml"))
EMPTY = z3.K(Obj, z3.BoolVal(False))


class NewWs:
    """the workspace object made by init; its maps are the heap components"""
    closed = True
    def is_none(self, eng, st):
        return False
    def truth(self, eng, st):
        return True
    def subst(self, pairs):
        return self
    def attr(self, eng, st, a):
        if a in MAPS:
            return [(st, LMap(a))]
        if "ws:" + a in st.heap:
            return [(st, st.heap["ws:" + a])]
        raise Unsupported(f"workspace.{a}")
    def set_attr(self, eng, st, a, v):
        s = st.copy()
        self.put(s, a, v)
        return [(s, NORMAL)]
    def put(self, s, a, v):
        if a in MAPS:
            c = s.store[v.oid] if isinstance(v, CRef) else v
            if not isinstance(c, Cont) or c.segs:
                raise Mismatch("contents of a new workspace")
            s.heap[a + ".dom"] = EMPTY
        elif a in ("name", "author"):
            s.heap["ws:" + a] = v
        else:
            raise Mismatch("field of the workspace")


class LMap(WMap):
    def length(self, eng, st):
        k, d = z3.Const(fresh_name("k"), Obj), self.get(st, ".dom")
        n = z3.Function("card", DOM, I)(d)
        return [(st, z3.If(z3.Exists([k], z3.Select(d, k)), z3.If(n >= 1, n, 1), 0))]
    def subst(self, pairs):
        return LMap(self.name, tuple(z3.substitute(p, *pairs) for p in self.path))


def snapshot(s):
    return {k: s.heap.get(k) for k in [m + x for m in MAPS for x in (".dom", ".val")] + ["ws:name", "ws:author"]}


class Snap:
    closed = True
    def __init__(self, d):
        self.d = d
    def subst(self, pairs):
        return self


class SysPath:
    closed = True
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name in ("append", "insert"):
            return [(st, None)]
        raise Unsupported("sys.path")
    def contains(self, eng, st, x):
        return z3.Const("on_sys_path", B)


class Environ:
    closed = True
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name == "get":
            return [(st, ZS(z3.Const(fresh_name("env"), S)))]
        raise Unsupported("os.environ")
    def item(self, eng, st, k):
        return [(st, ZS(z3.Const(fresh_name("env"), S)))]


def paths(eng):
    x = eng.externals
    x["os.getcwd"] = lambda e, s, a, k: [(s, ZS(CWD))]
    x["os.path.join"] = lambda e, s, a, k: [(s, ZS(join(ts(a[0]), ts(a[1]))))] if len(a) == 2 else bad("os.path.join")
    x["os.path.basename"] = lambda e, s, a, k: [(s, ZS(z3.Function("basename", S, S)(ts(a[0]))))]
    x["os.path.exists"] = x["os.path.isfile"] = lambda e, s, a, k: [(s, there(ts(a[0])))]
    eng.values.update({"sys.path": SysPath(), "os.environ": Environ()})
    x["sys.path.append"] = lambda e, s, a, k: [(s, None)]
    x["sys.path.insert"] = lambda e, s, a, k: [(s, None)]
    x["os.environ.get"] = lambda e, s, a, k: [(s, ZS(z3.Const(fresh_name("env"), S)))]


ASK = ("over", "pipeline", "loader", "experiment")
CONF = {k: z3.Const("confirmed:" + k, B) for k in ASK}


def confirm(eng, st, args, kws):
    b = bind_args(["text", "default", "abort"], args, kws, "confirm")
    t = b.get("text")
    if not isinstance(t, str):
        raise Mismatch("question")
    t = t.lower()
    k = "over" if "exist" in t or "overwrite" in t else next((k for k in ASK[1:] if k in t), None)
    if k is None:
        raise Mismatch("question")
    s = st.copy()
    once(s, "confirm " + k)
    ab = b.get("abort", False)
    if ab is False:
        return [(s, CONF[k])]
    if ab is not True:
        raise Unsupported("abort")
    return eng.guarded(s, CONF[k], lambda s2: True, "Abort")


def prompt(eng, st, args, kws):
    t = args[0] if args else kws.get("text")
    if not isinstance(t, str):
        raise Mismatch("question")
    k = "author" if "author" in t.lower() else "wname" if "name" in t.lower() else bad("question")
    s = st.copy()
    once(s, "prompt " + k)
    return [(s, ZS(ANS(k)))]


def init_unit():
    def gen(ctx):
        mod = ctx.prog.mod(CLI)
        fn = mod.funcs["init"]
        eng, st, ws, init = engine(ctx, fn)
        paths(eng)
        eng.skip_calls = set(eng.skip_calls) - {"typer"}
        x = eng.externals
        for n in ("typer.echo", "typer.secho", "typer.style"):
            x[n] = lambda e, s, a, k: [(s, None)]
        x["typer.confirm"], x["typer.prompt"] = confirm, prompt

        def new(e, s, a, k):
            s = s.copy()
            w = NewWs()
            if set(k) != set(MAPS) | {"name", "author"}:
                raise Mismatch("new workspace")
            for f, v in k.items():
                w.put(s, f, v)
            return [(s, w)]
        x["new:Workspace"] = new

        def yml(e, s, a, k):
            if len(a) == 1 and not k and isinstance(a[0], NewWs):
                return [(s, Yaml(Snap(snapshot(s))))]
            bad("to_yaml_str")
        x["pydantic_yaml.to_yaml_str"] = yml

        class Write:
            def apply(self, e, s, b):
                if not isinstance(b.get("workspace"), NewWs):
                    raise Mismatch("workspace stored")
                s = s.copy()
                event(s, "write", path=WSFILE, data=Yaml(Snap(snapshot(s))))
                return [(s, None)]
        eng.contracts[mod.funcs["write_to_workspace"].key] = Write()

        class Make(Created):
            def apply(self, e, s, b):
                if not isinstance(b.get("workspace"), NewWs):
                    raise Mismatch("workspace")
                return [(s2, b.get("workspace")) for s2, _ in Created.apply(self, e, s, {"workspace": ws})]
        for c, (_, coll) in POSTS.items():
            eng.contracts[mod.funcs[c].key] = Make(c, coll)
        m = Match(eng, "init")
        ctx.vacuity.append(("a confirmed init", st.pc + [there(WSFILE), CONF["over"]]))
        empty = {k: EMPTY if k.endswith(".dom") else init[k] for k in init}
        for s, v in eng.call_fn(FuncV(fn), [], {}, st):
            w = written(s)
            mine = [(p, d) for p, d in w if isinstance(d, Yaml) and isinstance(d.v, Snap)]
            rest = [(p, d) for p, d in w if not (isinstance(d, Yaml) and isinstance(d.v, Snap))]
            refused = And(there(WSFILE), Not(CONF["over"]))
            m.ob("an existing workspace is kept unless overwriting it is confirmed", s.pc, Implies(refused, not w))
            if isinstance(v, Raised):
                m.ob("fails only when overwriting is refused", s.pc, refused)
                continue
            m.ob("the workspace is stored", s.pc, Implies(Not(refused), bool(mine)))
            if not mine:
                continue
            if len(mine) > 1:
                raise Mismatch("stored several times")
            p, d = mine[0]
            h = d.v.d
            m.ob("it is stored in the workspace file", s.pc, p == WSFILE)
            for f, a in (("ws:name", "wname"), ("ws:author", "author")):
                if not isinstance(h[f], ZS):
                    raise Mismatch(f)
                m.ob(f"the {f[3:]} given is stored", s.pc, h[f].t == ANS(a))
            cur = lambda s, k: h[k]
            k = z3.Const("k", Obj)
            nothing = lambda c: z3.ForAll([k], z3.Not(h[c + ".dom"][k]))
            for coll, on in (("pipelines", CONF["pipeline"]), ("dataloaders", CONF["loader"]), ("experiments", And(CONF["pipeline"], CONF["loader"], CONF["experiment"]))):
                m.ob(f"no {coll} are stored unless one is asked for", s.pc, Implies(Not(on), nothing(coll)))
                if s.heap.get("created:" + coll):
                    m.ob(f"the created {coll[:-1]} is stored and no other", s.pc, Implies(on, map_add(s, empty, coll, [z3.Const("new_key:" + coll, Obj)], z3.Const("new_entry:" + coll, Obj), cur)))
                elif coll == "dataloaders" and "asked:type" in s.heap:
                    loader_post(m, s, empty, "init", cur, rest)
                    rest = []
                else:
                    m.ob(f"the created {coll[:-1]} is stored and no other", s.pc, Not(on))
            m.ob("no other file is written", s.pc, not rest)
        yield from m.out
        ctx.close(eng)
    return Unit("init", gen, keys=[f"{CLI}:init"])


# ---------------------------------------------------------------- storing and reading

class Fmt:
    """text of the workspace in a version of YAML"""
    closed = True
    def __init__(self, version, of):
        self.version, self.of = version, of
    def subst(self, pairs):
        return self


class JsonDump:
    closed = True
    def __init__(self, mode):
        self.mode = mode
    def subst(self, pairs):
        return self
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        raise Unsupported("dump." + name)


class Buf:
    closed = True
    def __init__(self, name):
        self.name = name
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name == "getvalue" and not args:
            return [(st, st.heap.get("buf:" + self.name, ""))]
        if name == "write" and len(args) == 1 and not st.heap.get("buf:" + self.name):
            s = st.copy()
            s.heap["buf:" + self.name] = args[0]
            return [(s, None)]
        raise Unsupported("buffer." + name)
    def enter(self, eng, st):
        return [(st, self)]


class TextFile(FileV):
    def method(self, eng, st, name, args, kws):
        return [(s, StrO(v.t) if name == "read" and isinstance(v, SV) else v) for s, v in FileV.method(self, eng, st, name, args, kws)]


class Ruamel:
    closed = True
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def set_attr(self, eng, st, a, v):
        if a == "version":
            raise Unsupported("YAML version")
        return [(st, NORMAL)]
    def method(self, eng, st, name, args, kws):
        if name == "dump" and len(args) == 2 and not kws and isinstance(args[0], JsonDump):
            if isinstance(args[1], Buf):
                return args[1].method(eng, st, "write", [Fmt("1.2", args[0])], {})
            if isinstance(args[1], FileV):
                return args[1].method(eng, st, "write", [Fmt("1.2", args[0])], {})
        raise Unsupported("YAML." + name)


def store_unit():
    def gen(ctx):
        mod = ctx.prog.mod(CLI)
        parsed = z3.Function("parsed_workspace", Obj, Obj)
        versions = {"read": set(), "write": set()}

        def setup(fn):
            eng = TraceEngine(ctx, fn.key)
            eng.fstring, eng.path_term, eng.sv_str = fmt, ts, True
            eng.values = dict(getattr(eng, "values", {}))
            x = eng.externals
            x["builtins.open"] = x["open"] = lambda e, s, a, k: [(s2, TextFile(f.path)) for s2, f in m_open(e, s, a, k)]
            paths(eng)

            def parse(e, s, a, k):
                b = bind_args(["model_type", "raw"], a, k, "parse_yaml_raw_as")
                versions["read"].add("1.2")
                return [(s, SV(parsed(b["raw"].t)))] if isinstance(b.get("raw"), SV) and getattr(b.get("model_type"), "name", "") == "Workspace" else bad("parse")
            x["pydantic_yaml.parse_yaml_raw_as"] = parse
            x["io.StringIO"] = lambda e, s, a, k: [(s, Buf(fresh_name("buf")))] if not a and not k else bad("StringIO")
            x["ruamel.yaml.YAML"] = lambda e, s, a, k: [(s, Ruamel())] if not a and set(k) <= {"typ", "pure"} else bad("YAML")
            x["collections.OrderedDict"] = lambda e, s, a, k: [(s, a[0])] if len(a) == 1 and isinstance(a[0], JsonDump) else bad("OrderedDict")
            x["yaml.add_representer"] = lambda e, s, a, k: [(s, None)]
            x["yaml.dump"] = x["yaml.safe_dump"] = lambda e, s, a, k: [(s, Fmt("1.1", a[0]))] if len(a) == 1 and isinstance(a[0], JsonDump) else bad("yaml.dump")
            x["pydantic_yaml.to_yaml_str"] = lambda e, s, a, k: [(s, Fmt("1.2", JsonDump("json")))] if len(a) == 1 and isinstance(a[0], ObjV) and a[0].name == "workspace" else bad("to_yaml_str")
            eng.obj_methods[("Workspace", "model_dump")] = lambda e, s, r, a, k: [(s, JsonDump(k.get("mode", "python")))] if not a and not set(k) - {"mode"} else bad("model_dump")
            return eng
        fn = mod.funcs["_current_workspace"]
        eng = setup(fn)
        m = Match(eng, "_current_workspace")
        fail = z3.Const("fail_if_none", B)
        for s, v in eng.call_fn(FuncV(fn), [fail], {}, start(ctx)):
            ops = [g.elem.fields for g in flat(s.store[TR].segs)]
            m.ob("reading writes nothing", s.pc, all(h["kind"] == "open" and h["mode"].startswith("r") for h in ops))
            if isinstance(v, Raised):
                m.ob("fails only without a workspace", s.pc, And(fail, Not(there(WSFILE))))
            elif v is None:
                m.ob("no workspace is handed out only if there is none", s.pc, And(Not(fail), Not(there(WSFILE))))
            elif isinstance(v, SV):
                m.ob("the workspace is the one of the workspace file", s.pc, And(there(WSFILE), v.t == parsed(z3.Function("contents_of", S, Obj)(WSFILE))))
            else:
                raise Mismatch("workspace read")
        yield from m.out
        ctx.close(eng)
        fn = mod.funcs["write_to_workspace"]
        eng = setup(fn)
        m = Match(eng, "write_to_workspace")
        ws = ObjV("workspace", "Workspace", {})
        for s, v in eng.call_fn(FuncV(fn), [ws], {}, start(ctx)):
            if isinstance(v, Raised):
                m.ob("never fails", s.pc, False)
                continue
            w = written(s)
            for g in flat(s.store[TR].segs):
                if g.elem.fields["kind"] == "open":
                    m.ob("the workspace file is replaced", s.pc, And(g.elem.fields["mode"].startswith("w"), g.elem.fields["path"] == WSFILE))
            m.ob("the workspace is written once", s.pc, len(w) == 1)
            for p, d in w:
                m.ob("it is written to the file it is read from", s.pc, p == WSFILE)
                if not isinstance(d, Fmt):
                    raise Mismatch("data written")
                m.ob("the whole workspace is written as plain data", s.pc, d.of.mode == "json")
                m.ob("it is written in the version of YAML it is read in", s.pc, versions["read"] == {d.version})
        yield from m.out
        ctx.close(eng)
    return Unit("workspace file", gen, keys=[f"{CLI}:write_to_workspace", f"{CLI}:_current_workspace"])


# ---------------------------------------------------------------- tables and templates

def table_unit():
    """facts of the table of algorithms, read from the source"""
    def gen(ctx):
        r = ctx.prog.resolve("causy.causal_discovery.constraint.algorithms.AVAILABLE_ALGORITHMS")
        if r is None or r[0] != "const" or not isinstance(r[1][1], ast.Dict):
            raise Unsupported("table of algorithms")
        mod, node = r[1]
        for k, v in zip(node.keys, node.values):
            if not isinstance(k, ast.Constant) or not isinstance(v, ast.Name):
                raise Unsupported("table of algorithms")
            c = ctx.prog.resolve(mod.imports.get(v.id, "")) if v.id in mod.imports else None
            if c is None or c[0] != "const":
                raise Unsupported(f"algorithm {v.id}")
            e = c[1][1]
            if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "graph_model_factory"):
                raise Unsupported(f"algorithm {v.id}")
            a = (e.args or [w.value for w in e.keywords if w.arg == "algorithm"])[0]
            n = [w.value for w in a.keywords if w.arg == "name"] if isinstance(a, ast.Call) else []
            if len(n) != 1 or not isinstance(n[0], ast.Constant):
                raise Unsupported(f"name of {v.id}")
            yield Obl(f"AVAILABLE_ALGORITHMS: {k.value} is listed under the name of its algorithm", [], z3.BoolVal(n[0].value == k.value))
    return Unit("table of algorithms", gen, keys=["causy/causal_discovery/constraint/algorithms/__init__.py:AVAILABLE_ALGORITHMS"])


SUB = re.compile(r"\{\{\s*(\w+)\s*(\|\s*tojson\s*)?\}\}")


def template_unit():
    """the templates are python modules for every name"""
    def gen(ctx):
        for f in ("pipeline.py.tpl", "dataloader.py.tpl"):
            with open(os.path.join(REPO, "causy/workspaces/templates", f)) as fh:
                text = fh.read()
            raw = [x for x in SUB.finditer(text) if not x.group(2)]
            quoted = [x for x in raw if text[x.start() - 1:x.start()] in ('"', "'")]
            yield Obl(f"template {f}: names are written as python texts, whatever they contain", [], z3.BoolVal(not quoted))
            if raw and not quoted:
                raise Unsupported("template")
            t = SUB.sub(lambda x: json.dumps("x") if x.group(2) else "x", text)
            if "{{" in t or "{%" in t or "{#" in t:
                raise Unsupported("template")
            try:
                tree = ast.parse(t)
            except SyntaxError:
                tree = None
            yield Obl(f"template {f}: is a python module", [], z3.BoolVal(tree is not None))
            if tree is None:
                continue
            if f.startswith("pipeline"):
                names = {x.id for n in tree.body if isinstance(n, ast.Assign) for x in n.targets if isinstance(x, ast.Name)}
                yield Obl(f"template {f}: defines PIPELINE", [], z3.BoolVal("PIPELINE" in names))
            else:
                c = [n for n in tree.body if isinstance(n, ast.ClassDef) and n.name == "DataLoader"]
                yield Obl(f"template {f}: defines DataLoader", [], z3.BoolVal(bool(c)))
                for k in c:
                    ms = {n.name: n for n in k.body if isinstance(n, ast.FunctionDef)}
                    yield Obl(f"template {f}: the data loader has all methods of data loaders", [], z3.BoolVal({"__init__", "load", "hash"} <= set(ms)))
                    i = ms.get("__init__")
                    if i is not None:
                        yield Obl(f"template {f}: the data loader is made without arguments", [], z3.BoolVal(len(i.args.args) - 1 <= len(i.args.defaults)))
    return Unit("templates", gen, keys=["causy/workspaces/templates:pipeline.py.tpl", "causy/workspaces/templates:dataloader.py.tpl"])


def p27_units():
    return [create_unit(f) for f in POSTS] + [command_unit("create_pipeline", "_create_pipeline"), command_unit("create_data_loader", "_create_data_loader"), command_unit("create_experiment", "_create_experiment"), init_unit(), store_unit(), table_unit(), template_unit()]
