"""Contracts of the hashes that decide whether an experiment is executed again (P19), and of the table of data loaders.

A hash value is a string of z3's string theory. hashlib's functions are injective functions to strings of a fixed length
(no collisions: assumed), json.dumps is injective on the contents of a dictionary; it also depends on the order of the keys
unless they are sorted. That equal hashes mean equal contents is then proved of the code by running the function on two
arbitrary objects."""
import z3
from .base import *
from .interp import *
from .trace import *
from .verify import Obl, Unit
from .files import ZS, S, ts, FileV, m_open
from .load import bad

DL, GU, MO = "causy/data_loader.py", "causy/graph_utils.py", "causy/models.py"
DIGESTS = {"sha1": 40, "sha224": 56, "sha256": 64, "sha384": 96, "sha512": 128, "md5": 32, "sha3_256": 64, "sha3_512": 128}
content_of, order_of = z3.Function("content_of", Obj, Obj), z3.Function("order_of", Obj, Obj)
bytes_of = z3.Function("bytes_of_file", Obj, Obj)
hexd = {n: z3.Function("hex_" + n, Obj, S) for n in DIGESTS}
unhex = {n: z3.Function("inv_hex_" + n, S, Obj) for n in DIGESTS}
HD = z3.Function("hash_dictionary", Obj, S)
unHD = z3.Function("inv_hash_dictionary", S, Obj)


def hex_of(s, n, t):
    """hexadecimal digest of the bytes t"""
    r = hexd[n](t)
    s.pc += [unhex[n](r) == t, z3.Length(r) == DIGESTS[n]]
    return ZS(r)


class TextV(SV):
    """a text built from a value"""
    def subst(self, pairs):
        return TextV(z3.substitute(self.t, *pairs))
    def is_none(self, eng, st):
        return False
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name == "encode" and all(isinstance(x, str) and x.lower().replace("-", "") == "utf8" for x in list(args) + list(kws.values())):
            s = st.copy()
            return [(s, BytesV(inj(s, "utf8", self.t)))]
        raise Unsupported(f"text.{name}")


class BytesV(SV):
    def subst(self, pairs):
        return BytesV(z3.substitute(self.t, *pairs))
    def is_none(self, eng, st):
        return False


def inj(s, name, *ts_):
    """an injective function"""
    r = z3.Function(name, *[t.sort() for t in ts_], Obj)(*ts_)
    for i, t in enumerate(ts_):
        s.pc.append(z3.Function(f"inv_{name}_{i}", Obj, t.sort())(r) == t)
    return r


class Digest:
    """a hash object: fed is None before any data"""
    closed = True
    def __init__(self, algo, fed):
        self.algo, self.fed = algo, fed
    def is_none(self, eng, st):
        return False
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name == "hexdigest" and not args and not kws and self.fed is not None:
            s = st.copy()
            return [(s, hex_of(s, self.algo, self.fed))]
        raise Unsupported(f"hash object.{name}")


class BinFile(FileV):
    def __init__(self, path, mode):
        FileV.__init__(self, path)
        self.mode = mode
    def method(self, eng, st, name, args, kws):
        if name == "read" and not args and not kws and "b" in self.mode:
            return [(st, BytesV(bytes_of(self.path)))]
        if name == "read" and len(args) == 1 and not kws and "b" in self.mode and isinstance(args[0], int) and args[0] >= 0:
            return [(st, BytesV(z3.Function("prefix", I, Obj, Obj)(z3.IntVal(args[0]), bytes_of(self.path))))]
        raise Unsupported(f"file.{name}")


def hash_engine(ctx, fn, dicts=True):
    eng = TraceEngine(ctx, fn.key)
    eng.path_term = lambda v: v.t if isinstance(v, SV) else bad("path")
    eng.fstring = lambda e, s, parts: ZS(z3.Concat(*[ts(p) for p in parts])) if len(parts) > 1 else ZS(ts(parts[0]))

    def op(e, st, a, k):
        b = bind_args(["file", "mode"], a, k, "open")
        return [(s, BinFile(f.path, b.get("mode", "r"))) for s, f in m_open(e, st, a, k)]
    eng.externals["builtins.open"] = op

    def algo(n):
        def h(e, s, a, k):
            if k and set(k) != {"usedforsecurity"}:
                bad("hashlib")
            if len(a) != 1 or not isinstance(a[0], BytesV):
                bad("hashlib")
            e.assumed.add("the hash functions of hashlib have no collisions")
            return [(s, Digest(n, a[0].t))]
        return h
    for n in DIGESTS:
        eng.externals["hashlib." + n] = algo(n)

    def new(e, s, a, k):
        if not a or not isinstance(a[0], str) or a[0] not in DIGESTS:
            bad("hashlib.new")
        return algo(a[0])(e, s, a[1:], k)
    eng.externals["hashlib.new"] = new

    def file_digest(e, s, a, k):
        if k or len(a) != 2 or not isinstance(a[0], BinFile) or "b" not in a[0].mode or not isinstance(a[1], str) or a[1] not in DIGESTS:
            bad("hashlib.file_digest")
        e.assumed.add("the hash functions of hashlib have no collisions")
        return [(s, Digest(a[1], bytes_of(a[0].path)))]
    eng.externals["hashlib.file_digest"] = file_digest

    def dumps(e, s, a, k):
        if len(a) != 1 or not isinstance(a[0], SV) or not set(k) <= {"ensure_ascii", "sort_keys", "indent", "separators", "allow_nan", "check_circular"}:
            bad("json.dumps")
        if any(isz(x) for x in k.values()):
            bad("json.dumps")
        e.assumed.add("json.dumps with sorted keys gives the same text for equal contents and different texts for different ones")
        s = s.copy()
        form = z3.Const("form:" + repr(sorted((n, repr(v)) for n, v in k.items() if n != "sort_keys")), Obj)
        c = content_of(a[0].t)
        if k.get("sort_keys") is True:
            return [(s, TextV(inj(s, "sorted_json", form, c)))]
        return [(s, TextV(inj(s, "ordered_json", form, c, order_of(a[0].t))))]
    eng.externals["json.dumps"] = dumps
    if dicts:
        class Hash:
            def apply(self, e, s, b):
                d = b.get("dct")
                if not isinstance(d, SV):
                    raise Mismatch("dictionary hashed")
                s = s.copy()
                r = HD(content_of(d.t))
                s.pc += [unHD(r) == content_of(d.t), z3.Length(r) == 64]
                return [(s, ZS(r))]
        g = ctx.prog.mod(GU).funcs.get("hash_dictionary")
        if g is None:
            raise Unsupported("hash_dictionary not found")
        eng.contracts[g.key] = Hash()
    return eng


def twice(eng, st, calls):
    """results of several calls, one after the other"""
    out = [(st, [])]
    for f, args in calls:
        nxt = []
        for s, vs in out:
            for s2, v in eng.call_fn(f, args, {}, s):
                nxt.append((s2, vs + [v]))
                if isinstance(v, Raised):
                    break
        out = nxt
    return out


def strings(m, s, vs, n):
    """the n strings returned, or None"""
    for v in vs:
        if isinstance(v, Raised):
            m.ob(f"never raises {v.exc}", s.pc, False)
            return None
    if len(vs) != n:
        return None
    for v in vs:
        if v is None:
            m.ob("gives a hash", s.pc, False)
            return None
    if not all(isinstance(v, ZS) for v in vs):
        raise Mismatch("hash")
    return [v.t for v in vs]


def dictionary_unit():
    def gen(ctx):
        fn = ctx.prog.mod(GU).funcs["hash_dictionary"]
        eng = hash_engine(ctx, fn, dicts=False)
        a, b = SV(z3.Const("first", Obj)), SV(z3.Const("second", Obj))
        m = Match(eng, "hash_dictionary")
        for s, vs in twice(eng, start(ctx), [(FuncV(fn), [a]), (FuncV(fn), [b])]):
            r = strings(m, s, vs, 2)
            if r is None:
                continue
            m.ob("different contents have different hashes", s.pc, Implies(r[0] == r[1], content_of(a.t) == content_of(b.t)))
            m.ob("equal contents have equal hashes, whatever the order of the keys", s.pc, Implies(content_of(a.t) == content_of(b.t), r[0] == r[1]))
        yield from m.out
        ctx.close(eng)
    return Unit("hash_dictionary", gen, keys=[f"{GU}:hash_dictionary"])


def loader_unit(cls):
    def gen(ctx):
        c, fn = method_of(ctx, DL, cls, "hash")
        eng = hash_engine(ctx, fn)
        st = start(ctx)
        objs, made = [], []
        for n in ("first", "second"):
            f = {"reference": SV(z3.Const(n + ".reference", Obj)), "options": SV(z3.Const(n + ".options", Obj))}
            if cls == "DynamicDataLoader":
                f["data_loader"] = Inner(z3.Const(n + ".hash", S))
            objs.append(ObjV(n, c, f))
            made.append(f)
        if cls == "DynamicDataLoader":
            eng.assumed.add("the hashes a loader of the workspace gives have one length")
            st.pc.append(z3.Length(made[0]["data_loader"].t) == z3.Length(made[1]["data_loader"].t))
        oa, ob = (f["options"] for f in made)
        for a in (oa, ob):
            st.pc.append(Implies(a.is_none(eng, st), Not(eng.truth(a, st))))
        st.pc.append(Implies(content_of(oa.t) == content_of(ob.t), And(Iff(eng.truth(oa, st), eng.truth(ob, st)), Iff(oa.is_none(eng, st), ob.is_none(eng, st)))))
        m = Match(eng, f"{cls}.hash")
        for s, vs in twice(eng, st, [(FuncV(fn, o), []) for o in objs]):
            r = strings(m, s, vs, 2)
            if r is None:
                continue
            p, o = [content_of(f["options"].t) for f in made], [f["reference"].t for f in made]
            d = [f["data_loader"].t if cls == "DynamicDataLoader" else bytes_of(f["reference"].t) for f in made]
            m.ob("different data have different hashes", s.pc, Implies(r[0] == r[1], d[0] == d[1]))
            m.ob("different options have different hashes", s.pc, Implies(r[0] == r[1], Or(p[0] == p[1], And(*[Not(eng.truth(x, s)) for x in (oa, ob)]))))
            m.ob("the same data with the same options has the same hash", s.pc, Implies(z3.And(o[0] == o[1], d[0] == d[1], p[0] == p[1]), r[0] == r[1]))
        yield from m.out
        ctx.close(eng)
    return Unit(f"{cls}.hash", gen, keys=[f"{DL}:{cls}.hash", f"{DL}:AbstractDataLoader._hash_options"])


class Inner:
    """the loader of the workspace's module"""
    def __init__(self, t):
        self.t = t
    def is_none(self, eng, st):
        return False
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name == "hash" and not args and not kws:
            return [(st, ZS(self.t))]
        if name == "load" and not args and not kws:
            s = st.copy()
            return [(s, TList(z3.Const("loaded", Obj)))]
        raise Unsupported(f"data loader.{name}")


LOSSY = {"exclude", "include"}
HARMLESS = {"mode", "warnings"}


def algorithm_unit():
    def gen(ctx):
        c, fn = method_of(ctx, MO, "Algorithm", "hash")
        eng = hash_engine(ctx, fn)

        def dump(e, s, recv, a, k):
            if a or set(k) - LOSSY - HARMLESS:
                raise Unsupported("arguments of model_dump")
            s = s.copy()
            e.assumed.add("pydantic's model_dump of an algorithm holds all of its fields, nested ones included")
            r = z3.Const(fresh_name("dump"), Obj)
            if set(k) & LOSSY:
                s.pc.append(content_of(r) == z3.Function("partial_dump", Obj, Obj)(z3.Function("says", Obj, Obj)(recv.t)))
            else:
                w = z3.Function("says", Obj, Obj)(recv.t)
                s.pc += [content_of(r) == z3.Function("dump_of", Obj, Obj)(w), z3.Function("inv_dump_of", Obj, Obj)(content_of(r)) == w]
            return [(s, SV(r))]
        eng.sv_methods["model_dump"] = dump
        a, b = SV(z3.Const("first", Obj)), SV(z3.Const("second", Obj))
        m = Match(eng, "Algorithm.hash")
        says = z3.Function("says", Obj, Obj)
        for s, vs in twice(eng, start(ctx), [(FuncV(fn), [a]), (FuncV(fn), [b])]):
            r = strings(m, s, vs, 2)
            if r is None:
                continue
            m.ob("different algorithms have different hashes", s.pc, Implies(r[0] == r[1], says(a.t) == says(b.t)))
            m.ob("equal algorithms have equal hashes", s.pc, Implies(says(a.t) == says(b.t), r[0] == r[1]))
        yield from m.out
        ctx.close(eng)
    return Unit("Algorithm.hash", gen, keys=[f"{MO}:Algorithm.hash"])


KINDS = {"JSON": "JSONDataLoader", "JSONL": "JSONLDataLoader", "DYNAMIC": "DynamicDataLoader"}


def table_unit():
    """load_data_loader and the constructors"""
    def gen(ctx):
        mod = ctx.prog.mod(DL)
        fn = mod.funcs["load_data_loader"]
        tc = mod.classes.get("DataLoaderType")
        if tc is None:
            raise Unsupported("DataLoaderType not found")
        for kind, cls in KINDS.items():
            eng = hash_engine(ctx, fn)
            st = start(ctx)
            made = []

            def new(name, eng=eng, made=made):
                def h(e, s, a, k):
                    c = mod.classes[name]
                    me = ObjV(fresh_name("loader"), c, {})
                    made.append(me)
                    init = ctx.prog.method(c, "__init__")
                    out = []
                    for s2, v in e.call_fn(FuncV(init, me), a, k, s):
                        out.append((s2, v if isinstance(v, Raised) else me))
                    return out
                return h
            for n in KINDS.values():
                eng.externals["new:" + n] = new(n)
            ref, opt = SV(z3.Const("reference.reference", Obj)), SV(z3.Const("reference.options", Obj))

            class Module:
                closed = True
                def __init__(self, t):
                    self.t = t
                def is_none(self, e, s):
                    return False
                def attr(self, e, s, a):
                    if a == "DataLoader":
                        return [(s, self)]
                    raise Unsupported("attribute of a module")
                def call(self, e, s, a, k):
                    if a or set(k) - {"**"}:
                        raise Unsupported("arguments of the loader")
                    o = k.get("**")
                    if o is not None and not isinstance(o, SV):
                        raise Unsupported("arguments of the loader")

                    def make(s2):
                        event(s2, "construct", module=SV(self.t), options=o)
                        return SV(z3.Const("inner_loader", Obj))
                    return e.guarded(s, True if o is None else Not(o.is_none(e, s)), make, "TypeError")

            def imp(e, s, a, k, Module=Module):
                b = bind_args(["name"], a, k, "import_module")
                if not isinstance(b.get("name"), SV):
                    bad("import_module")
                return [(s, Module(b["name"].t))]
            eng.externals["importlib.import_module"] = imp
            sts = eng.getattr(ClassV(mod, "DataLoaderType"), kind, st)
            if len(sts) != 1 or isinstance(sts[0][1], Raised):
                raise Unsupported("DataLoaderType")
            r = RecV("DataLoaderReference", {"type": sts[0][1], "reference": ref, "options": opt})
            sts[0][0].pc.append(Implies(opt.is_none(eng, st), Not(eng.truth(opt, st))))
            m = Match(eng, f"load_data_loader ({kind})")
            for s, v in eng.call_fn(FuncV(fn), [r], {}, sts[0][0]):
                if isinstance(v, Raised):
                    m.ob(f"never raises {v.exc}", s.pc, False)
                    continue
                if not isinstance(v, ObjV) or not made:
                    raise Mismatch("data loader")
                m.ob(f"a {cls} is made", s.pc, v.cls is mod.classes[cls])
                h = lambda a: s.heap.get(("o", v.name, a))
                for a, w in (("reference", ref), ("options", opt)):
                    if h(a) is None:
                        m.ob(f"the {a} is kept", s.pc, False)
                        continue
                    m.value(f"the {a} is kept", s, h(a), w)
                tr = s.store[TR].segs
                if kind == "DYNAMIC":
                    if len(tr) != 1:
                        raise Mismatch("construction of the loader")
                    f = m.ev(tr[0], "construct")
                    m.value("the referenced module is used", s, f["module"], ref)
                    m.ob("its loader gets the options", s.pc, Not(eng.truth(opt, s)) if f["options"] is None else same_value(eng, s, f["options"], opt))
                    if not isinstance(h("data_loader"), SV):
                        raise Mismatch("data_loader")
                    m.value("its loader is kept", s, h("data_loader"), SV(z3.Const("inner_loader", Obj)))
            yield from m.out
            ctx.close(eng)
    return Unit("load_data_loader", gen, keys=[f"{DL}:load_data_loader", f"{DL}:FileDataLoader.__init__", f"{DL}:DynamicDataLoader.__init__", f"{DL}:DynamicDataLoader._load_data_loader"])


def dynamic_load_unit():
    def gen(ctx):
        c, fn = method_of(ctx, DL, "DynamicDataLoader", "load")
        eng = hash_engine(ctx, fn)
        me = ObjV("self", c, {"reference": SV(z3.Const("self.reference", Obj)), "options": SV(z3.Const("self.options", Obj)), "data_loader": Inner(z3.Const("inner.hash", S))})
        m = Match(eng, "DynamicDataLoader.load")
        for s, v in eng.call_fn(FuncV(fn, me), [], {}, start(ctx)):
            if isinstance(v, Raised):
                m.ob(f"never raises {v.exc}", s.pc, False)
                continue
            if v is None:
                m.ob("hands over what the loader of the module loads", s.pc, False)
                continue
            got = eng.segs(v, s) if not isinstance(v, SV) else None
            want = SV(z3.Const("loaded", Obj))
            if got is not None:
                m.ob("hands over what the loader of the module loads", s.pc, same_list(eng, s, got, eng.segs(TList(want.t), s)))
            else:
                m.value("hands over what the loader of the module loads", s, v, want)
        yield from m.out
        ctx.close(eng)
    return Unit("DynamicDataLoader.load", gen, keys=[f"{DL}:DynamicDataLoader.load"])


def units():
    return [dictionary_unit(), algorithm_unit(), loader_unit("JSONDataLoader"), loader_unit("JSONLDataLoader"), loader_unit("DynamicDataLoader"), table_unit()]


def p20_units():
    return [table_unit(), dynamic_load_unit()]
