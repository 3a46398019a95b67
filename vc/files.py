"""Contracts of the files of an experiment (P18) and of algorithm references (P17).

File names are strings of z3's string theory; opening and removing a file are events of the ghost trace."""
import z3
from .base import *
from .interp import *
from .trace import *
from .verify import Obl, Unit
from .vars import attr_of
from .wspace import CLI, flat

S = z3.StringSort()
# which strings are digits is uninterpreted (z3's regular expressions are not needed and slow); the facts that relate
# the predicates are part of their definitions
_f = lambda n, r: z3.Function(n, S, r)
digits = lambda t: z3.And(_f("ascii_digits", B)(t), z3.Length(t) > 0)
ascii_ = lambda t: z3.Or(digits(t), _f("other_ascii", B)(t))
int_ok = lambda t: z3.Or(digits(t), _f("other_int", B)(t))
dec, show = _f("decimal", I), z3.Function("shown", I, S)
int_val = lambda t: z3.If(digits(t), dec(t), _f("other_value", I)(t))
listed = z3.Function("listed", S, B)


def ts(v):
    """term of a string"""
    if isinstance(v, ZS):
        return v.t
    if isinstance(v, str):
        return z3.StringVal(v)
    raise Unsupported(f"string {v!r}")


class ZS:
    """a string"""
    def __init__(self, t):
        self.t = t
    def __repr__(self):
        return f"ZS({self.t})"
    def subst(self, pairs):
        return ZS(z3.substitute(self.t, *pairs))
    def is_none(self, eng, st):
        return False
    def obj_term(self):
        return z3.Function("str_obj", S, Obj)(self.t)
    def isinst(self, eng, st, n):
        return n == "str"
    def truth(self, eng, st):
        return z3.Length(self.t) > 0
    def eq_to(self, eng, st, o):
        if isinstance(o, (ZS, str)):
            return self.t == ts(o)
        if o is None or isinstance(o, (bool, int, float)):
            return False
        raise Unsupported("equality of strings")
    def length(self, eng, st):
        return [(st, z3.Length(self.t))]
    def str_bin(self, eng, st, op, o, swap):
        if op != "Add":
            raise Unsupported(f"str {op}")
        return [(st, ZS(z3.Concat(ts(o), self.t) if swap else z3.Concat(self.t, ts(o))))]
    def contains(self, eng, st, x):
        return z3.Contains(self.t, ts(x))
    def slice(self, eng, st, ps):
        lo, hi, step = ps
        if step is not None:
            raise Unsupported("slice step")
        n = z3.Length(self.t)

        def bound(x, d):
            if x is None:
                return d
            y = x if isz(x) else z3.IntVal(x)
            y = z3.If(y < 0, n + y, y)
            return z3.If(y < 0, 0, z3.If(y > n, n, y))
        a, b = bound(lo, z3.IntVal(0)), bound(hi, n)
        return [(st, ZS(z3.SubString(self.t, a, z3.If(b > a, b - a, 0))))]
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        t = self.t
        if kws:
            raise Unsupported(f"str.{name}")
        if name == "startswith" and len(args) == 1:
            return [(st, z3.PrefixOf(ts(args[0]), t))]
        if name == "endswith" and len(args) == 1:
            return [(st, z3.SuffixOf(ts(args[0]), t))]
        if name == "removeprefix":
            p = ts(args[0])
            return [(st, ZS(z3.If(z3.PrefixOf(p, t), z3.SubString(t, z3.Length(p), z3.Length(t) - z3.Length(p)), t)))]
        if name == "removesuffix":
            p = ts(args[0])
            return [(st, ZS(z3.If(z3.And(z3.SuffixOf(p, t), z3.Length(p) > 0), z3.SubString(t, 0, z3.Length(t) - z3.Length(p)), t)))]
        if name == "isascii" and not args:
            return [(st, ascii_(t))]
        if name in ("isdigit", "isdecimal", "isnumeric") and not args:
            other = _f("other_" + name, B)(t)
            if name == "isdecimal":
                other = z3.And(other, int_ok(t))
            return [(st, z3.Or(digits(t), z3.And(z3.Not(ascii_(t)), other)))]
        raise Unsupported(f"str.{name}")


def m_int(eng, st, args, kws):
    if len(args) != 1 or kws:
        raise Unsupported("int(...)")
    x = args[0]
    if isinstance(x, ZS):
        return eng.guarded(st, int_ok(x.t), lambda s2: int_val(x.t), "ValueError")
    if isz(x) and x.sort() == I or isinstance(x, int):
        return [(st, x)]
    if isinstance(x, SV):
        return [(st, z3.Function("to_int", Obj, I)(x.t))]
    raise Unsupported("int(...)")


def fmt(eng, st, parts):
    """f-string"""
    out = []
    for p in parts:
        if isinstance(p, (ZS, str)):
            out.append(ts(p))
        elif isz(p) and p.sort() == I:
            out.append(show(p))
        elif isinstance(p, int) and not isinstance(p, bool) and p >= 0:
            out.append(z3.StringVal(str(p)))
        else:
            return StrV()
    return ZS(z3.Concat(*out) if len(out) > 1 else out[0])


class ListDir:
    """os.listdir(): every listed name once, in any order"""
    closed = True
    def iter_segs(self, eng, st):
        f = z3.Const(fresh_name("file"), S)
        return [Seg([f], listed(f), ZS(f))]
    def is_none(self, eng, st):
        return False


class SortedV:
    """a sorted list"""
    def __init__(self, segs, reverse):
        self.segs, self.reverse = segs, reverse
    def iter_segs(self, eng, st):
        return list(self.segs)
    def is_none(self, eng, st):
        return False


def m_sorted(eng, st, args, kws):
    if len(args) != 1 or set(kws) - {"reverse"}:
        raise Unsupported("sorted(...)")
    r = kws.get("reverse", False)
    if not isinstance(r, bool):
        raise Unsupported("sorted(...)")
    return [(st, SortedV([Seg(g.bvs, g.guard, eng.freeze(g.elem, st)) for g in eng.segs(args[0], st)], r))]


class Versions:
    """the versions of an experiment: non-negative, newest first"""
    closed = True
    n = z3.Const("n_versions", I)
    at = z3.Function("version_at", I, I)
    def facts(self):
        i, j = z3.Ints("i j")
        rng = lambda q: z3.And(q >= 0, q < self.n)
        return [self.n >= 0, z3.ForAll([i], z3.Implies(rng(i), self.at(i) >= 0)),
                z3.ForAll([i, j], z3.Implies(z3.And(rng(i), rng(j), i <= j), self.at(i) >= self.at(j)))]
    def length(self, eng, st):
        return [(st, self.n)]
    def truth(self, eng, st):
        return self.n > 0
    def is_none(self, eng, st):
        return False
    def contains(self, eng, st, x):
        i = z3.Const(fresh_name("i"), I)
        return z3.Exists([i], z3.And(i >= 0, i < self.n, self.at(i) == x))
    def item(self, eng, st, k):
        if not isinstance(k, int):
            raise Unsupported("index")
        i = z3.IntVal(k) if k >= 0 else self.n + k
        return eng.guarded(st, z3.And(i >= 0, i < self.n), lambda s: self.at(i), "IndexError")
    def iter_segs(self, eng, st):
        i = z3.Const(fresh_name("i"), I)
        return [Seg([i], z3.And(i >= 0, i < self.n), self.at(i))]


def m_extreme(big):
    def h(eng, st, args, kws):
        if len(args) != 1 or kws or not isinstance(args[0], Versions):
            raise Unsupported("max/min")
        v = args[0]
        a, b = eng.split(st, v.n > 0)
        out = []
        if a is not None:
            s = a.copy()
            m = skolem(s, "extreme", I)
            i, j = z3.Ints("i j")
            rng = lambda q: z3.And(q >= 0, q < v.n)
            s.pc += [z3.ForAll([i], z3.Implies(rng(i), m >= v.at(i) if big else m <= v.at(i))), z3.Exists([j], z3.And(rng(j), v.at(j) == m))]
            out.append((s, m))
        if b is not None:
            out.append((b, Raised("ValueError")))
        return out
    return h


class FileV:
    """an open file"""
    closed = True
    def __init__(self, path):
        self.path = path
    def enter(self, eng, st):
        return [(st, self)]
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        s = st.copy()
        if name == "read" and not args:
            return [(s, SV(z3.Function("contents_of", self.path.sort(), Obj)(self.path)))]
        if name == "write" and len(args) == 1:
            event(s, "write", path=self.path, data=args[0])
            return [(s, None)]
        if name in ("seek", "close", "flush"):
            return [(s, None)]
        raise Unsupported(f"file.{name}")


def m_open(eng, st, args, kws):
    b = bind_args(["file", "mode", "buffering", "encoding"], args, kws, "open")
    s = st.copy()
    mode = b.get("mode", "r")
    if not isinstance(mode, str):
        raise Unsupported("open mode")
    p = eng.path_term(b["file"])
    event(s, "open", path=p, mode=mode)
    return [(s, FileV(p))]


class Ws:
    """workspace: which experiments exist"""
    has = z3.Function("has_experiment", S, B)
    closed = True
    def contains(self, eng, st, x):
        return self.has(ts(x))
    def is_none(self, eng, st):
        return False


def p18_engine(ctx, fn):
    eng = TraceEngine(ctx, fn.key)
    eng.fstring = fmt
    eng.path_term = ts
    vs = Versions()
    key = ctx.prog.mod(CLI).funcs["_load_experiment_versions"].key

    class V:
        def apply(self, e, s, b):
            n = b.get("experiment_name")
            if not (isinstance(n, ZS) and n.t.eq(z3.Const("name", S))):
                raise Mismatch("versions of another experiment")
            return [(s, vs)]
    if fn.key != key:
        eng.contracts[key] = V()
    eng.externals.update({"builtins.int": m_int, "builtins.sorted": m_sorted, "builtins.open": m_open, "builtins.max": m_extreme(True), "builtins.min": m_extreme(False),
                          "os.listdir": lambda e, s, a, k: [(s, ListDir())] if not a or a == ["."] else bad("listdir"),
                          "json.load": lambda e, s, a, k: [(s, SV(z3.Function("json_of", S, Obj)(a[0].path)))] if isinstance(a[0], FileV) else bad("json.load"),
                          "json.loads": lambda e, s, a, k: [(s, SV(z3.Function("parsed", Obj, Obj)(a[0].t)))] if isinstance(a[0], SV) else bad("json.loads")})
    st = start(ctx)
    if fn.key == key:
        return eng, st, ObjV("workspace", "Workspace", {"experiments": Ws()}), vs, ZS(z3.Const("name", S))
    st.pc += vs.facts()
    t = z3.Const("p", S)
    st.pc.append(z3.ForAll([t], z3.Function("parsed", Obj, Obj)(z3.Function("contents_of", S, Obj)(t)) == z3.Function("json_of", S, Obj)(t)))
    ws = ObjV("workspace", "Workspace", {"experiments": Ws()})
    return eng, st, ws, vs, ZS(z3.Const("name", S))


def bad(what):
    raise Unsupported(what)


def file_name(name, version):
    return z3.Concat(name, z3.StringVal("_"), version, z3.StringVal(".json"))


def versions_unit():
    def gen(ctx):
        fn = ctx.prog.mod(CLI).funcs["_load_experiment_versions"]
        eng, st, ws, vs, name = p18_engine(ctx, fn)
        lab = "_load_experiment_versions"
        for s, v in eng.call_fn(FuncV(fn), [ws, name], {}, st):
            if isinstance(v, Raised):
                yield Obl(f"{lab}: never raises {v.exc}", s.pc, False)
                continue
            if not isinstance(v, SortedV):
                c = s.store[v.oid] if isinstance(v, CRef) else v
                if isinstance(c, Cont) and c.kind == "list":
                    v = SortedV(c.segs, not c.segs)
                else:
                    raise Mismatch("list of versions")
            yield Obl(f"{lab}: newest first", s.pc, v.reverse is True or not v.segs)
            found = []
            d = z3.Const("digits", S)
            for g in flat_ev(v.segs):
                if len(g.bvs) != 1 or g.bvs[0].sort() != S or not (isz(g.elem) and g.elem.sort() == I):
                    raise Mismatch("version")
                f = g.bvs[0]
                w = z3.SubString(f, z3.Length(name.t) + 1, z3.Length(f) - z3.Length(name.t) - 6)
                yield Obl(f"{lab}: only files of this experiment count, each with its timestamp", s.pc,
                          ForAll([f], Implies(g.guard, And(listed(f), f == file_name(name.t, w), digits(w), g.elem == dec(w)))))
                here = file_name(name.t, d)
                found.append(And(z3.substitute(tob(g.guard), (f, here)), z3.substitute(g.elem, (f, here)) == dec(d)))
            yield Obl(f"{lab}: every file of this experiment counts", s.pc, ForAll([d], Implies(And(digits(d), listed(file_name(name.t, d))), Or(*found))))
        ctx.close(eng)
    return Unit("_load_experiment_versions", gen, keys=[f"{CLI}:_load_experiment_versions"])


def flat_ev(segs):
    from .vars import flat_segs
    return flat_segs(segs)


def opened(m, s, segs, lab, want, mode):
    """exactly this file is opened"""
    evs = [g for g in flat(segs) if g.elem.fields["kind"] == "open"]
    if len(evs) != 1 or evs[0].bvs:
        m.ob(f"{lab} is opened", s.pc, False) if not evs else bad("several files opened")
        return
    f = evs[0].elem.fields
    m.ob(f"{lab} is opened", s.pc, f["path"] == want)
    m.ob(f"{lab} is opened the right way", s.pc, f["mode"].replace("t", "") == mode)


def latest_unit():
    def gen(ctx):
        fn = ctx.prog.mod(CLI).funcs["_load_latest_experiment_result"]
        eng, st, ws, vs, name = p18_engine(ctx, fn)
        m = Match(eng, "_load_latest_experiment_result")
        for s, v in eng.call_fn(FuncV(fn), [ws, name], {}, st):
            ok = And(Ws.has(name.t), vs.n > 0)
            if isinstance(v, Raised):
                m.ob("raises only without an experiment or result", s.pc, Not(ok))
                m.ob("raises ValueError", s.pc, v.exc == "ValueError")
                continue
            m.ob("an unknown experiment or one without results is an error", s.pc, ok)
            want = file_name(name.t, show(vs.at(0)))
            opened(m, s, s.store[TR].segs, "the file with the greatest timestamp", want, "r")
            if not isinstance(v, SV):
                raise Mismatch("value returned")
            m.ob("the contents of the newest file are returned", s.pc, v.t == z3.Function("json_of", S, Obj)(want))
        yield from m.out
        ctx.close(eng)
    return Unit("_load_latest_experiment_result", gen, keys=[f"{CLI}:_load_latest_experiment_result"])


def one_unit():
    def gen(ctx):
        fn = ctx.prog.mod(CLI).funcs["_load_experiment_result"]
        eng, st, ws, vs, name = p18_engine(ctx, fn)
        m = Match(eng, "_load_experiment_result")
        n = z3.Const("version", I)
        there = vs.contains(eng, st, n)
        for s, v in eng.call_fn(FuncV(fn), [ws, name, n], {}, st):
            ok = And(Ws.has(name.t), there)
            if isinstance(v, Raised):
                m.ob("raises only without that experiment or version", s.pc, Not(ok))
                m.ob("raises ValueError", s.pc, v.exc == "ValueError")
                continue
            m.ob("an unknown experiment or version is an error", s.pc, ok)
            want = file_name(name.t, show(n))
            opened(m, s, s.store[TR].segs, "the file of that version", want, "r")
            if not isinstance(v, SV):
                raise Mismatch("value returned")
            m.ob("its contents are returned", s.pc, v.t == z3.Function("json_of", S, Obj)(want))
        yield from m.out
        ctx.close(eng)
    return Unit("_load_experiment_result", gen, keys=[f"{CLI}:_load_experiment_result"])


def save_unit():
    def gen(ctx):
        fn = ctx.prog.mod(CLI).funcs["_save_experiment_result"]
        eng, st, ws, vs, name = p18_engine(ctx, fn)
        res = SV(z3.Const("result", Obj))
        dump, text, stamp = z3.Function("model_dump", Obj, Obj), z3.Function("json_text", Obj, Obj), z3.Function("timestamp", Obj, Obj)
        eng.sv_methods["model_dump"] = lambda e, s, r, a, k: [(s, SV(dump(r.t)))] if not a and not k else bad("model_dump")
        eng.sv_methods["timestamp"] = lambda e, s, r, a, k: [(s, SV(stamp(r.t)))]
        eng.externals["datetime.datetime.timestamp"] = lambda e, s, a, k: [(s, SV(stamp(a[0].t)))]
        eng.externals["json.dumps"] = lambda e, s, a, k: [(s, SV(text(a[0].t)))] if isinstance(a[0], SV) and set(k) <= {"cls", "indent"} else bad("json.dumps")

        def jdump(e, s, a, k):
            if not (isinstance(a[0], SV) and isinstance(a[1], FileV) and set(k) <= {"cls", "indent"}):
                bad("json.dump")
            s = s.copy()
            event(s, "write", path=a[1].path, data=SV(text(a[0].t)))
            return [(s, None)]
        eng.externals["json.dump"] = jdump
        m = Match(eng, "_save_experiment_result")
        for s, v in eng.call_fn(FuncV(fn), [ws, name, res], {}, st):
            if isinstance(v, Raised):
                m.ob(f"never raises {v.exc}", s.pc, False)
                continue
            t = z3.Function("to_int", Obj, I)(stamp(attr_of("created_at", res.t)))
            want = file_name(name.t, show(t))
            opened(m, s, s.store[TR].segs, "the file of this experiment and time", want, "w")
            ws_ = [g for g in flat(s.store[TR].segs) if g.elem.fields["kind"] == "write"]
            if len(ws_) != 1 or ws_[0].bvs:
                m.ob("the result is written", s.pc, False) if not ws_ else bad("several writes")
                continue
            d = ws_[0].elem.fields["data"]
            if not isinstance(d, SV):
                raise Mismatch("data written")
            m.ob("the result is written", s.pc, d.t == text(dump(res.t)))
        yield from m.out
        ctx.close(eng)
    return Unit("_save_experiment_result", gen, keys=[f"{CLI}:_save_experiment_result"])


def remove_all(e, s, a, k):
    """os.remove(path): the file may have gone in the meantime"""
    if len(a) != 1 or k:
        bad("os.remove")
    p = ts(a[0])
    s = s.copy()
    event(s, "remove", path=p)
    gone = z3.Function("gone", S, B)
    return e.guarded(s, z3.Not(gone(p)), lambda s2: None, "FileNotFoundError")


def clear_files_unit():
    def gen(ctx):
        fn = ctx.prog.mod(CLI).funcs["_clear_experiment"]
        eng, st, ws, vs, name = p18_engine(ctx, fn)
        eng.externals["os.remove"] = eng.externals["os.unlink"] = remove_all
        lab = "_clear_experiment"
        for s, v in eng.call_fn(FuncV(fn), [name, ws], {}, st):
            if isinstance(v, Raised):
                yield Obl(f"{lab}: never raises {v.exc}", s.pc, False)
                continue
            i = z3.Const("i", I)
            rng = lambda q: z3.And(q >= 0, q < vs.n)
            path = lambda q: file_name(name.t, show(vs.at(q)))
            hit = []
            for g in flat(s.store[TR].segs):
                if g.elem.fields["kind"] != "remove":
                    raise Mismatch("trace")
                yield Obl(f"{lab}: removes only results of this experiment", s.pc, ForAll(list(g.bvs), Implies(g.guard, Exists([i], And(rng(i), g.elem.fields["path"] == path(i))))))
                hit.append(Exists(list(g.bvs), And(g.guard, g.elem.fields["path"] == path(i))))
            yield Obl(f"{lab}: removes every result of this experiment", s.pc, ForAll([i], Implies(rng(i), Or(*hit))))
        ctx.close(eng)
    return Unit("_clear_experiment", gen, keys=[f"{CLI}:_clear_experiment"])


def p18_units():
    from .wspace import clear_call_unit
    return [versions_unit(), latest_unit(), one_unit(), save_unit(), clear_files_unit(), clear_call_unit("clear_experiment"), clear_call_unit("remove_experiment")]


# ---------------------------------------------------------------- P17

SER = "causy/serialization.py"
P = Obj
real, absp, normp = (z3.Function(n, Obj, Obj) for n in ("realpath", "abspath", "normpath"))
common, joined = z3.Function("commonpath", Obj, Obj, Obj), z3.Function("joined", Obj, Obj, Obj)
below, prefix = z3.Function("is_below", Obj, Obj, B), z3.Function("has_prefix", Obj, Obj, B)
CWD = z3.Const("cwd", Obj)


class PathS(SV):
    """a path or reference (a string)"""
    def subst(self, pairs):
        return PathS(z3.substitute(self.t, *pairs))
    def is_none(self, eng, st):
        return False
    def isinst(self, eng, st, n):
        return n == "str"
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name == "startswith" and len(args) == 1 and isinstance(args[0], PathS) and not kws:
            return [(st, prefix(self.t, args[0].t))]
        if name == "rsplit" and args == [".", 1] and not kws:
            return [(st, (PathS(z3.Function("module_part", Obj, Obj)(self.t)), PathS(z3.Function("last_part", Obj, Obj)(self.t))))]
        raise Unsupported(f"str.{name}")


class CopyV(SV):
    """a deep copy of a value"""
    def subst(self, pairs):
        return CopyV(z3.substitute(self.t, *pairs))


def path1(f):
    def h(e, s, a, k):
        if len(a) != 1 or k or not isinstance(a[0], PathS):
            bad("path function")
        return [(s, PathS(f(a[0].t)))]
    return h


def m_common(e, s, a, k):
    xs = [g.elem for g in e.segs(a[0], s)]
    if len(xs) != 2 or not all(isinstance(x, PathS) for x in xs):
        bad("commonpath")
    return [(s, PathS(common(xs[0].t, xs[1].t)))]


def m_join(e, s, a, k):
    if len(a) != 2 or not all(isinstance(x, PathS) for x in a):
        bad("join")
    return [(s, PathS(joined(a[0].t, a[1].t)))]


PATHF = ("realpath", "abspath", "normpath", "joined", "commonpath")


def path_facts(fs):
    """the contracts of the path functions, instantiated for the paths that occur in fs"""
    ts_, seen, todo = {CWD.get_id(): CWD}, set(), [f for f in fs if z3.is_expr(f)]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        todo += x.children()
        if z3.is_app(x) and (x.decl().name() in PATHF or x.decl().name() in ("is_below", "has_prefix")):
            for c in list(x.children()) + [x]:
                if c.sort() == Obj:
                    ts_[c.get_id()] = c
    xs = [x for x in ts_.values() if x.decl().name() != "commonpath"]
    out = [absp(CWD) == CWD, real(CWD) == CWD]      # the kernel reports the working directory without symbolic links
    for x in xs:
        # resolving ends: a resolved path is absolute, normal and resolves to itself
        out += [real(real(x)) == real(x), absp(real(x)) == real(x), normp(real(x)) == real(x), real(joined(CWD, x)) == real(x),
                below(x, x), common(x, x) == x]
    rs = list({real(x).get_id(): real(x) for x in xs}.values())
    for x in xs + rs:
        for y in xs + rs:
            out += [common(x, y) == common(y, x), z3.Implies(below(x, y), prefix(x, y))]
    for x in rs:
        for y in rs:
            # for resolved paths: the common path of x and y is x exactly if y is x or lies below it
            out.append((common(x, y) == x) == below(y, x))
    return out


def reference_unit():
    def gen(ctx):
        mod = ctx.prog.mod(SER)
        fn = mod.funcs["load_algorithm_by_reference"]
        for member, raw in (("FILE", "file"), ("NAME", "name"), ("PYTHON_MODULE", "python_module")):
            for kind in (EnumC("AlgorithmReferenceType", member, raw), raw):
                eng = TraceEngine(ctx, fn.key)
                ref = PathS(z3.Const("reference", Obj))
                eng.path_term = lambda v: v.t if isinstance(v, PathS) else bad("path")

                class Spec:
                    def apply(self, e, s, b):
                        d = b.get("algorithm_dict")
                        return [(s, CopyV(z3.Function("from_specification", Obj, Obj)(d.t)))] if isinstance(d, SV) else bad("specification")
                eng.contracts[mod.funcs["load_algorithm_from_specification"].key] = Spec()
                jok = z3.Function("is_json", Obj, B)
                yok = z3.Function("is_yaml", Obj, B)

                def loads(e, s, a, k):
                    if not isinstance(a[0], SV):
                        bad("json.loads")
                    return e.guarded(s, jok(a[0].t), lambda s2: SV(z3.Function("parsed", Obj, Obj)(a[0].t)), "JSONDecodeError")

                def yload(e, s, a, k):
                    return e.guarded(s, yok(a[0].t), lambda s2: SV(z3.Function("parsed", Obj, Obj)(a[0].t)), "YAMLError")
                eng.externals.update({"os.path.realpath": path1(real), "os.path.abspath": path1(absp), "os.path.normpath": path1(normp), "os.path.commonpath": m_common,
                                      "os.path.join": m_join, "os.getcwd": lambda e, s, a, k: [(s, PathS(CWD))], "builtins.open": m_open, "json.loads": loads, "yaml.load": yload,
                                      "yaml.safe_load": yload, "importlib.import_module": lambda e, s, a, k: [(s, SV(z3.Function("module", Obj, Obj)(a[0].t)))],
                                      "builtins.getattr": lambda e, s, a, k: [(s, SV(z3.Function("member", Obj, Obj, Obj)(a[0].t, a[1].t)))],
                                      "copy.deepcopy": lambda e, s, a, k: [(s, CopyV(a[0].t))] if isinstance(a[0], SV) else bad("deepcopy")})

                def mcopy(e, s, r, a, k):
                    return [(s, CopyV(r.t) if k.get("deep") is True else SV(z3.Function("shallow_copy", Obj, Obj)(r.t)))]
                eng.sv_methods["model_copy"] = mcopy
                eng.values = {"causy.causal_discovery.AVAILABLE_ALGORITHMS": Known(z3.Const("AVAILABLE_ALGORITHMS", Obj))}
                eng.sv_call = lambda e, s, f, a, k: [(s, SV(z3.Function("made_by", Obj, Obj)(f.t)))] if not a and not k else bad("call")
                st = start(ctx)
                m = Match(eng, f"load_algorithm_by_reference ({member})")
                # with and without '..' resolved before symbolic links
                readings = [real(ref.t), real(absp(ref.t))]
                inside = [below(r, CWD) for r in readings]
                for s, v in eng.call_fn(FuncV(fn), [kind, ref], {}, st):
                    for g in flat(s.store[TR].segs):
                        f = g.elem.fields
                        if f["kind"] != "open" or g.bvs:
                            raise Mismatch("trace")
                        m.ob("only a file in or below the working directory is opened", s.pc, below(real(f["path"]), real(CWD)))
                        m.ob("it is opened for reading", s.pc, f["mode"] in ("r", "rt", "rb"))
                        if member == "FILE":
                            m.ob("the referenced file is opened", s.pc, Or(*[real(f["path"]) == r for r in readings]))
                    if member == "FILE":
                        nopen = len(flat(s.store[TR].segs))
                        if isinstance(v, Raised):
                            m.ob("a file in or below the working directory is not refused", s.pc, Implies(And(*inside), nopen > 0))
                        else:
                            m.ob("a reference outside the working directory is refused", s.pc, Or(*inside))
                        continue
                    if isinstance(v, Raised):
                        continue
                    if not isinstance(v, SV):
                        raise Mismatch("value returned")
                    made = z3.Function("made_by", Obj, Obj)
                    src = attr_of("_original_algorithm", made(z3.Function("entry", Obj, Obj, Obj)(z3.Const("AVAILABLE_ALGORITHMS", Obj), ref.t))) if member == "NAME" else \
                        attr_of("_original_algorithm", made(z3.Function("member", Obj, Obj, Obj)(z3.Function("module", Obj, Obj)(z3.Function("module_part", Obj, Obj)(ref.t)), z3.Function("last_part", Obj, Obj)(ref.t))))
                    if isinstance(v, CopyV):
                        m.ob("a copy of the unresolved algorithm is returned", s.pc, v.t == src)
                    else:
                        m.ob("an independent copy is returned", s.pc, False)
                for o in m.out:
                    o.hyps = o.hyps + path_facts(o.hyps + [o.goal])
                    yield o
                ctx.close(eng)
    return Unit("load_algorithm_by_reference", gen, keys=[f"{SER}:load_algorithm_by_reference"])


class Known(SV):
    """the table of the algorithms that come with causy"""
    def item(self, eng, st, k):
        return eng.guarded(st, self.contains(eng, st, k), lambda s: SV(z3.Function("entry", Obj, Obj, Obj)(self.t, k.t)), "KeyError")
    def contains(self, eng, st, x):
        return z3.Function("is_known", Obj, Obj, B)(self.t, x.t)
    def attr(self, eng, st, a):
        raise Unsupported(f"AVAILABLE_ALGORITHMS.{a}")


def p17_units():
    return [reference_unit()]
