"""Contract of the diff command (P25), in three parts of its body cut at the loop that enters the edges into a map:
A  names -> stored results and labels;  B  one generic step of the loop keeps the invariant of the map;  C  map -> table.
The invariant of B (for all processed edges) is what C starts from."""
import ast, copy, z3
from .base import *
from .interp import *
from .trace import *
from .verify import Obl, Unit
from .wspace import StrO, term, flat
from .command import CLI, need

is_exp, exp_of = z3.Function("is_experiment", Obj, B), z3.Function("experiment", Obj, Obj)
last_part, init_part = z3.Function("part_after_last_underscore", Obj, Obj), z3.Function("part_before_last_underscore", Obj, Obj)
is_num_, num_of = z3.Function("is_number", Obj, B), z3.Function("number", Obj, I)
has_version = z3.Function("has_version", Obj, I, B)
any_version = z3.Function("any_version", Obj, B)
stored, latest = z3.Function("stored_result", Obj, I, Obj), z3.Function("newest_result", Obj, Obj)
label_v, label_l = z3.Function("label_of_version", Obj, I, Obj), z3.Function("label_of_latest", Obj, Obj)
NAMES = z3.Const("experiment_names", Obj)
le = z3.Function("str_le", Obj, Obj, B)
edge_eq = z3.Function("edges_equal", Obj, Obj, B)
shown = z3.Function("shown_as", Obj, Obj, Obj)
n_edges, edge_at = z3.Function("n_edges", Obj, I), z3.Function("edge_at", Obj, I, Obj)
uname, vname = z3.Function("name_of_u", Obj, Obj), z3.Function("name_of_v", Obj, Obj)
row_label = z3.Function("row_label", Obj, Obj, Obj)


def known_name(t):
    return Or(And(is_exp(t), any_version(t)), And(Not(is_exp(t)), is_num_(last_part(t)), is_exp(init_part(t)), has_version(init_part(t), num_of(last_part(t)))))


def result_for(t):
    return z3.If(is_exp(t), latest(t), stored(init_part(t), num_of(last_part(t))))


def label_for(t):
    return z3.If(is_exp(t), label_l(t), label_v(init_part(t), num_of(last_part(t))))


class Name(StrO):
    def subst(self, pairs):
        return Name(z3.substitute(self.t, *pairs))
    def method(self, eng, st, name, args, kws):
        if name in ("split", "rsplit") and args == ["_"] and not kws:
            return [(st, Parts(self.t))]
        return StrO.method(self, eng, st, name, args, kws)


class Parts:
    def __init__(self, t, front=False):
        self.t, self.front = t, front
    def subst(self, pairs):
        return Parts(z3.substitute(self.t, *pairs), self.front)
    def item(self, eng, st, k):
        if k == -1 and not self.front:
            return [(st, Name(last_part(self.t)))]
        raise Unsupported("part of a name")
    def slice(self, eng, st, ps):
        if list(ps) == [None, -1, None] and not self.front:
            return [(st, Parts(self.t, True))]
        raise Unsupported("part of a name")


class Exps:
    closed = True
    def contains(self, eng, st, k):
        return is_exp(term(k))
    def item(self, eng, st, k):
        return eng.guarded(st, is_exp(term(k)), lambda s: SV(exp_of(term(k))), "KeyError")
    def is_none(self, eng, st):
        return False


class Versions:
    def __init__(self, n):
        self.n = n
    def subst(self, pairs):
        return Versions(z3.substitute(self.n, *pairs))
    def contains(self, eng, st, k):
        return has_version(self.n, k if isz(k) else z3.IntVal(k))
    def truth(self, eng, st):
        return any_version(self.n)


class ResO(SV):
    def subst(self, pairs):
        return ResO(z3.substitute(self.t, *pairs))
    def attr(self, eng, st, a):
        if a == "edges":
            return [(st, EdgeList(self.t))]
        raise Unsupported(f"field {a} of a result")


class EdgeList:
    def __init__(self, t):
        self.t = t
    def subst(self, pairs):
        return EdgeList(z3.substitute(self.t, *pairs))
    def iter_segs(self, eng, st):
        j = z3.Const(fresh_name("j"), I)
        return [Seg([j], z3.And(j >= 0, j < n_edges(self.t)), EdgeO(edge_at(self.t, j)))]


class EdgeO(SV):
    def subst(self, pairs):
        return EdgeO(z3.substitute(self.t, *pairs))
    def attr(self, eng, st, a):
        if a in ("u", "v"):
            return [(st, NodeO(self.t, a))]
        raise Unsupported(f"field {a} of an edge")
    def eq_to(self, eng, st, o):
        if isinstance(o, EdgeO):
            return edge_eq(self.t, o.t)
        if isinstance(o, Cell):
            return And(o.has, edge_eq(self.t, o.t))
        if o is None:
            return False
        raise Unsupported("comparison of an edge")
    def is_none(self, eng, st):
        return False
    def truth(self, eng, st):
        return True


class NodeO:
    def __init__(self, e, side):
        self.e, self.side = e, side
    def subst(self, pairs):
        return NodeO(z3.substitute(self.e, *pairs), self.side)
    def attr(self, eng, st, a):
        if a == "name":
            return [(st, StrO((uname if self.side == "u" else vname)(self.e)))]
        raise Unsupported(f"field {a} of a node")


class Cell:
    """value of a row of the table: an edge or None"""
    def __init__(self, has, t):
        self.has, self.t = has, t
    def subst(self, pairs):
        return Cell(subst_val(self.has, pairs), z3.substitute(self.t, *pairs))
    def is_none(self, eng, st):
        return Not(self.has)
    def truth(self, eng, st):
        return self.has
    def eq_to(self, eng, st, o):
        if o is None:
            return Not(self.has)
        if isinstance(o, EdgeO):
            return And(self.has, edge_eq(self.t, o.t))
        if isinstance(o, Cell):
            return Or(And(Not(self.has), Not(o.has)), And(self.has, o.has, edge_eq(self.t, o.t)))
        raise Unsupported("comparison of an edge")
    def attr(self, eng, st, a):
        return eng.guarded(st, self.has, lambda s: NodeO(self.t, a), "AttributeError") if a in ("u", "v") else bad_attr(a)


def bad_attr(a):
    raise Unsupported(f"field {a} of an edge")


def engine(ctx, fn):
    eng = TraceEngine(ctx, fn.key)
    eng.sv_str = True

    class Ws:
        def apply(self, e, s, b):
            return [(s, ObjV("workspace", "Workspace", {"experiments": Exps()}))]

    class Err:
        def apply(self, e, s, b):
            s = s.copy()
            event(s, "error")
            return [(s, None)]

    class Vers:
        def apply(self, e, s, b):
            return [(s, Versions(term(b.get("experiment_name"))))]

    class Load:
        def apply(self, e, s, b):
            v = b.get("version_number")
            if v is None or isinstance(v, SV):
                raise Mismatch("version")
            v = v if isz(v) else z3.IntVal(v)
            n = term(b.get("experiment_name"))
            return e.guarded(s, has_version(n, v), lambda s2: SV(stored(n, v)), "FileNotFoundError")

    class Latest:
        def apply(self, e, s, b):
            n = term(b.get("experiment_name"))
            return e.guarded(s, And(is_exp(n), any_version(n)), lambda s2: SV(latest(n)), "ValueError")

    class Des:
        def apply(self, e, s, b):
            r = b.get("result")
            if not isinstance(r, SV):
                raise Mismatch("result read")
            return [(s, ResO(r.t))]

    class Show:
        def apply(self, e, s, b):
            x, r = b.get("edge"), b.get("reference_edge")
            if not all(isinstance(q, (EdgeO, Cell)) for q in (x, r)):
                raise Mismatch("edge shown")
            return [(s, StrO(shown(x.t, r.t)))]
    for d, c in (("causy.workspaces.cli._current_workspace", Ws()), ("causy.workspaces.cli.show_error", Err()), ("causy.workspaces.cli._load_experiment_versions", Vers()),
                 ("causy.workspaces.cli._load_experiment_result", Load()), ("causy.workspaces.cli._load_latest_experiment_result", Latest()),
                 ("causy.serialization.deserialize_result", Des()), ("causy.workspaces.cli._edge_representation", Show())):
        eng.contracts[need(ctx, d)] = c

    def fstring(e, s, parts):
        if len(parts) == 3 and parts[1] == "_" and isinstance(parts[0], StrO) and (isz(parts[2]) and parts[2].sort() == I):
            return StrO(label_v(parts[0].t, parts[2]))
        if len(parts) == 2 and isinstance(parts[0], StrO) and parts[1] == "_latest":
            return StrO(label_l(parts[0].t))
        if len(parts) == 3 and parts[1] == " - " and all(isinstance(p, StrO) for p in (parts[0], parts[2])):
            return StrO(row_label(parts[0].t, parts[2].t))
        return StrV()
    eng.fstring = fstring

    def join(e, s, sep, args):
        if sep == "_" and len(args) == 1 and isinstance(args[0], Parts) and args[0].front:
            return [(s, Name(init_part(args[0].t)))]
        raise Unsupported("str.join")
    eng.join_hook = join

    def to_int(e, s, a, k):
        if len(a) == 1 and isinstance(a[0], StrO):
            return e.guarded(s, is_num_(a[0].t), lambda s2: num_of(a[0].t), "ValueError")
        raise Unsupported("int()")
    eng.externals["builtins.int"] = to_int

    def srt(e, s, a, k):
        c = s.store[a[0].oid] if len(a) == 1 and isinstance(a[0], CRef) else a[0]
        xs = [g.elem for g in c.segs] if isinstance(c, Cont) and all(not g.bvs and g.guard is True for g in c.segs) else list(c) if isinstance(c, tuple) else []
        if k or len(xs) != 2 or not all(isinstance(x, StrO) for x in xs):
            raise Unsupported("sorted()")
        x, y = xs
        return [(s, (StrO(z3.If(le(x.t, y.t), x.t, y.t)), StrO(z3.If(le(x.t, y.t), y.t, x.t))))]
    eng.externals["builtins.sorted"] = srt
    return eng


def cut(fn):
    """(A, B, C): statements before, at and after the loop that enters the edges"""
    body = fn.node.body
    for k, x in enumerate(body):
        if isinstance(x, ast.For) and isinstance(x.iter, ast.Name) and any(isinstance(y, ast.For) for y in x.body) and not x.orelse:
            return body[:k], x, body[k + 1:]
    raise Unsupported("the loop that enters the edges was not found")


def names_of(nodes, ctx):
    return {n.id for x in nodes for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ctx)}


def part(fn, name, stmts, params, results):
    """a piece of the function as a function of its own"""
    node = ast.FunctionDef(name=fn.node.name, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=p) for p in params], kwonlyargs=[], kw_defaults=[], defaults=[]),
                           body=list(stmts) + [ast.Return(value=ast.Tuple(elts=[ast.Name(id=r, ctx=ast.Load()) for r in results], ctx=ast.Load()))], decorator_list=[])
    ast.copy_location(node, fn.node)
    ast.fix_missing_locations(node)
    f = copy.copy(fn)
    f.node, f.is_gen = node, False
    return f


def cuts(fn):
    a, b, c = cut(fn)
    params = [x.arg for x in fn.node.args.args]
    made = names_of(a, ast.Store)
    live = sorted(((names_of([b], ast.Load) | names_of(c, ast.Load)) & (made | set(params))) - names_of([b] + c, ast.Store))
    return a, b, c, params, live


K = z3.Const("k", I)
name_k = lambda k: seq_at(NAMES, k)


def base(st):
    x, y, i, n, m, q = z3.Const("x", Obj), z3.Const("y", Obj), z3.Const("i", I), z3.Const("n", Obj), z3.Const("m", Obj), z3.Const("q", I)
    st.pc += [seq_len(NAMES) >= 0, z3.ForAll([x, y], z3.Or(le(x, y), le(y, x))), z3.ForAll([x, y], z3.Implies(z3.And(le(x, y), le(y, x)), x == y)),
              z3.ForAll([x, i], z3.Implies(has_version(x, i), any_version(x)))]


# labels and results of the names, as proved in A
LAB, RES = z3.Function("label", I, Obj), z3.Function("result", I, Obj)


class NameList(TList):
    def iter_segs(self, eng, st):
        i = z3.Const(fresh_name("i"), I)
        return [Seg([i], z3.And(i >= 0, i < seq_len(self.t)), Name(seq_at(self.t, i)))]
    def subst(self, pairs):
        return self


def rec_fields(x, st):
    if isinstance(x, CRef):
        x = st.store[x.oid]
    if isinstance(x, Cont) and x.kind == "dict" and all(not g.bvs and g.guard is True and isinstance(g.elem[0], str) for g in x.segs):
        return {g.elem[0]: g.elem[1] for g in x.segs}
    return None


def per_name(v, st):
    """[(position, guard, element)] of a list with one element per name"""
    c = st.store[v.oid] if isinstance(v, CRef) else v
    out = []
    for g in c.segs:
        if isinstance(g.elem, BlockV):
            for pc, sk, gs in g.elem.paths:
                for h in gs:
                    if h.bvs or sk:
                        raise Mismatch("list of results")
                    out.append((g.bvs[0], And(g.guard, *pc, h.guard), h.elem))
        elif len(g.bvs) == 1 and g.bvs[0].sort() == I:
            out.append((g.bvs[0], g.guard, g.elem))
        else:
            raise Mismatch("list of results")
    return out


def kind_of_live(v, st):
    c = st.store[v.oid] if isinstance(v, CRef) else v
    if isinstance(c, Cont) and c.kind == "dict" and not c.segs:
        return "map"
    if isinstance(c, Cont) and c.kind == "list" and c.segs:
        xs = per_name(v, st)
        if all(rec_fields(x, st) is not None for _, _, x in xs):
            return "records"
        if all(isinstance(x, StrO) for _, _, x in xs):
            return "labels"
    if isinstance(v, ObjV) and v.name == "workspace":
        return "workspace"
    return "other"


def run_a(ctx):
    fn = ctx.prog.mod(CLI).funcs["diff"]
    a, b, c, params, live = cuts(fn)
    eng = engine(ctx, fn)
    st = start(ctx)
    base(st)
    f = part(fn, "diff", a, params, live)
    only = z3.Const("only_differences", B)
    return fn, eng, live, only, eng.call_fn(FuncV(f), [NameList(NAMES), only], {}, st), st, (a, b, c)


def a_unit():
    def gen(ctx):
        fn, eng, live, only, paths, st0, _ = run_a(ctx)
        m = Match(eng, "diff (names)")
        inr = lambda k: z3.And(k >= 0, k < seq_len(NAMES))
        ok = And(seq_len(NAMES) >= 2, ForAll([K], Implies(inr(K), known_name(name_k(K)))))
        x, y, p, q, k2 = z3.Const("x", Obj), z3.Const("y", Obj), z3.Const("p", I), z3.Const("q", I), z3.Const("k2", I)
        strings = [z3.ForAll([x, y, p, q], z3.Implies(label_v(x, p) == label_v(y, q), z3.And(x == y, p == q))), z3.ForAll([x, y], z3.Implies(label_l(x) == label_l(y), x == y)),
                   z3.ForAll([x, y, p], label_v(x, p) != label_l(y))]
        m.ob("a label names one result only", st0.pc + strings, ForAll([K, k2], Implies(label_for(name_k(K)) == label_for(name_k(k2)), result_for(name_k(K)) == result_for(name_k(k2)))))
        for s, v in paths:
            kinds = [g.elem.fields["kind"] for g in flat(s.store[TR].segs)]
            if set(kinds) - {"error"}:
                raise Mismatch("trace")
            if isinstance(v, Raised) or v is None:
                m.ob("refused only if fewer than two names are given or one is not stored", s.pc, Not(ok))
                continue
            m.ob("not refused only if every name is stored", s.pc, ok)
            kinds = {n: kind_of_live(x, s) for n, x in zip(live, v)}
            for n, x in zip(live, v):
                if kinds[n] not in ("records", "labels"):
                    continue
                xs = per_name(x, s)
                m.ob(f"one entry per name", s.pc, ForAll([K], Implies(inr(K), Or(*[z3.substitute(tob(g), (i, K)) for i, g, _ in xs]))))
                for p in range(len(xs)):
                    for q in range(p):
                        m.ob("not two entries for a name", s.pc, ForAll([K], Not(And(*[z3.substitute(tob(g), (i, K)) for i, g, _ in (xs[p], xs[q])]))))
                for i, g, x in xs:
                    if kinds[n] == "labels":
                        m.ob("loop invariant: the column is labelled by experiment and version", s.pc, ForAll([i], Implies(g, And(inr(i), x.t == label_for(name_k(i))))))
                        continue
                    r = rec_fields(x, s)
                    if not isinstance(r.get("result"), ResO) or not isinstance(r.get("version"), StrO):
                        raise Mismatch("record")
                    m.ob("the result compared is the one asked for", s.pc, ForAll([i], Implies(g, And(inr(i), r["result"].t == result_for(name_k(i))))))
                    m.ob("loop invariant: the result is labelled by experiment and version", s.pc, ForAll([i], Implies(g, r["version"].t == label_for(name_k(i)))))
        yield from m.out
        ctx.close(eng)
    return Unit("diff: names", gen, keys=[f"{CLI}:diff"])


# ---------------------------------------------------------------- B: the map pair of names -> label -> edge
AB, AO = z3.ArraySort(Obj, B), z3.ArraySort(Obj, Obj)
AB2, AO2 = z3.ArraySort(Obj, AB), z3.ArraySort(Obj, AO)
AB3, AO3 = z3.ArraySort(Obj, AB2), z3.ArraySort(Obj, AO2)
NONE = z3.K(Obj, z3.BoolVal(False))
NONE2 = z3.K(Obj, NONE)


class NMap:
    """the nested dictionary: level 0 first name, 1 second name, 2 label; contents in the heap"""
    closed = True
    def __init__(self, path=()):
        self.path = path
    def subst(self, pairs):
        return NMap(tuple(z3.substitute(p, *pairs) for p in self.path))
    def dom(self, st):
        a = st.heap[f"D{len(self.path)}"]
        for p in self.path:
            a = z3.Select(a, p)
        return a
    def contains(self, eng, st, k):
        return z3.Select(self.dom(st), term(k))
    def is_none(self, eng, st):
        return False
    def item(self, eng, st, k):
        return eng.guarded(st, self.contains(eng, st, k), lambda s: self.at(s, term(k)), "KeyError")
    def at(self, st, k):
        if len(self.path) == 2:
            return EdgeO(z3.Select(z3.Select(z3.Select(st.heap["V"], self.path[0]), self.path[1]), k))
        return NMap(self.path + (k,))
    def set_item(self, eng, st, k, v):
        s, k, p = st.copy(), term(k), self.path
        if len(p) == 2:
            if not isinstance(v, EdgeO):
                raise Mismatch("entry of the map")
            for h, x in (("D2", z3.BoolVal(True)), ("V", v.t)):
                a = s.heap[h]
                b = z3.Select(a, p[0])
                s.heap[h] = z3.Store(a, p[0], z3.Store(b, p[1], z3.Store(z3.Select(b, p[1]), k, x)))
            return [(s, NORMAL)]
        c = s.store[v.oid] if isinstance(v, CRef) else v
        if not isinstance(c, Cont) or c.kind != "dict" or c.segs:
            raise Mismatch("entry of the map")
        if not p:
            s.heap["D0"] = z3.Store(s.heap["D0"], k, True)
            s.heap["D1"] = z3.Store(s.heap["D1"], k, NONE)
            s.heap["D2"] = z3.Store(s.heap["D2"], k, NONE2)
        else:
            s.heap["D1"] = z3.Store(s.heap["D1"], p[0], z3.Store(z3.Select(s.heap["D1"], p[0]), k, True))
            s.heap["D2"] = z3.Store(s.heap["D2"], p[0], z3.Store(z3.Select(s.heap["D2"], p[0]), k, NONE))
        return [(s, NORMAL)]
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name == "setdefault" and len(args) == 2 and not kws:
            a, b = eng.split(st, self.contains(eng, st, args[0]))
            out = [(a, self.at(a, term(args[0])))] if a is not None else []
            if b is not None:
                out += [(s, self.at(s, term(args[0]))) for s, _ in self.set_item(eng, b, args[0], args[1])]
            return out
        raise Unsupported(f"dict.{name}")


def x2(h, u, v, w):
    return And(z3.Select(h["D0"], u), z3.Select(z3.Select(h["D1"], u), v), z3.Select(z3.Select(z3.Select(h["D2"], u), v), w))


def val(h, u, v, w):
    return z3.Select(z3.Select(z3.Select(h["V"], u), v), w)


def spec_live(name, kind, st):
    k = z3.Const(fresh_name("k"), I)
    g = z3.And(k >= 0, k < seq_len(NAMES))
    if kind == "labels":
        return st.new(Cont("list", [Seg([k], g, StrO(LAB(k)))]))
    if kind == "records":
        rec = Cont("dict", [Seg((), True, ("result", ResO(RES(k)))), Seg((), True, ("experiment", SV(z3.Function("experiment_compared", I, Obj)(k)))), Seg((), True, ("version", StrO(LAB(k))))])
        return st.new(Cont("list", [Seg([k], g, rec)]))
    raise Unsupported(f"value of {name}")


def live_kinds(ctx):
    fn, eng, live, only, paths, st0, parts = run_a(ctx)
    got = None
    for s, v in paths:
        if isinstance(v, tuple):
            k = {n: kind_of_live(x, s) for n, x in zip(live, v)}
            if got is not None and k != got:
                raise Mismatch("state before the loop")
            got = k
    if got is None or sorted(x for x in got.values() if x in ("map", "records")) != ["map", "records"]:
        raise Unsupported("state before the loop that enters the edges")
    return fn, live, got, parts


def pair(e):
    a, b = uname(e), vname(e)
    return z3.If(le(a, b), a, b), z3.If(le(a, b), b, a)


P_ = z3.Function("processed", I, I, B)
WI, WJ = z3.Function("witness_i", Obj, Obj, Obj, I), z3.Function("witness_j", Obj, Obj, Obj, I)
WW, WV = z3.Function("witness_label", Obj, Obj, Obj), z3.Function("witness_second", Obj, Obj)


def E_(i, j):
    return edge_at(RES(i), j)


def rng_(i, j):
    return z3.And(i >= 0, i < seq_len(NAMES), j >= 0, j < n_edges(RES(i)))


def is_entry(h, u, v, w, i, j, done):
    lo, hi = pair(E_(i, j))
    return And(done, rng_(i, j), lo == u, hi == v, LAB(i) == w, val(h, u, v, w) == E_(i, j))


U_, V_, W_ = z3.Const("u", Obj), z3.Const("v", Obj), z3.Const("w", Obj)
I_, J_ = z3.Const("i", I), z3.Const("j", I)


def b_unit():
    def gen(ctx):
        fn, live, kinds, (a, b, c) = live_kinds(ctx)
        eng = engine(ctx, fn)
        st = start(ctx)
        base(st)
        h0 = {"D0": z3.Const("D0", AB), "D1": z3.Const("D1", AB2), "D2": z3.Const("D2", AB3), "V": z3.Const("V", AO3)}
        st.heap.update(h0)
        lo, hi = pair(E_(I_, J_))
        st.pc += [z3.ForAll([I_, J_], z3.Implies(z3.And(P_(I_, J_), rng_(I_, J_)), tob(x2(h0, lo, hi, LAB(I_))))),
                  z3.ForAll([U_, V_, W_], z3.Implies(tob(x2(h0, U_, V_, W_)), tob(is_entry(h0, U_, V_, W_, WI(U_, V_, W_), WJ(U_, V_, W_), P_(WI(U_, V_, W_), WJ(U_, V_, W_)))))),
                  z3.ForAll([U_, V_], z3.Implies(z3.And(z3.Select(h0["D0"], U_), z3.Select(z3.Select(h0["D1"], U_), V_)), tob(x2(h0, U_, V_, WW(U_, V_))))),
                  z3.ForAll([U_], z3.Implies(z3.Select(h0["D0"], U_), z3.Select(z3.Select(h0["D1"], U_), WV(U_))))]
        got = []

        def hook(e, s, seg, body, names, node):
            """an arbitrary iteration of each of the two loops"""
            seg = rename_seg(seg)
            s = s.copy()
            s.pc.append(tob(seg.guard))
            for n in names:
                if n in s.env:
                    s.env[n] = Poison(n)
            got.append(seg.bvs[0])
            return body(s, seg.elem)
        eng.loop_hook = hook
        args = {}
        need_ = [n for n in live if n in names_of([b], ast.Load)]
        for n in need_:
            args[n] = NMap() if kinds[n] == "map" else spec_live(n, kinds[n], st)
        f = part(fn, "diff", [b], need_, [])
        m = Match(eng, "diff (edges)")
        paths = eng.call_fn(FuncV(f), [args[n] for n in need_], {}, st)
        if len({x.get_id() for x in got}) < 2:
            raise Unsupported("loops over results and edges")
        i0, j0 = got[0], [x for x in got if not x.eq(got[0])][0]
        if len({x.get_id() for x in got}) != 2:
            raise Unsupported("loops over results and edges")
        for s, v in paths:
            if isinstance(v, Raised):
                m.ob("never raises", s.pc, False)
                continue
            h = s.heap
            done = lambda i, j: Or(P_(i, j), And(i == i0, j == j0))
            lo0, hi0 = pair(E_(i0, j0))
            m.ob("each edge is entered under its two names and its label", s.pc, x2(h, lo0, hi0, LAB(i0)))
            m.ob("earlier entries stay", s.pc, ForAll([I_, J_], Implies(And(P_(I_, J_), rng_(I_, J_)), x2(h, *pair(E_(I_, J_)), LAB(I_)))))
            wi, wj = WI(U_, V_, W_), WJ(U_, V_, W_)
            m.ob("every entry is an edge of the result with that label and these names", s.pc, ForAll([U_, V_, W_], Implies(x2(h, U_, V_, W_),
                 Or(is_entry(h, U_, V_, W_, i0, j0, True), is_entry(h, U_, V_, W_, wi, wj, P_(wi, wj))))))
            ww, wv = WW(U_, V_), WV(U_)
            m.ob("no pair without an entry", s.pc, ForAll([U_, V_], Implies(And(z3.Select(h["D0"], U_), z3.Select(z3.Select(h["D1"], U_), V_)), Or(x2(h, U_, V_, ww), x2(h, U_, V_, LAB(i0))))))
        yield from m.out
        ctx.close(eng)
    return Unit("diff: edges", gen, keys=[])


# ---------------------------------------------------------------- C: the table
X1, X2 = z3.Function("pair_entered", Obj, Obj, B), z3.Function("entered", Obj, Obj, Obj, B)
X0 = z3.Function("first_entered", Obj, B)
VAL = z3.Function("entry", Obj, Obj, Obj, Obj)


class DMap:
    """the map after the loop; what is known of it is the invariant of B"""
    closed = True
    def __init__(self, path=()):
        self.path = path
    def subst(self, pairs):
        return DMap(tuple(z3.substitute(p, *pairs) for p in self.path))
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def has(self, k):
        return (X0, X1, X2)[len(self.path)](*self.path, k)
    def at(self, k):
        return EdgeO(VAL(*self.path, k)) if len(self.path) == 2 else DMap(self.path + (k,))
    def iter_segs(self, eng, st):
        k = z3.Const(fresh_name("key"), Obj)
        return [Seg([k], self.has(k), StrO(k))]
    def contains(self, eng, st, k):
        return self.has(term(k))
    def item(self, eng, st, k):
        return eng.guarded(st, self.has(term(k)), lambda s: self.at(term(k)), "KeyError")
    def is_none(self, eng, st):
        return False
    def method(self, eng, st, name, args, kws):
        if args or kws:
            if name == "get" and len(self.path) == 2 and not kws and (len(args) == 1 or args[1] is None):
                return [(st, Cell(self.has(term(args[0])), VAL(*self.path, term(args[0]))))]
            raise Unsupported(f"dict.{name}")
        if name == "keys":
            return [(st, self)]
        if name in ("items", "values"):
            s = st.copy()
            g, = self.iter_segs(eng, s)
            v = self.at(g.bvs[0])
            return [(s, s.new(Cont("list", [Seg(g.bvs, g.guard, (g.elem, v) if name == "items" else v)])))]
        raise Unsupported(f"dict.{name}")


L0 = z3.Const("label?", Obj)


class RowV:
    """a dictionary label -> edge or None with all labels as keys: has and edge are terms over L0"""
    def __init__(self, has, edge):
        self.has, self.edge = has, edge
    def subst(self, pairs):
        return RowV(subst_val(self.has, pairs), z3.substitute(self.edge, *pairs))
    def cell(self, l):
        return Cell(subst_val(self.has, [(L0, l)]), z3.substitute(self.edge, (L0, l)))
    def item(self, eng, st, k):
        t = term(k)
        i = z3.Const(fresh_name("i"), I)
        return eng.guarded(st, Exists([i], And(i >= 0, i < seq_len(NAMES), LAB(i) == t)), lambda s: self.cell(t), "KeyError")
    def set_item(self, eng, st, k, v):
        if isinstance(v, EdgeO):
            v = Cell(True, v.t)
        if not isinstance(v, Cell):
            raise Mismatch("entry of the row")
        s = st.copy()
        at = [n for n, x in s.env.items() if x is self]
        if len(at) != 1:
            raise Unsupported("alias of a row")
        s.env[at[0]] = Upd(self, term(k), v)
        return [(s, NORMAL)]
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name in ("values", "items") and not args and not kws:
            k = z3.Const(fresh_name("k"), I)
            s = st.copy()
            l = LAB(k)
            c = self.cell(l)
            return [(s, s.new(Cont("list", [Seg([k], z3.And(k >= 0, k < seq_len(NAMES)), c if name == "values" else (StrO(l), c))])))]
        raise Unsupported(f"dict.{name}")


class Upd:
    """a row after one assignment in an arbitrary iteration"""
    def __init__(self, row, k, v):
        self.row, self.k, self.v = row, k, v


def row_loop(eng, st, seg, body, names, node):
    """for key, edge in ...items(): row[key] = edge"""
    rows = [n for n, x in st.env.items() if isinstance(x, RowV)]
    if not rows or len(seg.bvs) != 1 or seg.bvs[0].sort() != Obj or node is None:
        return None
    if not any(isinstance(y, ast.Subscript) and isinstance(y.ctx, ast.Store) for x in node.body for y in ast.walk(x)):
        return None
    seg = rename_seg(seg)
    s = st.copy()
    s.pc.append(tob(seg.guard))
    n0 = len(s.pc)
    for n in names:
        if n in s.env:
            s.env[n] = Poison(n)
    paths = body(s, seg.elem)
    out = st.copy()
    new = {}
    for s2, o in paths:
        if o is not NORMAL and o[0] != "continue":
            raise Unsupported("exit from the loop that fills a row")
        if len(s2.store[TR].segs) != len(st.store[TR].segs) or s2.heap != st.heap:
            raise Unsupported("loop that fills a row")
        for n in rows:
            x = s2.env.get(n)
            if isinstance(x, Upd):
                if x.row is not st.env[n] or not x.k.eq(seg.bvs[0]):
                    raise Mismatch("entry of the row")
                new.setdefault(n, []).append((And(seg.guard, *s2.pc[n0:]), x.v))
            elif x is not st.env[n]:
                raise Unsupported("loop that fills a row")
    for n, ws in new.items():
        r = st.env[n]
        has, edge = r.has, r.edge
        for g, c in ws:
            g, ch, ct = subst_val(g, [(seg.bvs[0], L0)]), subst_val(c.has, [(seg.bvs[0], L0)]), z3.substitute(c.t, (seg.bvs[0], L0))
            has, edge = tob(Or(And(g, ch), And(Not(g), has))), z3.If(tob(g), ct, edge)
        out.env[n] = RowV(has, edge)
    for n in names:
        out.env[n] = Poison(n)
    return [(out, NORMAL)]


def c_engine(ctx, fn):
    eng = engine(ctx, fn)
    eng.loop_hook = row_loop
    old = eng.comp

    def comp(e, st, kind):
        if kind != "dict":
            return old(e, st, kind)
        out = []
        for s, v in old(e, st, kind):
            c = s.store[v.oid] if isinstance(v, CRef) else None
            if c is None or len(c.segs) != 1 or len(c.segs[0].bvs) != 1:
                raise Unsupported("dictionary")
            g = c.segs[0]
            i = g.bvs[0]
            if i.sort() != I or not isinstance(g.elem[0], StrO) or not g.elem[0].t.eq(LAB(i)) or not z3.simplify(tob(g.guard)).eq(z3.simplify(z3.And(i >= 0, i < seq_len(NAMES)))):
                raise Mismatch("keys of the row")
            x = g.elem[1]
            if x is None:
                x = Cell(False, z3.Const("no_edge", Obj))
            if not isinstance(x, Cell):
                raise Mismatch("values of the row")
            # the value has to be a function of the label
            has, edge = abstract(x.has, LAB(i), i), abstract(x.t, LAB(i), i)
            out.append((s, RowV(has, edge)))
        return out
    eng.comp = comp

    class TableO:
        closed = True
        def attr(self, e, s, a):
            return [(s, MethV(self, a))]
        def method(self, e, s, name, a, k):
            s = s.copy()
            if name == "add_column":
                if not a or not isinstance(a[0], (str, StrO)):
                    raise Mismatch("column")
                event(s, "column", text=a[0])
            elif name == "add_row":
                event(s, "row", cells=[e.keep(x.v, s) if isinstance(x, StarV) else x for x in a], star=[isinstance(x, StarV) for x in a], style=k.get("style"))
            else:
                raise Unsupported(f"table.{name}")
            return [(s, None)]

    class ConsoleO:
        closed = True
        def attr(self, e, s, a):
            return [(s, MethV(self, a))]
        def method(self, e, s, name, a, k):
            if name != "print" or len(a) != 1 or not isinstance(a[0], TableO):
                raise Unsupported(f"console.{name}")
            s = s.copy()
            event(s, "print")
            return [(s, None)]
    eng.externals["rich.table.Table"] = lambda e, s, a, k: [(s, TableO())]
    eng.externals["rich.console.Console"] = lambda e, s, a, k: [(s, ConsoleO())]
    return eng


def abstract(x, l, i):
    if not isz(x):
        return x
    y = z3.substitute(x, (l, L0))
    if occurs(i, y):
        raise Mismatch("values of the row")
    return y


def c_state(ctx, st):
    base(st)
    x, y, w = z3.Const("x", Obj), z3.Const("y", Obj), z3.Const("z", Obj)
    lo, hi = pair(E_(I_, J_))
    wi, wj = WI(U_, V_, W_), WJ(U_, V_, W_)
    l2, h2 = pair(E_(wi, wj))
    k2 = z3.Const("k2", I)
    st.pc += [seq_len(NAMES) >= 2,
              z3.ForAll([I_, J_], z3.Implies(rng_(I_, J_), X2(lo, hi, LAB(I_)))),
              z3.ForAll([U_, V_, W_], z3.Implies(X2(U_, V_, W_), z3.And(X0(U_), X1(U_, V_), rng_(wi, wj), l2 == U_, h2 == V_, LAB(wi) == W_, VAL(U_, V_, W_) == E_(wi, wj)))),
              z3.ForAll([U_, V_], z3.Implies(X1(U_, V_), z3.And(X0(U_), X2(U_, V_, WW(U_, V_))))),
              # names of experiments and versions determine the label and the other way round
              z3.ForAll([I_, k2], z3.Implies(z3.And(I_ >= 0, I_ < seq_len(NAMES), k2 >= 0, k2 < seq_len(NAMES), LAB(I_) == LAB(k2)), RES(I_) == RES(k2))),
              # of the positions with an entry there is a first one
              z3.ForAll([U_, V_, I_], z3.Implies(z3.And(I_ >= 0, I_ < seq_len(NAMES), X2(U_, V_, LAB(I_))), z3.And(FIRST(U_, V_) >= 0, FIRST(U_, V_) <= I_, X2(U_, V_, LAB(FIRST(U_, V_)))))),
              z3.ForAll([x], edge_eq(x, x)), z3.ForAll([x, y], edge_eq(x, y) == edge_eq(y, x)), z3.ForAll([x, y, w], z3.Implies(z3.And(edge_eq(x, y), edge_eq(y, w)), edge_eq(x, w)))]


FIRST = z3.Function("first_position", Obj, Obj, I)


def witnesses(bvs):
    """candidates for the positions a row depends on: the first result with an entry, the last and the first position"""
    if len(bvs) > 3 or any(b.sort() != I for b in bvs):
        raise Mismatch("rows")
    out = [[]]
    for b in bvs:
        out = [w + [(b, x)] for w in out for x in (FIRST(U_, V_), seq_len(NAMES) - 1, z3.IntVal(0))]
    return out


def split_cells(cells, st):
    """label, [(position, condition, text)]"""
    segs = []
    for c in cells:
        c = st.store[c.oid] if isinstance(c, CRef) else c
        if isinstance(c, Cont):
            segs += c.segs
        else:
            segs.append(Seg((), True, c))
    if len(segs) != 2 or segs[0].bvs or segs[0].guard is not True or len(segs[1].bvs) != 1 or segs[1].bvs[0].sort() != I:
        raise Mismatch("cells of the row")
    g = segs[1]
    k = g.bvs[0]
    out = []
    if isinstance(g.elem, BlockV):
        b = g.elem
        for pc, sk, gs in b.paths:
            if sk or len(gs) != 1 or gs[0].bvs:
                raise Mismatch("cells of the row")
            out.append((b.bvs[0], And(b.guard, *pc, gs[0].guard), gs[0].elem))
    else:
        out.append((k, g.guard, g.elem))
    return segs[0].elem, out


def c_unit():
    def gen(ctx):
        fn, live, kinds, (a, b, c) = live_kinds(ctx)
        eng = c_engine(ctx, fn)
        st = start(ctx)
        c_state(ctx, st)
        only = z3.Const("only_differences", B)
        need_ = [n for n in live if n in names_of(c, ast.Load)]
        params = [x.arg for x in fn.node.args.args]
        args = {}
        for n in need_:
            if n == params[1]:
                args[n] = only
            elif n == params[0]:
                args[n] = NameList(NAMES)
            else:
                args[n] = DMap() if kinds[n] == "map" else spec_live(n, kinds[n], st)
        f = part(fn, "diff", c, need_, [])
        m = Match(eng, "diff (table)")
        inr = lambda k: z3.And(k >= 0, k < seq_len(NAMES))
        has = lambda u, v, k: X2(u, v, LAB(k))
        ent = lambda u, v, k: VAL(u, v, LAB(k))
        m2 = z3.Const("k2", I)
        agree = lambda u, v: ForAll([K], Implies(inr(K), And(has(u, v, K), ForAll([m2], Implies(And(inr(m2), has(u, v, m2)), edge_eq(ent(u, v, K), ent(u, v, m2)))))))
        m.ob("the entry under a label is an edge of that result between the two variables", st.pc, ForAll([U_, V_, K], Implies(And(inr(K), has(U_, V_, K)),
             Exists([J_], And(rng_(K, J_), pair(E_(K, J_))[0] == U_, pair(E_(K, J_))[1] == V_, E_(K, J_) == ent(U_, V_, K))))))
        m.ob("there is an entry if the result connects the two variables", st.pc, ForAll([U_, V_, K, J_], Implies(And(rng_(K, J_), pair(E_(K, J_))[0] == U_, pair(E_(K, J_))[1] == V_), And(X1(U_, V_), has(U_, V_, K)))))
        for s, v in eng.call_fn(FuncV(f), [args[n] for n in need_], {}, st):
            if isinstance(v, Raised):
                m.ob("never raises", s.pc, False)
                continue
            segs = flat(s.store[TR].segs)
            kd = [g.elem.fields["kind"] for g in segs]
            if set(kd) - {"column", "row", "print"}:
                raise Mismatch("trace")
            if kd.count("print") != 1 or kd[-1] != "print" or segs[-1].bvs or segs[-1].guard is not True:
                raise Mismatch("printing the table")
            cols = [g for g in segs if g.elem.fields["kind"] == "column"]
            if [bool(g.bvs) for g in cols] != [False, True] or any(k == "column" for k in kd[2:]) or len(cols[1].bvs) != 1:
                raise Mismatch("columns")
            i = cols[1].bvs[0]
            m.ob("one column per result", s.pc, ForAll([i], And(Iff(cols[1].guard, inr(i)), Implies(cols[1].guard, cols[1].elem.fields["text"].t == LAB(i)))))
            rows = [g for g in segs if g.elem.fields["kind"] == "row"]
            info = []
            for g in rows:
                ks = [b for b in g.bvs if b.sort() == Obj]
                if len(ks) != 2:
                    raise Mismatch("rows")
                u, v = ks
                bv = list(g.bvs)
                info.append((u, v, bv, g.guard))
                under = lambda goal: ForAll(bv, Implies(g.guard, goal))
                f = g.elem.fields
                m.ob("a row is shown only for pairs that are connected in a result", s.pc, under(X1(u, v)))
                m.ob("rows that agree are left out if only differences are asked for", s.pc, under(Not(And(only, agree(u, v)))))
                if f["style"] not in ("green", "red"):
                    raise Mismatch("style")
                m.ob("a row is marked equal exactly if all results agree", s.pc, under(agree(u, v) if f["style"] == "green" else Not(agree(u, v))))
                text, cells = split_cells(f["cells"], s)
                if not isinstance(text, StrO) or text.t.decl().name() != "row_label":
                    raise Mismatch("label of the row")
                a0, a1 = text.t.children()
                m.ob("every result has its cell", s.pc, ForAll(bv + [K], Implies(And(g.guard, inr(K)), Or(*[subst_val(c, [(k, K)]) for k, c, _ in cells]))))
                for n, (k, c, x) in enumerate(cells):
                    at = lambda goal: ForAll(bv + [k], Implies(And(g.guard, c), goal))
                    m.ob("no cell too many", s.pc, at(inr(k)))
                    for k2, c2, _ in cells[:n]:
                        m.ob("no cell too many", s.pc, at(Not(subst_val(c2, [(k2, k)]))))
                    if x == "":
                        m.ob("a cell is empty only if the result does not connect the pair", s.pc, at(Not(has(u, v, k))))
                        continue
                    if not isinstance(x, StrO) or x.t.decl().name() != "shown_as":
                        raise Mismatch("cell")
                    e, r = x.t.children()
                    m.ob("a cell shows the edge of its result", s.pc, at(And(has(u, v, k), e == ent(u, v, k))))
                    m.ob("as seen from the label of the row", s.pc, at(And(a0 == uname(r), a1 == vname(r), Exists([m2], And(inr(m2), has(u, v, m2), r == ent(u, v, m2))))))
            m.ob("every pair that is connected in a result has its row", s.pc, ForAll([U_, V_], Implies(And(X1(U_, V_), Not(And(only, agree(U_, V_)))),
                 Or(*[subst_val(g, [(u, U_), (v, V_)] + w) for u, v, bv, g in info for w in witnesses([b for b in bv if b.sort() != Obj])]))))
            for n, (u, v, bv, g) in enumerate(info):
                for u2, v2, bv2, g2 in info[:n + 1]:
                    new = [(b, z3.Const(fresh_name("other"), b.sort())) for b in bv2 if b.sort() != Obj]
                    pr = new + [(u2, u), (v2, v)]
                    m.ob("not two rows for a pair", s.pc, ForAll(bv + [y for _, y in new], Implies(And(g, subst_val(g2, pr)), And(*[x == y for (x, y) in new]) if g2 is g else False)))
        yield from m.out
        ctx.close(eng)
    return Unit("diff: table", gen, keys=[])


def units():
    return [a_unit(), b_unit(), c_unit()]
