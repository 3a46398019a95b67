"""Contracts of the generators (P09).

What a generator yields is a family of segments { element | guard } over bound variables.  A combination is a set of node
ids (an array); itertools.combinations(xs, r) yields every subset of xs with r elements exactly once."""
import z3
from .base import *
from .interp import *
from .graphspec import View
from .verify import Obl, Unit
from .gcontracts import QUERIES, heap_same
from .trace import SV, Mismatch, skolem

GEN = "causy/generators.py"
SetS = z3.ArraySort(Id, B)
card = z3.Function("card", SetS, I)
EMPTY = z3.K(Id, z3.BoolVal(False))
seq_at, seq_len = z3.Function("inner_at", Obj, I, Obj), z3.Function("inner_len", Obj, I)


class CombV:
    """a combination: each element of the set c once, in some order"""
    def __init__(self, c):
        self.c = c
    def subst(self, pairs):
        return CombV(z3.substitute(self.c, *pairs))
    def iter_segs(self, eng, st):
        x = z3.Const(fresh_name("x"), Id)
        return [Seg([x], z3.Select(self.c, x), x)]
    def contains(self, eng, st, x):
        return z3.Select(self.c, eng.as_id(x))
    def length(self, eng, st):
        return [(st, card(self.c))]
    def is_none(self, eng, st):
        return False
    def truth(self, eng, st):
        return self.c != EMPTY


class SliceV:
    """list[lo:hi]"""
    def __init__(self, segs, lo, hi):
        self.segs, self.lo, self.hi = segs, lo, hi
    def subst(self, pairs):
        return SliceV(self.segs, subst_val(self.lo, pairs), subst_val(self.hi, pairs))


def distinct(segs):
    """conditions under which no value occurs twice in the collection (elements are node ids)"""
    out = []
    for i, a in enumerate(segs):
        for j, b in enumerate(segs[:i + 1]):
            x, y = rename_seg(a), rename_seg(b)
            same = And(x.guard, y.guard, x.elem == y.elem)
            out.append(ForAll(x.bvs + y.bvs, Implies(same, And(*[p == q for p, q in zip(x.bvs, y.bvs)]))) if i == j else ForAll(x.bvs + y.bvs, Not(same)))
    return out


def combos(eng, st, args, kws):
    if len(args) != 2 or kws:
        raise Unsupported("itertools.combinations")
    coll, r = args
    segs = eng.segs(coll, st)
    if not all(isz(g.elem) and g.elem.sort() == Id for g in segs) or not is_num(r):
        raise Unsupported("combinations of other values")
    is_set = isinstance(coll, NodesD) or isinstance(coll, CRef) and st.store[coll.oid].kind == "set"
    if not is_set:
        for d in distinct(segs):
            eng.obls.append(Obl("loop body: combinations of distinct values", list(st.pc), d))
    out = []
    neg, ok = eng.split(st, r < 0 if isz(r) else bool(r < 0))
    if neg is not None:
        out.append((neg, Raised("ValueError")))
    if ok is not None:
        s = ok.copy()
        c, x = z3.Const(fresh_name("c"), SetS), z3.Const(fresh_name("x"), Id)
        sub = z3.ForAll([x], z3.Implies(z3.Select(c, x), tob(eng.member(x, coll, s))))
        out.append((s, s.new(Cont("list", [Seg([c], And(sub, card(c) == r), CombV(c))]))))
    return out


def m_len(n):
    def h(eng, st, args, kws):
        v = args[0]
        if isinstance(v, NodesD):
            return [(st, n)]
        if isinstance(v, CRef) and any(g.bvs for g in st.store[v.oid].segs):
            eng.read(st.store[v.oid])
            t = z3.Const(f"length_{v.oid}_{len(st.store[v.oid].segs)}", I)
            s = st.copy()
            s.pc.append(t >= 0)
            eng.lens[t.get_id()] = (t, st.store[v.oid].segs)
            return [(s, t)]
        from .builtins_model import _len
        return _len(eng, st, args, kws)
    return h


def m_range(eng, st, args, kws):
    if len(args) == 3 and not (isinstance(args[2], int) and args[2] == 1):
        lo, hi, k = args
        if not all(is_num(x) for x in args):
            raise Unsupported("range")
        s = eng.assume(st, k > 0)
        if s is None or eng.assume(st, Not(k > 0)) is not None:
            raise Unsupported("range with any step")
        s = s.copy()
        q = z3.Const(fresh_name("q"), I)
        return [(s, s.new(Cont("list", [Seg([q], And(q >= 0, lo + q * k < hi), lo + q * k)])))]
    from .builtins_model import _range
    return _range(eng, st, args, kws)


def shuffle(eng, st, args, kws):
    """random.shuffle(list): a permutation; the model of a list of combinations has no order"""
    if len(args) != 1 or kws or not isinstance(args[0], CRef):
        raise Unsupported("random.shuffle")
    s = st.copy()
    eng.mutate(s, args[0])
    return [(s, None)]


def slice_hook(eng, st, v, ps):
    if not isinstance(v, CRef) or ps[2] is not None:
        raise Unsupported("slice")
    eng.read(st.store[v.oid])
    return [(st, SliceV(st.store[v.oid].segs, 0 if ps[0] is None else ps[0], ps[1]))]


def flatten(segs, level):
    """segments of the combinations; level: how many lists they are nested in"""
    if level == 0:
        return list(segs)
    out = []
    for g in segs:
        if isinstance(g.elem, (tuple, list)):
            inner = [Seg((), True, x) for x in g.elem]
        elif isinstance(g.elem, Cont) and g.elem.kind == "list":
            inner = g.elem.segs
        else:
            raise Mismatch(f"chunk {g.elem!r}")
        for h in inner:
            h = rename_seg(h)
            out.append(Seg(tuple(g.bvs) + tuple(h.bvs), And(g.guard, h.guard), h.elem))
    return flatten(out, level - 1)


def parts(elem, k):
    """the first k nodes and the set of the others"""
    if isinstance(elem, CombV):
        segs = None
        pre, rest = [], elem.c
    else:
        segs = [Seg((), True, x) for x in elem] if isinstance(elem, (tuple, list)) else list(elem.segs) if isinstance(elem, Cont) else None
        if segs is None:
            raise Mismatch(f"combination {elem!r}")
        pre = []
        while len(pre) < k and segs and not segs[0].bvs and segs[0].guard is True:
            pre.append(segs.pop(0).elem)
        if not segs:
            rest = EMPTY
        elif len(segs) == 1 and isinstance(segs[0].elem, CombV) and not segs[0].bvs:
            raise Mismatch("nested combination")
        elif len(segs) == 1 and len(segs[0].bvs) == 1 and isz(segs[0].elem) and segs[0].elem.eq(segs[0].bvs[0]):
            g = segs[0].guard
            if z3.is_select(g) and g.arg(1).eq(segs[0].elem) and g.arg(0).sort() == SetS:
                rest = g.arg(0)
            else:
                raise Mismatch("rest of a combination")
        else:
            raise Mismatch("combination")
    if len(pre) != k or not all(isz(x) and x.sort() == Id for x in pre):
        raise Mismatch("combination")
    return pre, rest


def engine(ctx, fn):
    """the engine, a start state and the graph"""
    eng = ctx.engine(dict(QUERIES), fn.key)
    eng.lens = {}
    st = ctx.start(eng)
    n = z3.Const("number_of_nodes", I)
    st.pc.append(n >= 0)
    eng.externals.update({"itertools.combinations": combos, "builtins.len": m_len(n), "builtins.range": m_range, "random.shuffle": shuffle})
    eng.slice_hook = slice_hook
    return eng, st, n


def sizes(st, n, least):
    """comparison settings and the sizes they stand for"""
    lo, mx = z3.Consts("min_size max_size", I)
    st.pc.append(lo >= least)
    st.pc.append(mx >= 0)
    hi = z3.If(mx == 0, n, mx)
    cs = ObjV("comparison_settings", "ComparisonSettings", {"min": lo, "max": mx})
    return cs, lambda k: And(lo <= k, k <= hi, k <= n)


CARD = [z3.ForAll([c_], card(c_) >= 0) for c_ in [z3.Const("c_", SetS)]] + [card(EMPTY) == 0] + \
       [z3.ForAll([c_], z3.Implies(card(c_) == 0, c_ == EMPTY)) for c_ in [z3.Const("c_", SetS)]]


def fin_sets(dom, fs):
    """counter-models: sets over finitely many nodes, with their real number of elements"""
    from .verify import consts_of
    import itertools
    sets = []
    for bits in itertools.product([False, True], repeat=len(dom)):
        c = EMPTY
        for d, b in zip(dom, bits):
            if b:
                c = z3.Store(c, d, z3.BoolVal(True))
        sets.append(c)
    count = lambda p: z3.Sum([z3.If(p(d), 1, 0) for d in dom])

    def rewrite(f, memo={}):
        if not f.num_args():
            return f
        ch = [rewrite(c) for c in f.children()]
        if f.decl().name() == "card":
            return count(lambda d: z3.Select(ch[0], d))
        return z3.And(*ch) if z3.is_and(f) else z3.Or(*ch) if z3.is_or(f) else f.decl()(*ch)
    facts = [z3.Or(*[c == x for x in sets]) for c in consts_of(fs, SetS).values()]
    nodes = [c for n, c in consts_of(fs, SetS).items() if ".nodes" in n]
    facts = [z3.Or(*[c == x for x in sets]) for n, c in consts_of(fs, SetS).items() if c not in nodes]
    if len(nodes) == 1:
        facts.append(z3.Int("number_of_nodes") == count(lambda d: z3.Select(nodes[0], d)))
    return {str(SetS): sets}, rewrite, facts


def finite(os):
    for o in os:
        o.fin = fin_sets
        yield o


def family(*a, **k):
    return finite(_family(*a, **k))


def _family(lab, s, segs, k, sound, complete, facts=()):
    """obligations: the combinations are exactly those wanted, each once (sound(pre, c) >= complete(pre, c))"""
    view = [(g, *parts(g.elem, k)) for g in segs]
    hy = list(s.pc) + CARD + list(facts)
    for g, pre, c in view:
        for nm, p in sound(pre, c):
            yield Obl(f"{lab}: {nm}", hy + [g.guard], p)
    cs = [z3.Const(fresh_name("w"), Id) for _ in range(k)]
    c0 = z3.Const(fresh_name("w"), SetS)
    alts = []
    for g, pre, c in view:
        r = rename_seg(Seg(g.bvs, g.guard, (tuple(pre), c)))
        alts.append(Exists(r.bvs, And(r.guard, *[a == b for a, b in zip(r.elem[0], cs)], r.elem[1] == c0)))
    yield Obl(f"{lab}: no combination is missing", hy + [complete(cs, c0)], Or(*alts))
    for i, (g, pre, c) in enumerate(view):
        for j, (h, pre2, c2) in enumerate(view[:i + 1]):
            a = rename_seg(Seg(g.bvs, g.guard, (tuple(pre), c)))
            b = rename_seg(Seg(h.bvs, h.guard, (tuple(pre2), c2)))
            same = And(a.guard, b.guard, *[p == q for p, q in zip(a.elem[0], b.elem[0])], a.elem[1] == b.elem[1])
            if i == j:
                if g.bvs:
                    yield Obl(f"{lab}: no combination comes twice", hy, Implies(same, And(*[p == q for p, q in zip(a.bvs, b.bvs)])))
            else:
                yield Obl(f"{lab}: no combination comes twice", hy, Not(same))


def subset(c, p):
    x = z3.Const(fresh_name("x"), Id)
    return z3.ForAll([x], z3.Implies(z3.Select(c, x), tob(p(x))))


def run(ctx, cls, mk, lab):
    """run the generator's own generate method on every graph"""
    mod = ctx.prog.mod(GEN)
    fn = ctx.prog.method(mod.classes[cls], "generate")
    eng, st, n = engine(ctx, fn)
    attrs, extra = mk(eng, st, n)
    me = ObjV("self", mod.classes[cls], attrs)
    h0 = dict(st.heap)
    V = View(h0)
    for s, v in eng.call_fn(FuncV(fn, me), [GraphV(), SV(z3.Const("graph_model", Obj))], {}, st):
        if isinstance(v, Raised):
            yield eng, s, V, n, None, extra, Obl(f"{lab}: never raises {v.exc}", s.pc + CARD, False)
            continue
        if not heap_same(h0, s.heap):
            raise Mismatch("graph changes")
        if not isinstance(v, CRef):
            raise Mismatch("value of the generator")
        yield eng, s, V, n, s.store[v.oid].segs, extra, None
    for o in eng.obls:
        yield eng, st, V, n, None, extra, o
    ctx.close(eng)


def all_unit():
    lab = "AllCombinationsGenerator"

    def gen(ctx):
        def mk(eng, st, n):
            cs, ok = sizes(st, n, 0)
            return {"comparison_settings": cs}, ok
        for eng, s, V, n, segs, ok, o in run(ctx, lab, mk, lab):
            if o is not None:
                yield o
                continue
            yield from family(lab, s, segs, 0, lambda p, c: [("only sets of nodes", subset(c, V.node)), ("only the configured sizes", ok(card(c)))],
                              lambda p, c: And(subset(c, V.node), ok(card(c))))
    return Unit(lab, gen, keys=[f"{GEN}:{lab}.generate"])


def neighbours_unit(chunked, sh):
    lab = "PairsWithNeighboursGenerator"
    name = f"{lab} ({'chunked' if chunked else 'plain'}{', shuffled' if sh else ''})"

    def gen(ctx):
        def mk(eng, st, n):
            cs, ok = sizes(st, n, 2)
            return {"comparison_settings": cs, "chunked": chunked, "shuffle_combinations": sh}, ok
        for eng, s, V, n, segs, ok, o in run(ctx, lab, mk, name):
            if o is not None:
                yield o
                continue
            sound = lambda p, c: [("only present edges", V.live(p[0], p[1])), ("only neighbours of the first node", subset(c, lambda x: And(V.live(x, p[0]), V.raw(p[0], x)))),
                                  ("no node twice", And(Not(z3.Select(c, p[0])), Not(z3.Select(c, p[1])))), ("only the configured sizes", ok(card(c) + 2))]
            complete = lambda p, c: And(V.live(p[0], p[1]), subset(c, lambda x: And(V.und(p[0], x), x != p[1])), ok(card(c) + 2))
            yield from family(name, s, flatten(segs, 1 if chunked else 0), 2, sound, complete)
    return Unit(name, gen, keys=[f"{GEN}:{lab}.generate"])


def pairs_unit():
    lab = "PairsWithEdgesInBetweenGenerator"

    def gen(ctx):
        for chunked in (None, False, True):
            k = z3.Const("chunk_size", I)

            def mk(eng, st, n):
                st.pc.append(k > 0)
                return {"chunked": chunked, "chunk_size": k}, None
            name = f"{lab} ({'chunked' if chunked else 'plain'})"
            for eng, s, V, n, segs, _, o in run(ctx, lab, mk, name):
                if o is not None:
                    yield o
                    continue
                if chunked:
                    segs, obls = unchunk(eng, name, s, segs, k)
                    yield from obls
                yield from family(name, s, segs, 2, lambda p, c: [("only present edges", V.live(p[0], p[1])), ("pairs", c == EMPTY)],
                                  lambda p, c: And(V.live(p[0], p[1]), c == EMPTY))
    return Unit(lab, gen, keys=[f"{GEN}:{lab}.generate"])


def unchunk(eng, name, s, segs, k):
    """consecutive slices that cover a list: the list; obligations that they do"""
    if len(segs) != 1 or len(segs[0].bvs) != 1 or not isinstance(segs[0].elem, SliceV):
        raise Mismatch("chunks")
    g = segs[0]
    L = [t for t, sg in eng.lens.values() if sg is g.elem.segs or len(sg) == len(g.elem.segs) and all(a is b for a, b in zip(sg, g.elem.segs))]
    if len(L) != 1:
        raise Mismatch("list that is cut into chunks")
    n = L[0]
    if any(isinstance(x, LenV) or x is None for x in (g.elem.lo, g.elem.hi)):
        raise Mismatch("bounds of a chunk")
    p, q, a, b = z3.Ints("position quotient a b")
    at = lambda f, x: f if isinstance(f, int) else z3.substitute(f, (g.bvs[0], x))
    inside = lambda x: And(z3.substitute(tob(g.guard), (g.bvs[0], x)), at(g.elem.lo, x) <= p, p < at(g.elem.hi, x))
    pos = [p >= 0, p < n]
    div = [q >= 0, q * k <= p, p < q * k + k]                                   # q = p // k
    mono = [z3.Implies(a < b, a * k + k <= b * k), z3.Implies(b < a, b * k + k <= a * k)]
    return g.elem.segs, [Obl(f"{name}: every pair is in a chunk", list(s.pc) + pos + div, inside(q)),
                         Obl(f"{name}: no pair is in two chunks", list(s.pc) + pos + mono, Implies(And(inside(a), inside(b)), a == b)),
                         Obl(f"{name}: no chunk is larger than the chunk size", list(s.pc) + [g.guard], g.elem.hi - g.elem.lo <= k),
                         Obl(f"{name}: chunks start inside the list", list(s.pc) + [g.guard], g.elem.lo >= 0)]


class InnerV:
    """the wrapped generator: it yields any finite sequence"""
    closed = True
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name != "generate" or kws or len(args) != 2 or not isinstance(args[0], GraphV) or not isinstance(args[1], SV):
            raise Mismatch("call of the wrapped generator")
        return [(st, InnerSeq())]


class InnerSeq:
    closed = True
    def iter_segs(self, eng, st):
        i = z3.Const(fresh_name("i"), I)
        t = z3.Const("inner", Obj)
        return [Seg([i], And(i >= 0, i < seq_len(t)), SV(seq_at(t, i)))]


def sample_unit():
    lab = "RandomSampleGenerator"

    def gen(ctx):
        def mk(eng, st, n):
            every = z3.Const("every_nth", I)
            st.pc.append(every > 0)

            def randint(e, s, a, kw):
                if len(a) != 2 or kw:
                    raise Unsupported("randint")
                s = s.copy()
                r = skolem(s, "random", I)
                s.pc += [tob(r >= a[0]), tob(r <= a[1])]
                return [(s, r)]
            eng.externals["random.randint"] = randint
            return {"generator": InnerV(), "every_nth": every}, None
        for eng, s, V, n, segs, _, o in run(ctx, lab, mk, lab):
            if o is not None:
                yield o
                continue
            t = z3.Const("inner", Obj)
            i = z3.Const("i", I)
            for g in segs:
                if not isinstance(g.elem, SV):
                    raise Mismatch("what is yielded")
                yield Obl(f"{lab}: only combinations of the wrapped generator", s.pc, ForAll(g.bvs, Implies(g.guard, Exists([i], And(i >= 0, i < seq_len(t), g.elem.t == seq_at(t, i))))))
            for x, g in enumerate(segs):
                for h in segs[:x + 1]:
                    p, q = rename_seg(g), rename_seg(h)
                    if p.elem.t.decl().name() != "inner_at" or q.elem.t.decl().name() != "inner_at":
                        raise Mismatch("what is yielded")
                    same = And(p.guard, q.guard, p.elem.t.arg(1) == q.elem.t.arg(1))
                    yield Obl(f"{lab}: each at most once", s.pc, Implies(same, And(*[u == v for u, v in zip(p.bvs, q.bvs)])) if g is h else Not(same))
            if not segs:
                yield Obl(f"{lab}: each at most once", s.pc, True)
    return Unit(lab, gen, keys=[f"{GEN}:{lab}.generate"])


def p09_units():
    return [neighbours_unit(c, sh) for c in (True, False) for sh in (True, False)] + [all_unit(), pairs_unit(), sample_unit()]
