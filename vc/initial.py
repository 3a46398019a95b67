"""Initial values of the time series generator (P24).

Matrices are written blockwise: a tensor is its list of writes (region, cells), a contract says which cell has which value; every write that
covers a cell must agree with it, cells without a write stay zero.  Linear algebra (kron, pinv, matmul, ...) is uninterpreted: the
obligation is that the drawn standard deviations are the term  sqrt(diag(unvec((I - A (x) A)^+ vec(Q))))."""
import ast
import z3
from .base import *
from .interp import *
from .verify import Obl, Unit
from .trace import *
from .load import bad
from .sample import SG, NE, NV, frm, to, weight, var, pos, is_var, VarsV
from .series import TEdges, TEdge, lag, LMAX, CLS, the_class

coef = z3.Function("coefficient", I, I, I, R)        # block, row, column
MatS = z3.DeclareSort("Matrix")


def axioms():
    i, p = z3.Const("i", I), z3.Const("p", I)
    rng = z3.And(i >= 0, i < NE)
    return [NE >= 1, NV >= 1, LMAX >= 1,
            z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < NV), pos(var(p)) == p)),
            z3.ForAll([i], z3.Implies(rng, z3.And(is_var(frm(i)), is_var(to(i)), lag(i) >= 1, lag(i) <= LMAX)))]


def mangled(ctx, name):
    for n in (name, f"_{CLS}{name}"):
        try:
            return the_class(ctx, n)
        except Unsupported:
            pass
    raise Unsupported(f"{name} not found")


# ---------------------------------------------------------------- linear induction variables

def conjuncts(g):
    if z3.is_and(g):
        return [c for x in g.children() for c in conjuncts(x)]
    return [g]


def bounds(seg):
    """lo <= i < hi"""
    i = seg.bvs[0]
    lo = hi = None
    for c in conjuncts(z3.simplify(tob(seg.guard), arith_lhs=False)) if False else conjuncts(tob(seg.guard)):
        k, ch = c.decl().kind(), c.children()
        if len(ch) != 2:
            return None
        a, b = ch
        if k == z3.Z3_OP_LE and b.eq(i) or k == z3.Z3_OP_GE and a.eq(i):
            if lo is not None:
                return None
            lo = a if b.eq(i) else b
        elif k == z3.Z3_OP_LT and a.eq(i) or k == z3.Z3_OP_GT and b.eq(i):
            if hi is not None:
                return None
            hi = b if a.eq(i) else a
        else:
            return None
    return None if lo is None or hi is None else (lo, hi)


def linear(eng, st, seg, body, names, node):
    """a number that every iteration of a counting loop increases by the same amount has a closed form (induction over the iterations)"""
    if len(seg.bvs) != 1 or seg.bvs[0].sort() != I or getattr(eng, "_lin", False):
        return None
    nums = [n for n in names if n in st.env and not isinstance(st.env[n], bool) and (isinstance(st.env[n], int) or (isz(st.env[n]) and st.env[n].sort() == I))]
    lh = bounds(seg)
    if not nums or lh is None:
        return None
    seg = rename_seg(seg)
    i = seg.bvs[0]
    t = st.copy()
    t.pc.append(tob(seg.guard))
    t.scope += [i]
    fr = {n: z3.Const(fresh_name("ind_" + n), I) for n in nums}
    t.env.update(fr)
    k = len(eng.obls)
    eng._lin = True
    try:
        paths = body(t, seg.elem)
    finally:
        eng._lin = False
        del eng.obls[k:]
    delta = {}
    for s, o in paths:
        if not (o is NORMAL or o[0] == "continue"):
            return None
        for n in nums:
            v = s.env[n]
            if not (isz(v) and v.sort() == I):
                return None
            d = z3.simplify(v - fr[n])
            used = set(map(str, consts(d)))
            if used & ({str(i)} | {str(x) for x in fr.values()}) or not delta.setdefault(n, d).eq(d):
                return None
    lo, hi = lh
    val = lambda n, j: (st.env[n] if isz(st.env[n]) else z3.IntVal(st.env[n])) + delta[n] * j

    def body2(sb, el):
        q, e = el
        sb = sb.copy()
        for n in nums:
            sb.env[n] = val(n, q - lo)
        return body(sb, e)
    eng._lin = True
    try:
        res = eng.loop_seg1(st, Seg(seg.bvs, seg.guard, (i, seg.elem)), body2, set(names) - set(nums), node)
    finally:
        eng._lin = False
    out = []
    for s, o in res:
        s = s.copy()
        for n in nums:
            s.env[n] = val(n, z3.If(hi > lo, hi - lo, z3.IntVal(0)))
        out.append((s, o))
    return out


def consts(t):
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo += x.children()
    return out


# ---------------------------------------------------------------- tensors written blockwise

class Cells:
    """a matrix of r rows and c columns; at(r, c) = its value"""
    closed = True
    def is_none(self, eng, st):
        return False


class Eye(Cells):
    def __init__(self, n):
        self.rows = self.cols = n
    def subst(self, pairs):
        return Eye(subst_val(self.rows, pairs))
    def at(self, r, c):
        return z3.If(r == c, z3.RealVal(1), z3.RealVal(0))


class Block(Cells):
    """the i-th coefficient matrix, as nested list or tensor"""
    rows = cols = NV
    def __init__(self, i):
        self.i = i
    def subst(self, pairs):
        return Block(subst_val(self.i, pairs))
    def at(self, r, c):
        return coef(self.i, r, c)
    def length(self, eng, st):
        return [(st, NV)]
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]


class Blocks:
    """the list of coefficient matrices, one per lag"""
    closed = True
    def iter_segs(self, eng, st):
        i = z3.Const(fresh_name("i"), I)
        return [Seg([i], z3.And(0 <= i, i < LMAX), Block(i))]
    def length(self, eng, st):
        return [(st, LMAX)]
    def item(self, eng, st, i):
        i = z3.IntVal(i) if isinstance(i, int) else i
        return eng.guarded(st, z3.And(i >= 0, i < LMAX), lambda s: Block(i), "IndexError")
    def is_none(self, eng, st):
        return False
    def truth(self, eng, st):
        return True


class SliceX:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi
    def subst(self, pairs):
        return SliceX(subst_val(self.lo, pairs), subst_val(self.hi, pairs))


def it(x):
    return z3.IntVal(x) if isinstance(x, int) else x


class Zeros:
    """a tensor that starts with zeros; its writes are events"""
    closed = True
    def __init__(self, rows, cols):
        self.rows, self.cols = rows, cols
    def is_none(self, eng, st):
        return False
    def attr(self, eng, st, a):
        if a == "shape":
            return [(st, (self.rows, self.cols))]
        return [(st, MethV(self, a))]
    def length(self, eng, st):
        return [(st, self.rows)]
    def set_item(self, eng, st, k, v):
        if not (isinstance(k, tuple) and len(k) == 2 and all(isinstance(x, SliceX) for x in k) and isinstance(v, Cells)):
            raise Mismatch("write into a tensor")
        (a, b), (c, d) = [(it(0 if x.lo is None else x.lo), it(full if x.hi is None else x.hi)) for x, full in zip(k, (self.rows, self.cols))]
        s = st.copy()
        event(s, "write", a=a, b=b, c=c, d=d, cells=v)
        return [(s, NORMAL)]
    def method(self, eng, st, name, args, kws):
        if (name in ("view", "reshape") and len(args) == 1 and args[0] == -1 or name == "flatten" and not args) and not kws:
            return [(st, Flat(self))]
        if name in ("double", "float", "clone", "contiguous") and not args and not kws:
            return [(st, self)]
        raise Unsupported(f"tensor.{name}")


class Flat:
    closed = True
    def __init__(self, of):
        self.of = of


def tensor_engine(ctx, fn):
    eng = TraceEngine(ctx, fn.key)
    made = []

    def ev_slice(e, st):
        if e.step is not None:
            raise Unsupported("slice with a step")
        parts = [x if x is not None else ast.Constant(value=None) for x in (e.lower, e.upper)]
        return [(s, ps if isinstance(ps, Raised) else SliceX(*ps)) for s, ps in eng.evs(parts, st)]
    eng.ev_Slice = ev_slice

    def dtype_only(k):
        if set(k) - {"dtype"}:
            raise Mismatch("arguments of a tensor")

    def zeros(e, st, a, k):
        dtype_only(k)
        if len(a) == 1 and isinstance(a[0], tuple):
            a = list(a[0])
        if len(a) != 2 or made:
            raise Mismatch("tensor of zeros")
        a = [it(e.len_term(x)) for x in a]
        if not all(isz(x) and x.sort() == I for x in a):
            raise Mismatch("shape")
        made.append(Zeros(*a))
        return [(st, made[0])]

    def eye(e, st, a, k):
        dtype_only(k)
        if len(a) != 1:
            raise Mismatch("eye")
        return [(st, Eye(it(e.len_term(a[0]))))]

    def tensor(e, st, a, k):
        dtype_only(k)
        if len(a) != 1 or not isinstance(a[0], Cells):
            raise Mismatch("tensor")
        return [(st, a[0])]

    def enum(e, st, a, k):
        sg = e.segs(a[0], st)
        if len(a) == 1 and not k and isinstance(a[0], (Blocks, VarsV)):
            return [(st, Cont("list", [Seg(g.bvs, g.guard, (g.bvs[0], g.elem)) for g in sg]))]
        raise Unsupported("enumerate")
    eng.externals.update({"torch.zeros": zeros, "torch.eye": eye, "torch.tensor": tensor, "torch.as_tensor": tensor, "builtins.enumerate": enum, "enumerate": enum})
    eng.loop_hook = linear
    old = eng.arith

    def arith(op, a, b, st):
        if op == "FloorDiv" and (isz(a) or isz(b)) and all(isinstance(x, int) or x.sort() == I for x in (a, b)):
            if eng.feasible_list(st, [it(b) <= 0]):
                raise Unsupported("division by a number that may not be positive")
            return [(st, it(a) / it(b))]
        return old(op, a, b, st)
    eng.arith = arith
    return eng, made


def mult_lemmas(ts, n):
    """a >= b + 1 implies a n >= b n + n, for the given numbers (n >= 0)"""
    out = []
    for x in ts:
        for y in ts:
            if not x.eq(y):
                out.append(z3.Implies(x >= y + 1, x * n >= y * n + n))
    return out


def lemma_unit():
    def gen(ctx):
        a, b, n = [z3.Const(x, I) for x in "abn"]
        d = z3.Const("d", I)
        yield Obl("lemma: multiples of n are n apart (numeric)", [n >= 0, a == b + 1 + d, d >= 0], a * n >= b * n + n)
        yield Obl("lemma: a multiple divided by its factor (numeric)", [n >= 1], (a * n) / n == a)
    return Unit("multiples", gen, keys=[])


def writes(s, made, v):
    from .wspace import flat
    evs = flat(s.store[TR].segs)
    if len(made) != 1 or any(g.elem.fields["kind"] != "write" for g in evs):
        raise Mismatch("tensor returned")
    return evs


def check_cells(m, s, evs, T, spec, br, rr, bc, cc, n, extra):
    """cell (br n + rr, bc n + cc): every write that covers it agrees with the contract, without a write the contract says zero"""
    r, c = br * n + rr, bc * n + cc
    inr = [rr >= 0, rr < n, cc >= 0, cc < n, br >= 0, bc >= 0, r < T.rows, c < T.cols]
    none = []
    for g in evs:
        f = g.elem.fields
        a, b, c0, d, cells = f["a"], f["b"], f["c"], f["d"], f["cells"]
        gp = s.pc + [tob(g.guard)] + extra(list(g.bvs))
        m.ob("what is written has the shape of its place (numeric)", gp, z3.And(b - a == cells.rows, d - c0 == cells.cols, a >= 0, c0 >= 0, b <= T.rows, d <= T.cols))
        cov = z3.And(a <= r, r < b, c0 <= c, c < d)
        m.ob("every coefficient is written to its place (numeric)", gp + inr + mult_lemmas([br, bc] + list(g.bvs), n) + [cov], cells.at(r - a, c - c0) == spec)
        # a witness is given by the block numbers
        none.append((g, cov))
    return r, c, inr, none


def block_unit():
    def gen(ctx):
        c, fn = the_class(ctx, "custom_block_diagonal")
        eng, made = tensor_engine(ctx, fn)
        me = ObjV("self", c, {"_edges": TEdges(), "_variables": VarsV(), "_longest_lag": LMAX})
        st = start(ctx)
        st.pc += axioms()
        m = Match(eng, "custom_block_diagonal")
        n = NV
        br, rr, bc, cc = [z3.Const(x, I) for x in ("block_row", "row", "block_column", "column")]
        spec = z3.If(br == 0, coef(bc, rr, cc), z3.If(z3.And(bc == br - 1, rr == cc), z3.RealVal(1), z3.RealVal(0)))
        for s, v in eng.call_fn(FuncV(fn, me), [Blocks()], {}, st):
            if isinstance(v, Raised):
                m.ob(f"never raises {v.exc} (numeric)", s.pc, False)
                continue
            evs = writes(s, made, v)
            if v is not made[0]:
                raise Mismatch("tensor returned")
            m.ob("the companion matrix has one row and column per variable and lag (numeric)", s.pc, z3.And(v.rows == LMAX * n, v.cols == LMAX * n))
            lem = lambda bv: mult_lemmas(bv + [LMAX, br, bc], n)
            r, c_, inr, cov = check_cells(m, s, evs, v, spec, br, rr, bc, cc, n, lem)
            miss = []
            for g, f in cov:
                if len(g.bvs) == 1:
                    for w in (br, bc):
                        miss.append(z3.substitute(z3.Implies(tob(g.guard), z3.Not(f)), (g.bvs[0], w)))
                else:
                    miss.append(z3.ForAll(list(g.bvs), z3.Implies(tob(g.guard), z3.Not(f))) if g.bvs else z3.Implies(tob(g.guard), z3.Not(f)))
            m.ob("cells that are not written are zero in the companion matrix (numeric)", s.pc + inr + miss + [br < LMAX, bc < LMAX] + mult_lemmas([br, bc, br - 1, LMAX], n), spec == 0)
        yield from m.out
        ctx.close(eng)
    return Unit("custom_block_diagonal", gen, keys=[f"{SG}:{CLS}.custom_block_diagonal"])


def noise_unit():
    def gen(ctx):
        c, fn = the_class(ctx, "vectorize_identity_block")
        eng, made = tensor_engine(ctx, fn)
        me = ObjV("self", c, {"_edges": TEdges(), "_variables": VarsV(), "_longest_lag": LMAX})
        st = start(ctx)
        st.pc += axioms() + [(NV * LMAX) / LMAX == NV, NV * LMAX >= NV]
        m = Match(eng, "vectorize_identity_block")
        r, c_ = z3.Const("row", I), z3.Const("column", I)
        N = NV * LMAX
        spec = z3.If(z3.And(r == c_, r < NV), z3.RealVal(1), z3.RealVal(0))
        for s, v in eng.call_fn(FuncV(fn, me), [N], {}, st):
            if isinstance(v, Raised):
                m.ob(f"never raises {v.exc} (numeric)", s.pc, False)
                continue
            evs = writes(s, made, v)
            if not (isinstance(v, Flat) and v.of is made[0]):
                raise Mismatch("vector returned")
            T = v.of
            inr = [r >= 0, c_ >= 0, r < N, c_ < N]
            m.ob("one entry per pair of components (numeric)", s.pc, z3.And(T.rows == N, T.cols == N))
            miss = []
            for g in evs:
                f = g.elem.fields
                gp = s.pc + [tob(g.guard)]
                x = f["cells"]
                m.ob("what is written has the shape of its place (numeric)", gp, z3.And(f["b"] - f["a"] == x.rows, f["d"] - f["c"] == x.cols, f["a"] >= 0, f["c"] >= 0, f["b"] <= T.rows, f["d"] <= T.cols))
                cov = z3.And(f["a"] <= r, r < f["b"], f["c"] <= c_, c_ < f["d"])
                m.ob("unit noise for the present value of every variable, independent (numeric)", gp + inr + [cov], x.at(r - f["a"], c_ - f["c"]) == spec)
                miss.append(ForAll(list(g.bvs), Implies(g.guard, Not(cov))) if g.bvs else Implies(g.guard, Not(cov)))
            m.ob("no other noise (numeric)", s.pc + inr + [tob(x) for x in miss], spec == 0)
        yield from m.out
        ctx.close(eng)
    return Unit("vectorize_identity_block", gen, keys=[f"{SG}:{CLS}.vectorize_identity_block"])


# ---------------------------------------------------------------- positions and coefficients

class PosD:
    """variable -> its position"""
    closed = True
    def item(self, eng, st, k):
        k = eng.as_id(k)
        return eng.guarded(st, is_var(k), lambda s: pos(k), "KeyError")
    def contains(self, eng, st, k):
        return is_var(eng.as_id(k))
    def iter_segs(self, eng, st):
        return VarsV().iter_segs(eng, st)
    def is_none(self, eng, st):
        return False
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name == "get" and len(args) == 1:
            return self.item(eng, st, args[0])
        if name not in ("items", "keys", "values") or args:
            raise Unsupported(f"dict.{name}")
        return [(st, Cont("list", [Seg(g.bvs, g.guard, {"items": (g.elem, g.bvs[0]), "keys": g.elem, "values": g.bvs[0]}[name]) for g in self.iter_segs(eng, st)]))]


class PosC:
    def apply(self, eng, st, b):
        return [(st, PosD())]


def position_unit():
    def gen(ctx):
        c, fn = mangled(ctx, "__matrix_position_mapping")
        eng, _ = tensor_engine(ctx, fn)
        eng.loop_hook = None
        me = ObjV("self", c, {"_edges": TEdges(), "_variables": VarsV(), "_longest_lag": LMAX})
        st = start(ctx)
        st.pc += axioms()
        ctx.vacuity.append(("variables", list(st.pc)))
        m = Match(eng, "__matrix_position_mapping")
        x = z3.Const("$x", Id)
        for s, v in eng.call_fn(FuncV(fn, me), [], {}, st):
            if isinstance(v, Raised):
                m.ob(f"never raises {v.exc} (numeric)", s.pc, False)
                continue
            if not (isinstance(v, CRef) and s.store[v.oid].kind == "dict"):
                raise Mismatch("positions")
            got = s.store[v.oid].segs
            for g in got:
                k, w = g.elem
                if not (isz(w) and w.sort() == I) and not isinstance(w, int):
                    raise Mismatch("position")
                m.ob("a variable has its own position (numeric)", s.pc + [tob(g.guard)], And(is_var(eng.as_id(k)), w == pos(eng.as_id(k))))
            m.ob("every variable has a position (numeric)", s.pc, Implies(is_var(x), Or(*[Exists(g.bvs, And(g.guard, eng.as_id(g.elem[0]) == x)) for g in got])))
        yield from m.out
        ctx.close(eng)
    return Unit("matrix positions", gen, keys=[fn_key("__matrix_position_mapping")])


def fn_key(n):
    return f"{SG}:{CLS}.{n}"


class Cube:
    """nested lists [lag][row][column], zero at first; index path"""
    closed = True
    def __init__(self, path=()):
        self.path = path
    def subst(self, pairs):
        return Cube(tuple(subst_val(x, pairs) for x in self.path))
    def is_none(self, eng, st):
        return False
    def length(self, eng, st):
        return [(st, NV if self.path else LMAX)]
    def item(self, eng, st, i):
        i = it(i)
        if not (isz(i) and i.sort() == I):
            raise Mismatch("index")
        n = NV if self.path else LMAX
        p = self.path + (i,)
        return eng.guarded(st, z3.And(i >= 0, i < n), lambda s: Cell(p) if len(p) == 3 else Cube(p), "IndexError")
    def set_item(self, eng, st, k, v):
        p = self.path + (it(k),)
        if len(p) != 3 or not isinstance(v, Cell) or not all(a.eq(b) for a, b in zip(p, v.path)) or len(v.plus) != 1:
            raise Mismatch("coefficient written")
        s = st.copy()
        event(s, "add", i=p[0], r=p[1], c=p[2], w=v.plus[0])
        return [(s, NORMAL)]


class Cell:
    closed = True
    def __init__(self, path, plus=()):
        self.path, self.plus = path, plus
    def subst(self, pairs):
        return Cell(tuple(subst_val(x, pairs) for x in self.path), tuple(subst_val(x, pairs) for x in self.plus))
    def bin(self, eng, st, op, o, swap):
        if op == "Add" and is_num(o):
            return [(st, Cell(self.path, self.plus + (toreal(o),)))]
        raise Mismatch("coefficient")


def cube_of(eng, s, v):
    """three nested comprehensions of zeros"""
    segs, shape = eng.segs(v, s), []
    for n in (LMAX, NV, NV):
        if len(segs) != 1 or len(segs[0].bvs) != 1 or segs[0].bvs[0].sort() != I:
            return None
        g = segs[0]
        shape.append((g.bvs[0], g.guard, n))
        e = g.elem
        if n is NV and len(shape) == 3:
            return shape if not isz(e) and not isinstance(e, bool) and isinstance(e, (int, float)) and e == 0 else None
        if not isinstance(e, (CRef, Cont)):
            return None
        segs = eng.segs(e, s)
    return None


def coefficients_unit():
    def gen(ctx):
        c, fn = mangled(ctx, "__generate_coefficient_matrix")
        eng, _ = tensor_engine(ctx, fn)
        eng.loop_hook = None
        m = Match(eng, "__generate_coefficient_matrix")
        made = []
        comp = eng.comp

        def comp2(e, st, kind):
            out = []
            for s, v in comp(e, st, kind):
                sh = cube_of(eng, s, v) if kind == "list" and isinstance(v, CRef) else None
                if sh is not None and not s.scope:
                    if made:
                        raise Mismatch("two matrices")
                    made.append(1)
                    for b, g, n in sh:
                        m.ob("there is a coefficient for every lag and pair of variables (numeric)", s.pc, ForAll([b], Iff(g, z3.And(b >= 0, b < n))))
                    v = Cube()
                out.append((s, v))
            return out
        eng.comp = comp2

        class Diag:
            def apply(self, e, st, b):
                s = st.copy()
                x = [v for k, v in b.items() if k != "self"]
                if len(x) != 1 or not isinstance(x[0], Cube) or x[0].path:
                    raise Mismatch("blocks")
                event(s, "blocks")
                return [(s, ObjV("companion", "companion"))]
        eng.contracts[the_class(ctx, "custom_block_diagonal")[1].key] = Diag()
        eng.contracts[mangled(ctx, "__matrix_position_mapping")[1].key] = PosC()
        me = ObjV("self", c, {"_edges": TEdges(), "_variables": VarsV(), "_longest_lag": LMAX})
        st = start(ctx)
        st.pc += axioms()
        e = z3.Const("$e", I)
        from .wspace import flat
        for s, v in eng.call_fn(FuncV(fn, me), [], {}, st):
            if isinstance(v, Raised):
                m.ob(f"never raises {v.exc} (numeric)", s.pc, False)
                continue
            evs = flat(s.store[TR].segs)
            if not made or not (isinstance(v, ObjV) and v.name == "companion") or [g.elem.fields["kind"] for g in evs] != ["add", "blocks"]:
                raise Mismatch("trace: coefficients, then the companion matrix")
            g = evs[0]
            if len(g.bvs) != 1 or g.bvs[0].sort() != I:
                raise Mismatch("coefficients")
            f, b = g.elem.fields, g.bvs[0]
            m.ob("every edge adds to the coefficients once (numeric)", s.pc, ForAll([b], Iff(g.guard, z3.And(b >= 0, b < NE))))
            m.ob("an edge adds its weight to the coefficient of its lag, effect and cause (numeric)", s.pc + [tob(g.guard)],
                 And(f["i"] == lag(b) - 1, f["r"] == pos(to(b)), f["c"] == pos(frm(b)), f["w"] == weight(b)))
        yield from m.out
        ctx.close(eng)
    return Unit("coefficient matrix", gen, keys=[fn_key("__generate_coefficient_matrix")])


# ---------------------------------------------------------------- the initial values

F = {n: z3.Function("m_" + n, *[MatS] * k, MatS) for n, k in (("kron", 2), ("sub", 2), ("pinv", 1), ("matmul", 2), ("diag", 1))}
eye_ = z3.Function("m_eye", I, MatS)
unvec = z3.Function("m_unvec", MatS, I, I, MatS)
vecq = z3.Function("m_noise", I, MatS)
entry = z3.Function("m_entry", MatS, I, R)
entry2 = z3.Function("m_entry2", MatS, I, I, R)
sqrt = z3.Function("r_sqrt", R, R)
COMP = z3.Const("companion_matrix", MatS)


class Mat:
    closed = True
    def __init__(self, t):
        self.t = t
    def subst(self, pairs):
        return Mat(z3.substitute(self.t, *pairs))
    def is_none(self, eng, st):
        return False
    def attr(self, eng, st, a):
        if a == "shape":
            if not self.t.eq(COMP):
                raise Mismatch("shape")
            return [(st, (NV * LMAX, NV * LMAX))]
        return [(st, MethV(self, a))]
    def length(self, eng, st):
        if not self.t.eq(COMP):
            raise Mismatch("length")
        return [(st, NV * LMAX)]
    def bin(self, eng, st, op, o, swap):
        if not isinstance(o, Mat) or op not in ("Sub", "MatMult"):
            raise Mismatch(f"operator {op}")
        a, b = (o, self) if swap else (self, o)
        return [(st, Mat(F["sub" if op == "Sub" else "matmul"](a.t, b.t)))]
    def method(self, eng, st, name, args, kws):
        if name in ("reshape", "view") and len(args) == 2 and not kws:
            return [(st, Mat(unvec(self.t, it(args[0]), it(args[1]))))]
        if name in ("diagonal", "diag") and not args and not kws:
            return [(st, Mat(F["diag"](self.t)))]
        if name == "matmul" and len(args) == 1 and isinstance(args[0], Mat):
            return [(st, Mat(F["matmul"](self.t, args[0].t)))]
        if name in ("double", "clone", "contiguous") and not args and not kws:
            return [(st, self)]
        raise Mismatch(f"tensor.{name}")
    def item(self, eng, st, k):
        if isinstance(k, tuple) and len(k) == 2:
            return [(st, entry2(self.t, it(k[0]), it(k[1])))]
        k = it(k)
        if not (isz(k) and k.sort() == I):
            raise Mismatch("entry")
        return [(st, entry(self.t, k))]


def initial_unit():
    def gen(ctx):
        c, fn = the_class(ctx, "_calculate_initial_values")
        eng, _ = tensor_engine(ctx, fn)
        eng.loop_hook = None

        class CompC:
            def apply(self, e, st, b):
                return [(st, Mat(COMP))]

        class NoiseC:
            def apply(self, e, st, b):
                return [(st, Mat(vecq(it(b["n"]))))]
        eng.contracts[mangled(ctx, "__generate_coefficient_matrix")[1].key] = CompC()
        eng.contracts[mangled(ctx, "__matrix_position_mapping")[1].key] = PosC()
        eng.contracts[the_class(ctx, "vectorize_identity_block")[1].key] = NoiseC()

        def fun(n, k):
            def f(e, st, a, kw):
                if len(a) != k or not all(isinstance(x, Mat) for x in a) or (kw and not (n == "diag" and set(kw) <= {"offset"} and kw["offset"] == 0)):
                    raise Mismatch(n)
                return [(st, Mat(F[n](*[x.t for x in a])))]
            return f

        def eye(e, st, a, k):
            if len(a) != 1 or set(k) - {"dtype"}:
                raise Mismatch("eye")
            return [(st, Mat(eye_(it(a[0]))))]

        def root(e, st, a, k):
            if len(a) != 1 or k or not is_num(a[0]):
                raise Mismatch("sqrt")
            return [(st, sqrt(toreal(a[0])))]
        eng.externals.update({"torch.kron": fun("kron", 2), "torch.eye": eye, "torch.linalg.pinv": fun("pinv", 1), "torch.pinverse": fun("pinv", 1),
                              "torch.matmul": fun("matmul", 2), "torch.mv": fun("matmul", 2), "torch.diagonal": fun("diag", 1), "torch.diag": fun("diag", 1), "torch.sqrt": root})

        class Drawn:
            closed = True
            def __init__(self, sd, t):
                self.sd, self.t = sd, t
            def subst(self, pairs):
                return Drawn(z3.substitute(self.sd, *pairs), z3.substitute(self.t, *pairs))
            def is_none(self, e, st):
                return False

        class Dist:
            closed = True
            def call(self, e, st, a, k):
                if len(a) != 1 or k or not (isz(a[0]) and a[0].sort() == R):
                    raise Mismatch("drawing an initial value")
                s = st.copy()
                return [(s, Drawn(a[0], skolem(s, "initial", R)))]
            def is_none(self, e, st):
                return False
        me = ObjV("self", c, {"_edges": TEdges(), "_variables": VarsV(), "_longest_lag": LMAX, "_initial_distribution_fn": Dist()})
        st = start(ctx)
        st.pc += axioms()
        N = NV * LMAX
        M, j = z3.Const("$M", MatS), z3.Const("$j", I)
        st.pc.append(z3.ForAll([M, j], entry(F["diag"](M), j) == entry2(M, j, j)))
        cov = unvec(F["matmul"](F["pinv"](F["sub"](eye_(N * N), F["kron"](COMP, COMP))), vecq(N)), N, N)
        m = Match(eng, "_calculate_initial_values")
        x = z3.Const("$x", Id)
        for s, v in eng.call_fn(FuncV(fn, me), [], {}, st):
            if isinstance(v, Raised):
                m.ob(f"never raises {v.exc} (numeric)", s.pc, False)
                continue
            if not (isinstance(v, CRef) and s.store[v.oid].kind == "dict"):
                raise Mismatch("initial values")
            got = s.store[v.oid].segs
            for g in got:
                k, d = g.elem
                if not isinstance(d, Drawn):
                    raise Mismatch("initial value")
                k = eng.as_id(k)
                gp = s.pc + [tob(g.guard)]
                m.ob("only variables get an initial value (numeric)", gp, is_var(k))
                m.ob("an initial value is drawn with the stationary standard deviation of its variable (numeric)", gp, d.sd == sqrt(entry2(cov, pos(k), pos(k))))
                m.ob("every initial value is a draw of its own (numeric)", s.pc, bool(all(any(a.eq(b) for a in d.t.children()) for b in g.bvs)))
            m.ob("every variable gets an initial value (numeric)", s.pc, Implies(is_var(x), Or(*[Exists(g.bvs, And(g.guard, eng.as_id(g.elem[0]) == x)) for g in got])))
        yield from m.out
        ctx.close(eng)
    return Unit("_calculate_initial_values", gen, keys=[fn_key("_calculate_initial_values")])


# ---------------------------------------------------------------- constructor

def series_init_unit():
    def gen(ctx):
        c, fn = the_class(ctx, "__init__")
        eng = TraceEngine(ctx, fn.key)
        A = ctx.prog.mod(SG).classes["AbstractSampleGenerator"]
        edges, rnd, vs = TEdges(), SV(z3.Const("random", Obj)), VarsV()

        class Find:
            def apply(self, e, s, b):
                if s.heap.get(("o", "self", "_edges")) is not edges:
                    raise Mismatch("variables of other edges")
                return [(s, vs)]
        eng.contracts[A.methods["_find_variables_in_edges"].key] = Find()
        # the order of the variables is not part of the contract: sorted keeps them
        eng.externals["builtins.sorted"] = eng.externals["sorted"] = lambda e, s, a, k: [(s, a[0])] if len(a) == 1 and a[0] is vs else bad("sorted")
        eng.externals["builtins.list"] = eng.externals["list"] = lambda e, s, a, k: [(s, a[0])] if len(a) == 1 and a[0] is vs else bad("list")
        big = z3.Const("largest", I)

        def biggest(e, st, a, k):
            if len(a) != 1 or set(k) - {"default"}:
                raise Mismatch("max")
            sg = e.segs(a[0], st)
            if not sg or not all(isz(g.elem) and g.elem.sort() == I for g in sg):
                raise Mismatch("max of what")
            s = st.copy()
            some = Or(*[Exists(g.bvs, And(g.guard, big == g.elem)) for g in sg])
            s.pc += [tob(ForAll(g.bvs, Implies(g.guard, g.elem <= big))) for g in sg] + [tob(some)]
            return [(s, big)]
        eng.externals["builtins.max"] = eng.externals["max"] = biggest
        me = ObjV("self", c, {})
        st = start(ctx)
        i = z3.Const("$i", I)
        st.pc += [NE >= 1, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < NE), lag(i) >= 1))]
        m = Match(eng, f"{CLS}.__init__")
        for s, v in eng.call_fn(FuncV(fn, me), [edges, rnd], {}, st):
            if isinstance(v, Raised):
                m.ob(f"never raises {v.exc} (numeric)", s.pc, False)
                continue
            h = lambda a: s.heap.get(("o", "self", a))
            if h("_edges") is not edges or h("_variables") is not vs or not isinstance(h("random_fn"), SV) or not (isz(h("_longest_lag")) and h("_longest_lag").sort() == I):
                raise Mismatch("attributes")
            m.value("the given noise source is used (numeric)", s, h("random_fn"), rnd)
            L = h("_longest_lag")
            m.ob("no lag is longer than the longest (numeric)", s.pc, Implies(z3.And(i >= 0, i < NE), lag(i) <= L))
            m.ob("the longest lag is one of the lags (numeric)", s.pc, z3.Exists([i], z3.And(i >= 0, i < NE, lag(i) == L)))
        yield from m.out
        ctx.close(eng)
    return Unit(f"{CLS}.__init__", gen, keys=[f"{SG}:{CLS}.__init__", f"{SG}:AbstractSampleGenerator.__init__"])


def initial_units():
    return [series_init_unit(), position_unit(), coefficients_unit(), block_unit(), noise_unit(), lemma_unit(), initial_unit()]
