"""Independence tests (P12) and edge statistics (P13).

Decisions (which edge, which conditioning set, adjacency, where a number is stored) are exact.  Numbers are reals; log, sqrt, the normal
distribution function and the quantile of Student's t are uninterpreted functions with their defining facts, tensors are vectors named by
their node, matrices are functions of row and column.  Obligations about numbers carry "(numeric)": they are proved or undecided, never refuted
(a different but equal formula would look different here), the executable contract decides then."""
import z3
from .base import *
from .interp import *
from .graphspec import View
from .verify import Obl, Unit
from .gcontracts import QUERIES, heap_same, k as gk
from .trace import Mismatch
from .rules import ACT_DISTINCT

IT = "causy/causal_discovery/constraint/independence_tests/common.py"
MU = "causy/math_utils.py"
CALC = "causy/common_pipeline_steps/calculation.py"
REG = "causy/causal_effect_estimation/multivariate_regression.py"

LOG, SQRT, PHI = (z3.Function(n, R, R) for n in ("log", "sqrt", "normal_cdf"))
TPPF = z3.Function("t_quantile", R, R, R)
ROUND = z3.Function("round_to", R, I, R)
CORR = z3.Function("stored_correlation", Meta, R)
HAS = z3.Function("has_correlation", Meta, B)
THR = z3.Const("threshold", R)
M = z3.Const("sample_size", I)
NN = z3.Const("number_of_nodes_tested", I)
nat = z3.Function("node_at", I, Id)
COV, DET, INV = z3.Function("cov", Id, Id, R), z3.Const("det_of_cov", R), z3.Function("inverse_cov", I, I, R)
MEAN, STD = z3.Function("mean_of", Id, R), z3.Function("population_std", Id, R)
CMEAN = z3.Function("mean_of_product_of_centred", Id, Id, R)
PCR = z3.Const("partial_correlation_by_regression", R)
NUM = "(numeric)"


def half_log(r):
    return z3.RealVal("0.5") * LOG((1 + r) / (1 - r))


def absr(x):
    return z3.If(x < 0, -x, x)


def pval(r, k):
    """p-value of Fisher's z for the (partial) correlation r given k variables"""
    return 2 * (1 - PHI(absr(half_log(r)) * SQRT(toreal(M - k - 3))))


# ---------------------------------------------------------------- models of the mathematics

def num(x):
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return toreal(x)
    if isz(x) and x.sort() in (I, R):
        return toreal(x)
    raise Unsupported(f"number {x!r}")


def one(f, facts=lambda x, y: [], dom=None, exc="ValueError"):
    def h(eng, st, a, kw):
        if len(a) != 1 or kw:
            raise Unsupported("arguments of a mathematical function")
        if hasattr(a[0], "mapped"):
            return [(st, a[0].mapped(f, facts))]
        x = num(a[0])
        y = f(x)
        go = lambda s: (s, y)
        out = []
        yes, no = eng.split(st, dom(x)) if dom else (st, None)
        if yes is not None:
            s = yes.copy()
            s.pc += [q for q in facts(x, y)]
            out.append((s, y))
        if no is not None:
            out.append((no, Raised(exc)))
        return out
    return h


def sqrt_facts(x, y):
    return [z3.Implies(x >= 0, z3.And(y >= 0, y * y == x)), SQRT(z3.RealVal(0)) == 0]


def phi_facts(x, y):
    return [PHI(x) + PHI(-x) == 1, PHI(x) > 0, PHI(x) < 1]


def t_ppf(eng, st, a, kw):
    b = dict(zip(("q", "df"), a), **kw)
    if set(b) != {"q", "df"}:
        raise Unsupported("t.ppf")
    q, d = num(b["q"]), num(b["df"])
    s = st.copy()
    s.pc += [TPPF(q, d) == -TPPF(1 - q, d)]
    return [(s, TPPF(q, d))]


def m_round(eng, st, a, kw):
    x, k = num(a[0]), (a[1] if len(a) > 1 else 0)
    if not isinstance(k, int):
        raise Unsupported("round")
    y = ROUND(x, z3.IntVal(k))
    s = st.copy()
    h = z3.RealVal(1) / (2 * 10 ** k)
    s.pc += [y - x <= h, x - y <= h, z3.Implies(z3.Or(x == 0, x == 1, x == -1), y == x)]
    return [(s, y)]


MATH = {"log": one(LOG, dom=lambda x: x > 0), "sqrt": one(SQRT, sqrt_facts, dom=lambda x: x >= 0), "fabs": one(absr), "log1p": one(lambda x: LOG(1 + x), dom=lambda x: x > -1),
        "atanh": one(half_log, dom=lambda x: z3.And(-1 < x, x < 1))}
MATH["arctanh"] = MATH["atanh"]


class VecV:
    """the values of a node: a vector named by the node, possibly minus its mean"""
    def __init__(self, id, centred=False, column=False):
        self.id, self.centred, self.column = id, centred, column
    def subst(self, pairs):
        return VecV(z3.substitute(self.id, *pairs), self.centred, self.column)
    def length(self, eng, st):
        return [(st, M)]
    def truth(self, eng, st):
        raise Unsupported("truth of a tensor")
    def is_none(self, eng, st):
        return False
    def attr(self, eng, st, a):
        if a == "shape":
            return [(st, (M, 1) if self.column else (M,))]
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name == "mean" and not self.centred and (not kws or kws == {"dim": 0}) and (not args or args == [0]):
            return [(st, MeanOf(self.id))]
        if name in ("size", "numel") and args in ([], [0]):
            return [(st, M)]
        if name == "__len__":
            return [(st, M)]
        if name == "std" and not args and not self.column:
            u = kws.get("unbiased", kws.get("correction"))
            if u in (False, 0) and set(kws) <= {"unbiased", "correction"}:
                s = st.copy()
                s.pc += [STD(self.id) >= 0]
                return [(s, STD(self.id))]
        if name in ("view", "reshape") and tuple(args[0] if len(args) == 1 and isinstance(args[0], tuple) else args) == (-1, 1):
            return [(st, VecV(self.id, self.centred, True))]
        if name == "unsqueeze" and list(args) in ([1], [-1]):
            return [(st, VecV(self.id, self.centred, True))]
        if name in ("double", "clone", "detach", "contiguous", "float64") and not args:
            return [(st, self)]
        raise Unsupported(f"tensor.{name}")
    def bin(self, eng, st, op, o, swap):
        if op == "Sub" and not swap and isinstance(o, FitV) and o.id.eq(self.id) and not self.centred:
            return [(st, ResV(self.id, o.key))]
        if op == "Sub" and not swap and isinstance(o, MeanOf) and o.id.eq(self.id):
            return [(st, VecV(self.id, True, self.column))]
        if op == "Mult" and isinstance(o, VecV) and self.centred and o.centred:
            return [(st, Prod(self.id, o.id))]
        raise Unsupported("tensor arithmetic")


class MeanOf:
    def __init__(self, id):
        self.id = id
    def subst(self, pairs):
        return MeanOf(z3.substitute(self.id, *pairs))


class Prod:
    def __init__(self, a, b):
        self.a, self.b = a, b
    def subst(self, pairs):
        return Prod(z3.substitute(self.a, *pairs), z3.substitute(self.b, *pairs))
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name == "mean" and not args and not kws:
            return [(st, CMEAN(self.a, self.b))]
        raise Unsupported(f"tensor.{name}")


class Stack:
    """vectors of a list next to each other; dim 0: rows"""
    def __init__(self, segs, dim, centred=False, key=None):
        self.segs, self.dim, self.centred = segs, dim, centred
        self.key = key or fresh_name("stack")
    def attr(self, eng, st, a):
        if a in ("T", "mT"):
            return [(st, Stack(self.segs, 1 - self.dim, self.centred, self.key))]
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name == "mean":
            d = kws.get("dim", args[0] if args else None)
            if d == 1 - self.dim and (d == 0 or kws.get("keepdim") is True) and not self.centred:
                return [(st, StackMean(self))]
        if name in ("t",) and not args:
            return [(st, Stack(self.segs, 1 - self.dim, self.centred, self.key))]
        raise Unsupported(f"tensor.{name}")
    def bin(self, eng, st, op, o, swap):
        if op == "Sub" and not swap and isinstance(o, StackMean) and o.s is self:
            return [(st, Stack(self.segs, self.dim, True))]
        raise Unsupported("tensor arithmetic")


class StackMean:
    def __init__(self, s):
        self.s = s


class MatV:
    """square matrix: entry(i, j)"""
    def __init__(self, at, n, facts=lambda i, j: []):
        self.at, self.n, self.facts = at, n, facts
    def mapped(self, f, facts):
        def more(i, j):
            x = self.at(i, j)
            return self.facts(i, j) + facts(x, f(x))
        return MatV(lambda i, j: f(self.at(i, j)), self.n, more)
    def attr(self, eng, st, a):
        if a == "shape":
            return [(st, (self.n, self.n))]
        if a in ("T", "mT"):
            return [(st, MatV(lambda i, j: self.at(j, i), self.n, lambda i, j: self.facts(j, i)))]
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name == "size" and len(args) == 1 and args[0] in (0, 1):
            return [(st, self.n)]
        if name in ("diag", "diagonal") and not args:
            return [(st, DiagOf(self))]
        if name == "inverse" and not args:
            return inverse(eng, st, [self], {})
        if name == "det" and not args:
            return det(eng, st, [self], {})
        if name == "sqrt" and not args:
            return [(st, self.mapped(SQRT, sqrt_facts))]
        raise Unsupported(f"matrix.{name}")
    def item(self, eng, st, k):
        if isinstance(k, tuple) and len(k) == 2:
            i, j = (z3.IntVal(x) if isinstance(x, int) and x >= 0 else x for x in k)
            if not (isz(i) and isz(j) and i.sort() == I and j.sort() == I):
                raise Unsupported("index into a matrix")
            s = st.copy()
            s.pc += self.facts(i, j)
            return [(s, self.at(i, j))]
        return [(st, RowV(self, k))]
    def bin(self, eng, st, op, o, swap):
        if op == "MatMult" and isinstance(o, MatV) and not swap:
            return mm(eng, st, [self, o], {})
        raise Unsupported("matrix arithmetic")


class RowV:
    def __init__(self, m, i):
        self.m, self.i = m, i
    def item(self, eng, st, k):
        return self.m.item(eng, st, (self.i, k))


class DiagOf:
    def __init__(self, m):
        self.m = m
    def item(self, eng, st, k):
        return self.m.item(eng, st, (k, k))
    def mapped(self, f, facts):
        return DiagOf(self.m.mapped(f, facts))
    def length(self, eng, st):
        return [(st, self.m.n)]
    def attr(self, eng, st, a):
        if a == "shape":
            return [(st, (self.m.n,))]
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name == "sqrt" and not args:
            return [(st, self.mapped(SQRT, sqrt_facts))]
        raise Unsupported(f"vector.{name}")


class ZeroMat:
    """a matrix of zeros that is filled: the entries written are a dictionary in the store"""
    closed = True
    def __init__(self, ref, n):
        self.ref, self.n = ref, n
    def set_item(self, eng, st, k, v):
        if not (isinstance(k, tuple) and len(k) == 2):
            raise Unsupported("assignment to a row of a matrix")
        return eng.setitem(self.ref, k, num(v), st)
    def frozen(self, eng, st):
        c = st.store[self.ref.oid]
        eng.read(c)
        segs = list(c.segs)

        def at(i, j):
            t = z3.RealVal(0)
            for g in segs:
                (p, q), v = g.elem
                if len(g.bvs) == 1 and isz(p) and p.eq(g.bvs[0]):
                    sub = [(g.bvs[0], i)]
                    t = z3.If(tob(And(z3.substitute(tob(g.guard), *sub), (z3.substitute(q, *sub) if isz(q) else q) == j)), z3.substitute(v, *sub), t)
                elif not g.bvs:
                    t = z3.If(tob(And(g.guard, i == p, j == q)), v, t)
                else:
                    raise Unsupported("entries of a matrix")
            return t
        return MatV(at, self.n)
    def attr(self, eng, st, a):
        return self.frozen(eng, st).attr(eng, st, a)
    def item(self, eng, st, k):
        return self.frozen(eng, st).item(eng, st, k)
    def bin(self, eng, st, op, o, swap):
        raise Unsupported("matrix arithmetic")


def mat(eng, st, x):
    if isinstance(x, ZeroMat):
        return x.frozen(eng, st)
    if isinstance(x, MatV):
        return x
    raise Unsupported("matrix")


def diagonal(eng, st, A):
    i, j = z3.Const(fresh_name("i"), I), z3.Const(fresh_name("j"), I)
    s = z3.Solver()
    s.set("timeout", 2000)
    s.add(*[tob(p) for p in st.pc if not (isz(p) and has_quant(p))])
    s.add(i != j, i >= 0, j >= 0, i < toint(A.n), j < toint(A.n), *A.facts(i, j), A.at(i, j) != 0)
    return s.check() == z3.unsat


def toint(n):
    return z3.IntVal(n) if isinstance(n, int) else n


def mm(eng, st, a, kw):
    A, C = mat(eng, st, a[0]), mat(eng, st, a[1])
    if diagonal(eng, st, A):
        return [(st, MatV(lambda i, j: A.at(i, i) * C.at(i, j), A.n, lambda i, j: A.facts(i, i) + C.facts(i, j)))]
    if diagonal(eng, st, C):
        return [(st, MatV(lambda i, j: A.at(i, j) * C.at(j, j), A.n, lambda i, j: A.facts(i, j) + C.facts(j, j)))]
    raise Unsupported("matrix product")


class CovV(MatV):
    def __init__(self):
        MatV.__init__(self, lambda i, j: COV(nat(i), nat(j)), NN)


def all_rows(eng, st, v):
    """is the stack exactly the tested nodes in order?"""
    if not isinstance(v, Stack) or v.dim != 0 or len(v.segs) != 1 or len(v.segs[0].bvs) != 1 or not isinstance(v.segs[0].elem, VecV):
        raise Mismatch("rows of the covariance matrix")
    g = v.segs[0]
    i = g.bvs[0]
    if i.sort() != I or not g.elem.id.eq(nat(i)) or not z3.simplify(tob(g.guard)).eq(z3.simplify(rng(i))):
        s = z3.Solver()
        s.set("timeout", 2000)
        s.add(*[tob(p) for p in st.pc])
        s.add(NN >= 2, z3.Not(z3.And(tob(g.guard) == rng(i), z3.Implies(rng(i), g.elem.id == nat(i)))))
        if i.sort() != I or s.check() != z3.unsat:
            raise Mismatch(f"rows of the covariance matrix {g}")


def rng(i, lo=0):
    return z3.And(i >= lo, i < NN)


def cov(eng, st, a, kw):
    if kw or len(a) != 1:
        raise Unsupported("torch.cov")
    all_rows(eng, st, a[0])
    return [(st, CovV())]


def det(eng, st, a, kw):
    if not isinstance(a[0], CovV):
        raise Unsupported("determinant")
    return [(st, DET)]


def inverse(eng, st, a, kw):
    if not isinstance(a[0], CovV):
        raise Unsupported("inverse")
    return [(st, MatV(lambda i, j: INV(i, j), NN, lambda i, j: [INV(i, j) == INV(j, i)] + ([INV(i, i) > 0] if i.eq(j) else [])))]


def t_diag(eng, st, a, kw):
    if isinstance(a[0], DiagOf):          # matrix with this diagonal
        d = a[0].m
        return [(st, MatV(lambda i, j: z3.If(i == j, d.at(i, i), 0), d.n, lambda i, j: d.facts(i, i)))]
    return [(st, DiagOf(mat(eng, st, a[0])))]


def zeros(eng, st, a, kw):
    shape = a[0] if len(a) == 1 and isinstance(a[0], tuple) else tuple(a)
    if len(shape) != 2 or not set(kw) <= {"dtype"}:
        raise Unsupported("zeros")
    s = st.copy()
    return [(s, ZeroMat(s.new(Cont("dict")), shape[0]))]


def stack(eng, st, a, kw):
    d = kw.get("dim", a[1] if len(a) > 1 else 0)
    if not isinstance(d, int):
        raise Unsupported("stack")
    s = st.copy()
    return [(s, Stack([Seg(g.bvs, g.guard, g.elem) for g in eng.segs(a[0], s)], d % 2))]


def t_mean(eng, st, a, kw):
    return eng.call(MethV(a[0], "mean"), a[1:], kw, st)


def lift(name):
    def h(eng, st, a, kw):
        return eng.call(MethV(a[0], name), a[1:], kw, st)
    return h


def t_sqrt(eng, st, a, kw):
    if isinstance(a[0], ZeroMat):
        a = [a[0].frozen(eng, st)]
    return MATH["sqrt"](eng, st, a, kw)


class NodesL:
    """the nodes under test: a list of unknown length without repetition"""
    closed = True
    def item(self, eng, st, k):
        if isinstance(k, int) and 0 <= k < 2:
            return [(st, nat(z3.IntVal(k)))]
        if isz(k) and k.sort() == I:
            return eng.guarded(st, rng(k), lambda s: nat(k), "IndexError")
        raise Unsupported("index of a tested node")
    def slice(self, eng, st, ps):
        lo, hi, step = ps
        if step is not None or not (lo is None or isinstance(lo, int) and lo >= 0) or not (hi is None or isinstance(hi, int) and 0 <= hi <= 2):
            raise Unsupported("slice of the tested nodes")
        s = st.copy()
        if hi is not None:
            return [(s, s.new(Cont("list", [Seg((), True, nat(z3.IntVal(i))) for i in range(lo or 0, hi)])))]
        i = z3.Const(fresh_name("i"), I)
        return [(s, s.new(Cont("list", [Seg([i], rng(i, lo or 0), nat(i))])))]
    def iter_segs(self, eng, st):
        i = z3.Const(fresh_name("i"), I)
        return [Seg([i], rng(i), nat(i))]
    def length(self, eng, st):
        return [(st, NN)]
    def truth(self, eng, st):
        return True
    def is_none(self, eng, st):
        return False


class MetaV:
    """metadata of an edge: what is stored there, and what the function adds"""
    closed = True
    def __init__(self, t, ref):
        self.t, self.ref = t, ref
    def item(self, eng, st, k):
        if not isinstance(k, str):
            raise Unsupported("key of edge metadata")
        if st.store[self.ref.oid].segs:
            c = st.store[self.ref.oid]
            if all(not g.bvs and g.guard is True and isinstance(g.elem[0], str) for g in c.segs):
                for g in reversed(c.segs):
                    if g.elem[0] == k:
                        return [(st, g.elem[1])]
        if k != "correlation":
            raise Unsupported(f"key {k} of edge metadata")
        return eng.guarded(st, HAS(self.t), lambda s: CORR(self.t), "KeyError")
    def set_item(self, eng, st, k, v):
        return eng.setitem(self.ref, k, v, st)
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name == "copy" and not args:
            s = st.copy()
            return [(s, MetaV(self.t, s.new(Cont("dict", st.store[self.ref.oid].segs))))]
        if name == "get" and args and isinstance(args[0], str):
            a, b = eng.split(st, HAS(self.t))
            out = [] if a is None else self.item(eng, a, args[0])
            return out + ([] if b is None else [(b, args[1] if len(args) > 1 else None)])
        if name == "update" and len(args) == 1:
            s = st.copy()
            eng.mutate(s, self.ref).segs.extend(eng.segs_of_dict(args[0], s))
            return [(s, None)]
        raise Unsupported(f"metadata.{name}")
    def unpack(self, eng, st):
        return (lambda ref: MetaV(self.t, ref)), list(st.store[self.ref.oid].segs)
    def contains(self, eng, st, x):
        if x == "correlation":
            return HAS(self.t)
        raise Unsupported("key of edge metadata")
    def truth(self, eng, st):
        raise Unsupported("truth of edge metadata")
    def is_none(self, eng, st):
        return False
    def freeze(self, eng, st):
        return FrozenMeta(self.t, list(st.store[self.ref.oid].segs))


class FrozenMeta:
    def __init__(self, t, segs):
        self.t, self.segs = t, segs


class EdgeValue:
    def apply(self, eng, st, bound):
        q = QUERIES[gk("edge_value")]
        out = []
        for s, v in q.apply(eng, st, bound):
            if isz(v):
                s = s.copy()
                v = MetaV(v, s.new(Cont("dict")))
            out.append((s, v))
        return out


def engine(ctx, target, contracts=None):
    eng = ctx.engine({**QUERIES, gk("edge_value"): EdgeValue(), **(contracts or {})}, target)
    eng.node_values = lambda n: VecV(n.id)
    eng.numbers = True
    for m in ("math", "numpy", "np", "torch"):
        for n, h in MATH.items():
            eng.externals[f"{m}.{n}"] = h
    E = eng.externals
    E["numpy.abs"] = E["torch.abs"] = one(absr)
    for p in ("scipy.stats", "stats"):
        E[f"{p}.norm.cdf"] = one(PHI, phi_facts)
        E[f"{p}.norm.sf"] = one(lambda x: 1 - PHI(x), phi_facts)
        E[f"{p}.t.ppf"] = t_ppf
    E["builtins.round"] = m_round
    E["builtins.float"] = lambda e, st, a, k: [(st, num(a[0]))]
    E["torch.clamp"] = E["torch.clip"] = E["numpy.clip"] = clamped
    E["builtins.min"] = lambda e, st, a, k: [(st, minmax(a, lambda x, y: x <= y))]
    E["builtins.max"] = lambda e, st, a, k: [(st, minmax(a, lambda x, y: x >= y))]
    E["torch.cov"], E["torch.stack"], E["torch.zeros"], E["torch.mm"], E["torch.matmul"] = cov, stack, zeros, matmul, matmul
    E["torch.dot"], E["torch.norm"], E["torch.linalg.norm"] = t_dot, t_norm, t_norm
    E["torch.det"] = E["torch.linalg.det"] = det
    E["torch.inverse"] = E["torch.linalg.inv"] = inverse
    E["torch.diag"], E["torch.mean"], E["torch.sqrt"] = t_diag, t_mean, t_sqrt
    E["torch.std"] = lift("std")
    E["torch.linalg.lstsq"] = lstsq
    E["copy.deepcopy"] = E["copy.copy"] = lift("copy")
    E["builtins.dict"] = lambda e, st, a, k: copy_dict(e, st, a, k)
    return eng


def copy_dict(eng, st, a, kw):
    from .builtins_model import _dict
    if len(a) == 1 and isinstance(a[0], MetaV):
        s = st.copy()
        return [(s, MetaV(a[0].t, s.new(Cont("dict", list(st.store[a[0].ref.oid].segs) + [Seg((), True, kv) for kv in kw.items()]))))]
    return _dict(eng, st, a, kw)


def clamped(eng, st, a, kw):
    b = dict(zip(("x", "min", "max"), a), **kw)
    if set(b) != {"x", "min", "max"}:
        raise Unsupported("clamp")
    x, lo, hi = num(b["x"]), num(b["min"]), num(b["max"])
    return [(st, z3.If(x < lo, lo, z3.If(x > hi, hi, x)))]


def minmax(a, le):
    if len(a) != 2:
        raise Unsupported("min/max")
    x, y = num(a[0]), num(a[1])
    return z3.If(le(x, y), x, y)


# ---------------------------------------------------------------- regression

class FitV:
    def __init__(self, id, key):
        self.id, self.key = id, key


class ResV:
    """what is left of a vector after the regression on a stack"""
    dot = z3.Function("dot_of_residuals", Id, Id, R)
    norm = z3.Function("norm_of_residual", Id, R)
    def __init__(self, id, key):
        self.id, self.key = id, key
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name == "norm" and not args and not kws:
            return t_norm(eng, st, [self], {})
        if name == "dot" and len(args) == 1:
            return t_dot(eng, st, [self, args[0]], {})
        raise Unsupported(f"tensor.{name}")


def t_dot(eng, st, a, kw):
    x, y = a
    if not (isinstance(x, ResV) and isinstance(y, ResV) and x.key == y.key):
        raise Unsupported("scalar product")
    s = st.copy()
    s.pc += [ResV.dot(x.id, y.id) == ResV.dot(y.id, x.id)]
    return [(s, ResV.dot(x.id, y.id))]


def t_norm(eng, st, a, kw):
    if len(a) != 1 or kw or not isinstance(a[0], ResV):
        raise Unsupported("norm")
    s = st.copy()
    s.pc += [ResV.norm(a[0].id) > 0]          # no perfect fit
    return [(s, ResV.norm(a[0].id))]


class Solved:
    def __init__(self, A, b):
        self.A, self.b = A, b
    def attr(self, eng, st, a):
        if a == "solution":
            return [(st, SolV(self.A, self.b))]
        raise Unsupported(f"least squares .{a}")
    def item(self, eng, st, k):
        if k == 0:
            return [(st, SolV(self.A, self.b))]
        raise Unsupported("least squares result")


class SolV:
    """coefficients, one per column"""
    def __init__(self, A, b, idx=()):
        self.A, self.b, self.idx = A, b, idx
    def item(self, eng, st, k):
        k = k if isinstance(k, tuple) else (k,)
        if any(not isinstance(i, int) for i in k) or len(self.idx) + len(k) > (2 if self.b.column else 1):
            raise Unsupported("index of a coefficient")
        return [(st, SolV(self.A, self.b, self.idx + k))]
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name == "item" and not args and self.full():
            return [(st, self)]
        raise Unsupported(f"coefficient.{name}")
    def full(self):
        return len(self.idx) == (2 if self.b.column else 1)


def lstsq(eng, st, a, kw):
    if len(a) != 2 or not set(kw) <= {"driver", "rcond"} or not isinstance(a[0], Stack) or not isinstance(a[1], VecV) or a[0].dim != 1:
        raise Unsupported("least squares")
    return [(st, Solved(a[0], a[1]))]


def matmul(eng, st, a, kw):
    x, y = a
    if isinstance(x, SolV) and isinstance(y, Stack) and not x.idx and y.dim == 0 and x.A.key == y.key and not x.b.column and not x.A.centred:
        return [(st, FitV(x.b.id, y.key))]
    if isinstance(y, SolV) and isinstance(x, Stack) and not y.idx and x.dim == 1 and y.A.key == x.key and not y.b.column and not y.A.centred:
        return [(st, FitV(y.b.id, x.key))]
    return mm(eng, st, a, kw)


def exc(v):
    """raising because of a number (division by zero, logarithm of a negative number) is a question about numbers"""
    return f"{v.exc} {NUM}" if v.exc in ("ValueError", "ZeroDivisionError", "OverflowError") else v.exc


# ---------------------------------------------------------------- results

def result(r):
    if not isinstance(r, RecV) or r.cls != "TestResult":
        raise Unsupported(f"result {r!r}")
    f = r.fields
    if not (isinstance(f.get("action"), EnumC) and isinstance(f.get("u"), NodeV) and isinstance(f.get("v"), NodeV)):
        raise Unsupported("result fields")
    return f["action"].name, f["u"].id, f["v"].id, f.get("data")


def as_list(eng, s, v):
    if v is None:
        return []
    if isinstance(v, RecV):
        return [Seg((), True, v)]
    return [g for g in eng.segs(v, s) if g.elem is not None]


def field(d, key):
    """value of a key of a data dictionary"""
    if isinstance(d, Cont) and d.kind == "dict" and all(not g.bvs and g.guard is True and isinstance(g.elem[0], str) for g in d.segs):
        for g in reversed(d.segs):
            if g.elem[0] == key:
                return g.elem[1]
        return None
    raise Unsupported("data of a result")


def sep_ok(eng, s, d, want, m, pc):
    """the recorded separating set is exactly {x | want(x)}"""
    l = field(d, "separatedBy")
    if l is None:
        m("the separating set is recorded", pc, False)
        return
    if not (isinstance(l, Cont) or isinstance(l, CRef)):
        raise Unsupported("separating set")
    x = z3.Const(fresh_name("x"), Id)
    got = Or(*[Exists(g.bvs, And(g.guard, nid(g.elem) == x)) for g in eng.segs(l, s)])
    m("the recorded separating set is the conditioning set that was tested", pc, z3.ForAll([x], tob(Iff(got, want(x)))))


def nid(e):
    if isinstance(e, NodeV):
        return e.id
    raise Unsupported("a separating set holds nodes")


def no_change(h0, s, m):
    if not heap_same(h0, s.heap):
        for k in HEAP:
            if not h0[k].eq(s.heap[k]):
                m(f"deciding does not change {k}", s.pc, h0[k] == s.heap[k])


def apps(t, f):
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().eq(f):
            out.append(x)
        todo += x.children()
    return out


FNS = [LOG, SQRT, PHI]


def number_facts(terms, want, m, lab, pc):
    """equality of the arguments of log and sqrt in the code and in the specification, as obligations of their own"""
    hyps = []
    for f in (LOG,):
        ws = apps(want, f)
        done = []
        for t in terms:
            for a in apps(t, f):
                if any(a.eq(b) for b in done + ws):
                    continue
                done.append(a)
                if len(ws) == 1:
                    m(f"{lab} argument of {f.name()} {NUM}", pc, a.arg(0) == ws[0].arg(0))
                    hyps.append(a == ws[0])
    return hyps


def p12_engine(ctx, key):
    return engine(ctx, key)


def corr_of(V, a, b):
    return CORR(z3.If(V.live(a, b), V.meta(a, b), V.meta(b, a)))


def skeleton(V):
    """the tests work on the undirected graph: both directions, equal values"""
    u, v = z3.Consts("su sv", Id)
    return [z3.ForAll([u, v], tob(V.live(u, v)) == tob(V.live(v, u)), patterns=[tob(V.raw(u, v))]) if False else z3.ForAll([u, v], tob(Implies(V.live(u, v), And(V.live(v, u), CORR(V.meta(u, v)) == CORR(V.meta(v, u)), HAS(V.meta(u, v))))))]


def cls_fn(ctx, rel, cls, name="process"):
    c = ctx.prog.mod(rel).classes.get(cls)
    fn = ctx.prog.method(c, name) if c is not None else None
    if fn is None:
        raise Unsupported(f"{cls}.{name} not found")
    return c, fn


def close(eng, ctx, lab):
    for o in eng.obls:
        yield Obl(f"{lab}: {o.name}", o.hyps, o.goal)
    ctx.close(eng)


def correlation_unit():
    def gen(ctx):
        lab = "CorrelationCoefficientTest"
        c, fn = cls_fn(ctx, IT, lab)
        eng = engine(ctx, fn.key)
        st = ctx.start(eng)
        out = []
        m = lambda n, pc, g: out.append(Obl(f"{lab}: {n}", pc, g))
        x, y = z3.Consts("x y", Id)
        V = View(st.heap)
        r = corr_of(V, x, y)
        st.pc += [ACT_DISTINCT, tob(V.node(x)), tob(V.node(y)), x != y, r < 1, r > -1, M >= 4] + skeleton(V)
        ctx.vacuity.append((lab, list(st.pc)))
        h0 = dict(st.heap)
        p = pval(r, 0)
        for s, v in eng.call_fn(FuncV(fn, ObjV("step", c, {"threshold": THR})), [(x, y), GraphV()], {}, st):
            if isinstance(v, Raised):
                m(f"never raises {exc(v)} for adjacent nodes", s.pc, Not(V.adj(x, y)))
                continue
            no_change(h0, s, m)
            decide(eng, s, v, m, lambda a, b: Or(And(a == x, b == y), And(a == y, b == x)), lambda a, b: V.adj(a, b), lambda q: False, p > THR, V.adj(x, y), p)
        yield from out
        yield from close(eng, ctx, lab)
    return Unit("CorrelationCoefficientTest", gen, keys=[f"{IT}:CorrelationCoefficientTest.process"])


def decide(eng, s, v, m, pair, adj, sep, accept, must, p):
    """a single decision: removal exactly if `accept`"""
    res = as_list(eng, s, v)
    removed = False
    for g in res:
        a, u, w, d = result(g.elem)
        pc = s.pc + [g.guard]
        if a == "DO_NOTHING":
            continue
        if a != "REMOVE_EDGE_UNDIRECTED":
            m(f"proposes removals only (not {a})", pc, False)
            continue
        m("only the edge between the two tested nodes is removed", pc, pair(u, w))
        m("only existing edges are removed", pc, adj(u, w))
        sep_ok(eng, s, d, sep, m, pc)
        hy = number_facts([q for q in s.pc if isz(q)], p, m, "removal:", pc)
        m(f"an edge is removed only if the p-value accepts independence {NUM}", pc + hy, accept)
        removed = Or(removed, Exists(g.bvs, g.guard))
    if len([1 for g in res if result(g.elem)[0] != "DO_NOTHING"]) > 1:
        raise Mismatch("one decision")
    hy = number_facts([q for q in s.pc if isz(q)], p, m, "no removal:", s.pc)
    m(f"an edge is removed if the p-value accepts independence {NUM}", s.pc + hy + [must, accept], removed)


def parcorr(rxy, rxz, ryz):
    return (rxy - rxz * ryz) / SQRT((1 - rxz * rxz) * (1 - ryz * ryz))


def partial_unit():
    def gen(ctx):
        lab = "PartialCorrelationTest"
        c, fn = cls_fn(ctx, IT, lab)
        eng = engine(ctx, fn.key)
        st = ctx.start(eng)
        out = []
        m = lambda n, pc, g: out.append(Obl(f"{lab}: {n}", pc, g))
        x, y, z = ns = z3.Consts("x y z", Id)
        V = View(st.heap)
        R2 = lambda a, b: corr_of(V, a, b)
        cases = [(x, y, z), (x, z, y), (y, z, x)]
        st.pc += [ACT_DISTINCT, z3.Distinct(x, y, z), M >= 5] + [tob(V.node(n)) for n in ns] + skeleton(V)
        for a, b, w in cases:
            st.pc += [R2(a, b) < 1, R2(a, b) > -1, R2(a, b) == R2(b, a)]
        pr = {}
        for a, b, w in cases:
            q = (1 - R2(a, w) * R2(a, w)) * (1 - R2(b, w) * R2(b, w))
            t = parcorr(R2(a, b), R2(a, w), R2(b, w))
            # facts about these numbers: the denominator is positive (stored correlations are within (-1, 1)), no perfect partial correlation (known finding)
            st.pc += [SQRT(q) > 0, SQRT(q) * SQRT(q) == q, t < 1, t > -1]
            pr[(a, b)] = t
        ctx.vacuity.append((lab, list(st.pc)))
        h0 = dict(st.heap)
        full = And(*[V.adj(a, b) for a, b, _ in cases])
        for s, v in eng.call_fn(FuncV(fn, ObjV("step", c, {"threshold": THR})), [(x, y, z), GraphV()], {}, st):
            if isinstance(v, Raised):
                m(f"never raises {exc(v)}", s.pc, False)
                continue
            no_change(h0, s, m)
            rem = []
            for g in as_list(eng, s, v):
                a, u, w, d = result(g.elem)
                pc = s.pc + [g.guard]
                if a == "DO_NOTHING":
                    continue
                if a != "REMOVE_EDGE_UNDIRECTED":
                    m(f"proposes removals only (not {a})", pc, False)
                    continue
                same = lambda p, q: Or(And(u == p, w == q), And(u == q, w == p))
                m("only the edge between two tested nodes is removed", pc, Or(*[same(p, q) for p, q, _ in cases]))
                m("only existing edges are removed", pc, V.adj(u, w))
                sep_ok(eng, s, d, lambda e: And(Or(e == x, e == y, e == z), e != u, e != w), m, pc)
                for p, q, o in cases:
                    t = pval(pr[(p, q)], 1)
                    m(f"an edge is removed only if the p-value accepts independence {NUM}", pc + [same(p, q)], t > THR)
                rem.append((g, u, w))
            for p, q, o in cases:
                t = pval(pr[(p, q)], 1)
                got = Or(*[Exists(g.bvs, And(g.guard, Or(And(u == p, w == q), And(u == q, w == p)))) for g, u, w in rem])
                m(f"an edge is removed if the p-value accepts independence {NUM}", s.pc + [full, t > THR], got)
            for i, (g, u, w) in enumerate(rem):
                for h, u2, w2 in rem[:i]:
                    m("an edge is removed once", s.pc + [g.guard, h.guard], Not(Or(And(u == u2, w == w2), And(u == w2, w == u2))))
        yield from out
        yield from close(eng, ctx, lab)
    return Unit("PartialCorrelationTest", gen, keys=[f"{IT}:PartialCorrelationTest.process"])


def many_pre(V, st):
    i, j = z3.Consts("ni nj", I)
    st.pc += [ACT_DISTINCT, NN >= 3, M >= NN + 3,
              z3.ForAll([i], z3.Implies(rng(i), tob(V.node(nat(i)))), patterns=[nat(i)]),
              z3.ForAll([i, j], z3.Implies(z3.And(rng(i), rng(j), nat(i) == nat(j)), i == j), patterns=[z3.MultiPattern(nat(i), nat(j))])] + skeleton(V)


def rest(x):
    i = z3.Const(fresh_name("i"), I)
    return z3.Exists([i], z3.And(rng(i, 2), nat(i) == x))


def matrix_unit():
    def gen(ctx):
        lab = "ExtendedPartialCorrelationTestMatrix"
        c, fn = cls_fn(ctx, IT, lab)
        eng = engine(ctx, fn.key)
        st = ctx.start(eng)
        out = []
        m = lambda n, pc, g: out.append(Obl(f"{lab}: {n}", pc, g))
        V = View(st.heap)
        many_pre(V, st)
        a, b = nat(z3.IntVal(0)), nat(z3.IntVal(1))
        i0, i1 = z3.IntVal(0), z3.IntVal(1)
        d = INV(i0, i0) * INV(i1, i1)
        r = -INV(i0, i1) / SQRT(d)
        # the inverse of a covariance matrix is symmetric with a positive diagonal; no perfect partial correlation (known finding)
        st.pc += [INV(i0, i0) > 0, INV(i1, i1) > 0, INV(i0, i1) == INV(i1, i0), SQRT(d) > 0, SQRT(d) * SQRT(d) == d, r < 1, r > -1]
        ctx.vacuity.append((lab, list(st.pc)))
        h0 = dict(st.heap)
        p = pval(r, NN - 2)
        i = z3.Const("mi", I)
        must = And(V.adj(a, b), DET != 0, z3.ForAll([i], z3.Implies(rng(i, 2), tob(V.adj(nat(i), a)))))
        for s, v in eng.call_fn(FuncV(fn, ObjV("step", c, {"threshold": THR})), [NodesL(), GraphV()], {}, st):
            if isinstance(v, Raised):
                m(f"never raises {exc(v)}", s.pc, False)
                continue
            no_change(h0, s, m)
            decide(eng, s, v, m, lambda u, w: Or(And(u == a, w == b), And(u == b, w == a)), lambda u, w: V.adj(u, w), rest, p > THR, must, p)
        yield from out
        yield from close(eng, ctx, lab)
    return Unit("ExtendedPartialCorrelationTestMatrix", gen, keys=[f"{IT}:ExtendedPartialCorrelationTestMatrix.process"])


TT, CT = z3.Function("t_statistic", R, R, R, R, R), z3.Function("critical_t", R, R, R, R, R)


def t_accept(n, k, r, thr):
    """independence is accepted by the t statistic (correlations that round to 1 count as perfect: dependent)"""
    dof = n - 2 - k
    t = r * SQRT(dof / (1 - r * r))
    return z3.And(absr(ROUND(r, z3.IntVal(4))) != 1, absr(t) < TPPF(1 - thr / 2, dof))


class CriticalT:
    def apply(self, eng, st, b):
        a = [num(b[x]) for x in ("sample_size", "nb_of_control_vars", "par_corr", "threshold")]
        s = st.copy()
        s.pc += [(absr(TT(*a)) < CT(*a)) == t_accept(*a)]
        return [(s, (TT(*a), CT(*a)))]


def critical_unit():
    def gen(ctx):
        fn = ctx.prog.mod(MU).funcs.get("get_t_and_critical_t")
        if fn is None:
            raise Unsupported("get_t_and_critical_t not found")
        eng = engine(ctx, fn.key)
        st = ctx.start(eng, False)
        lab = "get_t_and_critical_t"
        n, k = z3.Consts("n k", I)
        r = z3.Const("par_corr", R)
        q = toreal(n - 2 - k) / (1 - r * r)
        near = absr(ROUND(r, z3.IntVal(4))) == 1
        h = z3.RealVal("0.00005")
        st.pc += [n - 2 - k > 0, r <= 1, r >= -1, ROUND(r, z3.IntVal(4)) - r <= h, r - ROUND(r, z3.IntVal(4)) <= h, THR > 0, THR < 1]
        ctx.vacuity.append((lab, list(st.pc)))
        for s, v in eng.call_fn(FuncV(fn), [n, k, r, THR], {}, st):
            if isinstance(v, Raised):
                yield Obl(f"{lab}: never raises {exc(v)}", s.pc, False)
                continue
            if not isinstance(v, tuple) or len(v) != 2:
                raise Mismatch("a pair of numbers")
            t, c = num(v[0]), num(v[1])
            got = absr(t) < c
            yield Obl(f"{lab}: perfect correlations are never independent {NUM}", s.pc + [near], z3.Not(got))
            s2 = s.pc + [z3.Not(near)]
            for e in apps(t, SQRT):
                if not e.arg(0).eq(q):
                    yield Obl(f"{lab}: argument of the root {NUM}", s2, e.arg(0) == q)
                    s2 = s2 + [e == SQRT(q)]
            yield Obl(f"{lab}: independence is accepted exactly by the t statistic {NUM}", s2, got == t_accept(toreal(n), toreal(k), r, THR))
        yield from close(eng, ctx, lab)
    return Unit("get_t_and_critical_t", gen, keys=[f"{MU}:get_t_and_critical_t"])


class PartialByRegression:
    def apply(self, eng, st, b):
        x, y, z = b["x"], b["y"], b["z"]
        if not (isinstance(x, VecV) and isinstance(y, VecV) and isinstance(z, Stack) and z.dim == 0 and not z.centred):
            raise Mismatch("arguments of the regression")
        f = z3.Const("fa", Id)
        a0, b0 = nat(z3.IntVal(0)), nat(z3.IntVal(1))
        got = Or(*[Exists(g.bvs, And(g.guard, g.elem.id == f)) for g in z.segs])
        eng.obls.append(Obl(f"the partial correlation is that of the two nodes given the others {NUM}", list(st.pc),
                            And(Or(And(x.id == a0, y.id == b0), And(x.id == b0, y.id == a0)), z3.ForAll([f], tob(Iff(got, rest(f)))))))
        return [(st, PCR)]


def by_regression_unit():
    def gen(ctx):
        fn = ctx.prog.mod(IT).funcs.get("partial_correlation_regression")
        if fn is None:
            raise Unsupported("partial_correlation_regression not found")
        eng = engine(ctx, fn.key)
        st = ctx.start(eng, False)
        lab = "partial_correlation_regression"
        x, y, w = z3.Consts("x y w", Id)
        z = Stack([Seg([w], z3.Function("given", Id, B)(w), VecV(w))], 0)
        for s, v in eng.call_fn(FuncV(fn), [VecV(x), VecV(y), z], {}, st):
            if isinstance(v, Raised):
                yield Obl(f"{lab}: never raises {exc(v)}", s.pc, False)
                continue
            want = ResV.dot(x, y) / (ResV.norm(x) * ResV.norm(y))
            yield Obl(f"{lab}: the correlation of what the regression on z leaves of x and y {NUM}", s.pc, num(v) == want)
        yield from close(eng, ctx, lab)
    return Unit("partial_correlation_regression", gen, keys=[f"{IT}:partial_correlation_regression"])


def regression_unit():
    def gen(ctx):
        lab = "ExtendedPartialCorrelationTestLinearRegression"
        c, fn = cls_fn(ctx, IT, lab)
        con = {}
        for rel, n, k in ((IT, "partial_correlation_regression", PartialByRegression()), (MU, "get_t_and_critical_t", CriticalT())):
            f = ctx.prog.mod(rel).funcs.get(n)
            if f is not None:
                con[f.key] = k
        eng = engine(ctx, fn.key, con)
        st = ctx.start(eng)
        out = []
        m = lambda n, pc, g: out.append(Obl(f"{lab}: {n}", pc, g))
        V = View(st.heap)
        many_pre(V, st)
        a, b = nat(z3.IntVal(0)), nat(z3.IntVal(1))
        ctx.vacuity.append((lab, list(st.pc)))
        h0 = dict(st.heap)
        acc = t_accept(toreal(M), toreal(NN - 2), PCR, THR)
        for s, v in eng.call_fn(FuncV(fn, ObjV("step", c, {"threshold": THR})), [NodesL(), GraphV()], {}, st):
            if isinstance(v, Raised):
                m(f"never raises {exc(v)}", s.pc, False)
                continue
            no_change(h0, s, m)
            decide(eng, s, v, m, lambda u, w: Or(And(u == a, w == b), And(u == b, w == a)), lambda u, w: V.adj(u, w), rest, acc, V.adj(a, b), acc)
        yield from out
        yield from close(eng, ctx, lab)
    return Unit("ExtendedPartialCorrelationTestLinearRegression", gen, keys=[f"{IT}:ExtendedPartialCorrelationTestLinearRegression.process"])


# ---------------------------------------------------------------- statistics stored on edges (P13)

def stored(r, key):
    """(base metadata, value stored under key, other keys written)"""
    d = r
    if not isinstance(d, FrozenMeta):
        raise Mismatch("data of the result")
    segs = d.segs
    if any(g.bvs or g.guard is not True or not isinstance(g.elem[0], str) for g in segs):
        raise Mismatch("values written")
    keys = {g.elem[0] for g in segs}
    val = [g.elem[1] for g in segs if g.elem[0] == key]
    return d.t, (val[-1] if val else None), keys - {key}


def pearson_unit():
    def gen(ctx):
        lab = "CalculatePearsonCorrelations"
        c, fn = cls_fn(ctx, CALC, lab)
        eng = engine(ctx, fn.key)
        st = ctx.start(eng)
        out = []
        m = lambda n, pc, g: out.append(Obl(f"{lab}: {n}", pc, g))
        x, y = z3.Consts("x y", Id)
        V = View(st.heap)
        st.pc += [ACT_DISTINCT, tob(V.node(x)), tob(V.node(y)), x != y, tob(V.adj(x, y)), STD(x) > 0, STD(y) > 0, CMEAN(x, y) == CMEAN(y, x)]
        ctx.vacuity.append((lab, list(st.pc)))
        h0 = dict(st.heap)
        pearson = CMEAN(x, y) / (STD(x) * STD(y))
        clamp = z3.If(pearson < -1, z3.RealVal(-1), z3.If(pearson > 1, z3.RealVal(1), pearson))
        for s, v in eng.call_fn(FuncV(fn, ObjV("step", c, {})), [(x, y), GraphV()], {}, st):
            if isinstance(v, Raised):
                m(f"never raises {exc(v)}", s.pc, False)
                continue
            no_change(h0, s, m)
            res = as_list(eng, s, v)
            if len(res) != 1 or res[0].bvs or res[0].guard is not True:
                raise Mismatch("one result")
            a, u, w, d = result(res[0].elem)
            m("the value is stored on an edge (UPDATE_EDGE)", s.pc, a == "UPDATE_EDGE")
            m("the value is stored on the edge of the two nodes", s.pc, Or(And(u == x, w == y), And(u == y, w == x)))
            base, val, others = stored(d, "correlation")
            m("the other values of the edge are kept", s.pc, base == z3.If(V.live(u, w), V.meta(u, w), V.meta(w, u)))
            m("no other value is written", s.pc, not others)
            if val is None:
                m("a correlation is stored", s.pc, False)
                continue
            val = num(val)
            m("the stored correlation lies in [-1, 1]", s.pc, z3.And(val >= -1, val <= 1))
            m(f"the stored correlation is Pearson's {NUM}", s.pc, val == clamp)
        yield from out
        yield from close(eng, ctx, lab)
    return Unit("CalculatePearsonCorrelations", gen, keys=[f"{CALC}:CalculatePearsonCorrelations.process"])


def index_list(eng, st, c, k):
    """element at a position of a list without repetition"""
    if c.kind != "list" or len(c.segs) != 1 or len(c.segs[0].bvs) != 1 or not isinstance(c.segs[0].elem, NodeV) or not c.segs[0].elem.id.eq(c.segs[0].bvs[0]):
        raise Unsupported("index into a symbolic list")
    g = c.segs[0]
    at, ps, n = positions(eng, g)
    return [(st, NodeV(at(k)))]


def positions(eng, g):
    """positions of the elements of a list: a bijection"""
    key = tob(g.guard).sexpr().replace(g.bvs[0].sexpr(), "$")
    if not hasattr(eng, "_pos"):
        eng._pos = {}
    if key not in eng._pos:
        u = fresh_name("l")
        at, ps, n = z3.Function(f"at_{u}", I, Id), z3.Function(f"position_{u}", Id, I), z3.Const(f"len_{u}", I)
        i, x = z3.Const("pi", I), z3.Const("px", Id)
        gd = lambda t: z3.substitute(tob(g.guard), (g.bvs[0], t))
        eng.axioms += [n >= 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(gd(at(i)), ps(at(i)) == i)), patterns=[at(i)]),
                       z3.ForAll([x], z3.Implies(gd(x), z3.And(0 <= ps(x), ps(x) < n, at(ps(x)) == x)), patterns=[ps(x)])]
        eng._pos[key] = (at, ps, n)
    return eng._pos[key]


def length_hook(eng, v):
    g = v.segs
    if len(g) == 1 and len(g[0].bvs) == 1 and isinstance(g[0].elem, NodeV) and g[0].elem.id.eq(g[0].bvs[0]):
        return positions(eng, g[0])[2]
    raise Unsupported("length of a symbolic collection")


def effect_unit():
    def gen(ctx):
        lab = "ComputeDirectEffectsInDAGsMultivariateRegression"
        c, fn = cls_fn(ctx, REG, lab)
        eng = engine(ctx, fn.key)
        eng.index_hook, eng.length_hook = index_list, length_hook
        st = ctx.start(eng)
        out = []
        m = lambda n, pc, g: out.append(Obl(f"{lab}: {n}", list(eng.axioms) + pc, g))
        x, y = z3.Consts("x y", Id)
        V = View(st.heap)
        st.pc += [ACT_DISTINCT, tob(V.node(x)), tob(V.node(y)), x != y, tob(V.live(x, y))]
        ctx.vacuity.append((lab, list(st.pc)))
        h0 = dict(st.heap)
        only = Not(V.live(y, x))
        for s, v in eng.call_fn(FuncV(fn, ObjV("step", c, {})), [(x, y), GraphV()], {}, st):
            if isinstance(v, Raised):
                m(f"never raises {exc(v)}", s.pc, False)
                continue
            no_change(h0, s, m)
            res = [g for g in as_list(eng, s, v) if result(g.elem)[0] != "DO_NOTHING"]
            if not res:
                m("a direct effect is stored for every one-way edge", s.pc, Not(only))
                continue
            if len(res) != 1 or res[0].bvs or res[0].guard is not True:
                raise Mismatch("one result")
            a, u, w, d = result(res[0].elem)
            m("direct effects are stored for one-way edges only", s.pc, only)
            m("the value is stored on the directed edge (UPDATE_EDGE_DIRECTED)", s.pc, a == "UPDATE_EDGE_DIRECTED")
            m("the value is stored on that edge", s.pc, And(u == x, w == y))
            base, val, others = stored(d, "direct_effect")
            m("the other values of the edge are kept", s.pc, base == V.meta(x, y))
            m("no other value is written", s.pc, not others)
            if val is None:
                m("a direct effect is stored", s.pc, False)
                continue
            if not isinstance(val, SolV) or not val.full():
                raise Mismatch("a coefficient")
            A = val.A
            if not A.centred:
                raise Mismatch("regression without intercept")
            first = A.segs[0] if A.segs else None
            if first is None or first.bvs or first.guard is not True or not isinstance(first.elem, VecV) or any(not isinstance(g.elem, VecV) for g in A.segs):
                raise Mismatch("columns of the regression")
            m(f"the effect is the response of the regression {NUM}", s.pc, val.b.id == y)
            m(f"the coefficient is that of the cause {NUM}", s.pc, And(first.elem.id == x, val.idx[0] == 0))
            e = z3.Const(fresh_name("e"), Id)
            got = Or(*[Exists(g.bvs, And(g.guard, g.elem.id == e)) for g in A.segs[1:]])
            pos = [z3.Const(fresh_name("pos"), I) == q[1](e) for q in getattr(eng, "_pos", {}).values()]      # names the position of e
            m(f"the other columns are parents of the effect {NUM}", s.pc + [e != x, Not(V.live(e, y))], Not(got))
            m(f"every parent is a column {NUM}", s.pc + pos + [e != x, V.live(e, y)], got)
            for gi, g in enumerate(A.segs[1:]):
                h = rename_seg(g)
                m(f"no column twice {NUM}", s.pc + [g.guard], g.elem.id != x)
                m(f"no column twice {NUM}", s.pc + [g.guard, h.guard, g.elem.id == h.elem.id], And(*[p == q for p, q in zip(g.bvs, h.bvs)]))
                for g2 in A.segs[gi + 2:]:
                    m(f"no column twice {NUM}", s.pc + [g.guard, g2.guard], g.elem.id != g2.elem.id)
        yield from out
        yield from close(eng, ctx, lab)
    return Unit("ComputeDirectEffects", gen, keys=[f"{REG}:ComputeDirectEffectsInDAGsMultivariateRegression.process"])


def p12_units():
    return [correlation_unit(), partial_unit(), matrix_unit(), regression_unit(), by_regression_unit(), critical_unit()]


def p13_units():
    return [pearson_unit(), effect_unit()]
