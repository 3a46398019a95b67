"""Sorts, values, containers and symbolic states of the causy VC generator."""
import itertools
import z3

Id = z3.DeclareSort("Id")          # node ids (strings)
Ref = z3.DeclareSort("Ref")        # edge objects on the heap
EType = z3.DeclareSort("EType")    # edge types
Meta = z3.DeclareSort("Meta")      # edge metadata values
Hist = z3.DeclareSort("Hist")      # edge history lists (snoc lists of results)
Obj = z3.DeclareSort("Obj")        # any other python value
Path = z3.DeclareSort("Path")      # node sequences
B, I, R = z3.BoolSort(), z3.IntSort(), z3.RealSort()

ET_DIRECTED = z3.Const("ET_DIRECTED", EType)
ET_UNDIRECTED = z3.Const("ET_UNDIRECTED", EType)
ET_BIDIRECTED = z3.Const("ET_BIDIRECTED", EType)
ETYPES_DISTINCT = z3.Distinct(ET_DIRECTED, ET_UNDIRECTED, ET_BIDIRECTED)


class Unsupported(Exception):
    """The construct is outside the subset of the verifier (never a verdict)."""


class Escaped(Unsupported):
    """a container is changed after it was stored elsewhere"""
    def __init__(self, oid):
        super().__init__("mutation of an escaped container"); self.oid = oid


class LoopCarried(Exception):
    def __init__(self, what):
        super().__init__(str(what)); self.what = what


_ctr = itertools.count()


def fresh_name(p):
    return f"{p}!{next(_ctr)}"


def isz(x):
    return isinstance(x, z3.ExprRef)


def isbool(x):
    return isinstance(x, bool) or (isz(x) and x.sort() == B)


def tob(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def And(*xs):
    out = []
    for x in xs:
        if x is True or (isz(x) and z3.is_true(x)):
            continue
        if x is False or (isz(x) and z3.is_false(x)):
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if x is False or (isz(x) and z3.is_false(x)):
            continue
        if x is True or (isz(x) and z3.is_true(x)):
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    if a is True:
        return b
    if a is False or b is True:
        return True
    return z3.Implies(a, tob(b))


def Iff(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if a is True:
        return b
    if b is True:
        return a
    if a is False:
        return Not(b)
    if b is False:
        return Not(a)
    return a == b


def Exists(bvs, body):
    if isinstance(body, bool):
        return body
    bvs = [b for b in bvs if occurs(b, body)]
    # one point rule, top level: Exists x. (x == t and phi)  ->  phi[t/x]
    changed = True
    while changed and bvs:
        changed = False
        conj = flat_and(body)
        for c in conj:
            if z3.is_eq(c):
                l, r = c.arg(0), c.arg(1)
                for a, t in ((l, r), (r, l)):
                    hit = [b for b in bvs if b.eq(a)]
                    if hit and not occurs(hit[0], t):
                        rest = [d for d in conj if not d.eq(c)]
                        body = z3.substitute(tob(And(*rest)), (hit[0], t))
                        bvs = [b for b in bvs if not b.eq(hit[0]) and occurs(b, body)]
                        changed = True
                        break
            if changed:
                break
    if not bvs:
        return body
    if z3.is_or(body):
        return Or(*[Exists(bvs, c) for c in body.children()])
    conj = flat_and(body)
    out = [c for c in conj if not any(occurs(b, c) for b in bvs)]
    inn = [c for c in conj if any(occurs(b, c) for b in bvs)]
    return And(*out, z3.Exists(bvs, tob(And(*inn))))


def flat_and(t):
    if z3.is_and(t):
        r = []
        for c in t.children():
            r += flat_and(c)
        return r
    return [t]


def ForAll(bvs, body):
    if isinstance(body, bool):
        return body
    bvs = [b for b in bvs if occurs(b, body)]
    if not bvs:
        return body
    return z3.ForAll(bvs, body)


_occ = {}


def occurs(c, t):
    key = (c.get_id(), t.get_id())
    if key in _occ:
        return _occ[key][0]
    todo, seen, res = [t], set(), False
    cid = c.get_id()
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i == cid:
            res = True
            break
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())
    _occ[key] = (res, c, t)   # keep c,t alive so that ids stay valid
    return res


# ---------------------------------------------------------------- values

class NodeV:
    def __init__(self, id):
        self.id = id
    def __repr__(self):
        return f"Node({self.id})"


class EdgeV:
    def __init__(self, ref):
        self.ref = ref


class RecV:
    """immutable record (TestResult, ActionHistoryStep, ...)"""
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, dict(fields)
    def __repr__(self):
        return f"{self.cls}({self.fields})"


class ObjV:
    """An object with symbolic attributes; fields live in the heap under (name, attr)."""
    def __init__(self, name, cls=None, attrs=None):
        self.name, self.cls, self.attrs = name, cls, attrs or {}
    def __repr__(self):
        return f"<{self.name}>"


class GraphV:
    """the Graph instance (pydantic) itself"""
    kind = "Graph"


class ManagerV:
    """the GraphManager wrapping the graph"""
    kind = "GraphManager"


class OuterD:
    def __init__(self, name):
        self.name = name


class InnerD:
    def __init__(self, name, key):
        self.name, self.key = name, key


class NodesD:
    pass


class HistD:
    pass


class HistL:
    """the list object stored in the edge history under a pair"""
    def __init__(self, u, v):
        self.u, self.v = u, v


class CRef:
    """reference to a mutable container of the symbolic store"""
    def __init__(self, oid):
        self.oid = oid
    def __repr__(self):
        return f"<c{self.oid}>"


class LenV:
    def __init__(self, segs):
        self.segs = segs


class FuncV:
    def __init__(self, fn, recv=None, env=None):
        self.fn, self.recv, self.env = fn, recv, env


class ClassV:
    def __init__(self, mod, name):
        self.mod, self.name = mod, name
    def __repr__(self):
        return f"class {self.name}"


class ExtV:
    """an imported name outside the repository, e.g. itertools.combinations"""
    def __init__(self, name):
        self.name = name
    def __repr__(self):
        return f"ext {self.name}"


class ModV:
    def __init__(self, mod):
        self.mod = mod


class MethV:
    """bound method of a builtin / modelled value"""
    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class StrV:
    """opaque string (f-string or message)"""


class Raised:
    def __init__(self, exc, line=None):
        self.exc, self.line = exc, line
    def __repr__(self):
        return f"raise {self.exc}"


class Poison:
    def __init__(self, name):
        self.name = name


class Seg:
    """bound vars, guard, element : { elem | guard } over bvs"""
    __slots__ = ("bvs", "guard", "elem")
    def __init__(self, bvs, guard, elem):
        self.bvs, self.guard, self.elem = tuple(bvs), guard, elem
    def __repr__(self):
        return f"Seg({self.bvs},{self.guard},{self.elem})"


class Cont:
    """mutable container in the store: kind list/set/dict; segs (for dict: elem=(key,val))"""
    def __init__(self, kind, segs=(), acc=None):
        self.kind, self.segs = kind, list(segs)
        self.acc = acc      # not None: loop accumulator; reads are loop carried
        self.removed = []   # removed elements (sets), as Values
        self.frozen = False # escaped: may no longer be mutated
        self.src = None     # copy of an element of this container (see Engine.thaw)
        self.stale = False  # an element was changed through such a copy
        self.gen = False    # what a generator yields
        self.snap = False   # stored elsewhere as a snapshot (AccV) that is checked when used
    def copy(self):
        c = Cont(self.kind, self.segs, self.acc)
        c.removed = list(self.removed)
        c.frozen, c.src, c.stale, c.gen, c.snap = self.frozen, self.src, self.stale, self.gen, self.snap
        return c


class State:
    __slots__ = ("env", "heap", "store", "pc", "fresh", "scope", "yields", "events", "notes")
    def __init__(self):
        self.env, self.heap, self.store = {}, {}, {}
        self.pc, self.fresh, self.scope = [], [], []
        self.yields = None
        self.events = None
        self.notes = []
    def copy(self):
        s = State.__new__(State)
        s.env, s.heap = dict(self.env), dict(self.heap)
        s.store = {k: v.copy() for k, v in self.store.items()}
        s.pc, s.fresh, s.scope = list(self.pc), list(self.fresh), list(self.scope)
        s.yields, s.events = self.yields, self.events
        s.notes = list(self.notes)
        return s
    def new(self, cont):
        oid = next(_ctr)
        self.store[oid] = cont
        return CRef(oid)


def subst_val(v, pairs):
    """substitute z3 constants in a value"""
    if not pairs:
        return v
    if isz(v):
        return z3.substitute(v, *pairs)
    if isinstance(v, NodeV):
        return NodeV(z3.substitute(v.id, *pairs))
    if isinstance(v, EdgeV):
        return EdgeV(z3.substitute(v.ref, *pairs))
    if isinstance(v, tuple):
        return tuple(subst_val(x, pairs) for x in v)
    if isinstance(v, RecV):
        return RecV(v.cls, {k: subst_val(x, pairs) for k, x in v.fields.items()})
    if isinstance(v, Cont):
        c = Cont(v.kind, [Seg(s.bvs, subst_val(s.guard, pairs), subst_val(s.elem, pairs)) for s in v.segs])
        return c
    if isinstance(v, InnerD):
        return InnerD(v.name, subst_val(v.key, pairs))
    if isinstance(v, HistL):
        return HistL(subst_val(v.u, pairs), subst_val(v.v, pairs))
    if hasattr(v, "subst"):
        return v.subst(pairs)
    if v is None or isinstance(v, (bool, int, float, str, StrV, ClassV, ExtV, ModV, OuterD, NodesD, HistD, GraphV, ManagerV, Raised, Poison, CRef, set, frozenset)):
        return v
    if isinstance(v, list):
        return [subst_val(x, pairs) for x in v]
    if isinstance(v, ObjV):
        o = ObjV(v.name, v.cls, {k: subst_val(x, pairs) for k, x in v.attrs.items()})
        return o
    if isinstance(v, MethV):
        return MethV(subst_val(v.recv, pairs), v.name)
    if isinstance(v, LenV):
        return LenV([Seg(s.bvs, subst_val(s.guard, pairs), subst_val(s.elem, pairs)) for s in v.segs])
    if isinstance(v, FuncV) and v.env is None and v.recv is None:
        return v
    if getattr(v, "closed", False):
        return v
    raise Unsupported(f"substitution in {type(v).__name__}")


def rename_seg(s):
    if not s.bvs:
        return s
    pairs = [(b, z3.Const(fresh_name(b.decl().name().split("!")[0]), b.sort())) for b in s.bvs]
    return Seg([p[1] for p in pairs], subst_val(s.guard, pairs), subst_val(s.elem, pairs))
