"""Models of the Python builtins and container methods used by the verified code."""
import z3
from .base import *
from .interp import *


def _list(eng, st, args, kws, kind="list"):
    s = st.copy()
    if not args:
        return [(s, s.new(Cont(kind)))]
    if hasattr(args[0], "as_container"):
        return args[0].as_container(eng, st, kind)
    return [(s, s.new(Cont(kind, [Seg(g.bvs, g.guard, eng.freeze(g.elem, s)) for g in eng.segs(args[0], s)])))]


def _set(eng, st, args, kws):
    return _list(eng, st, args, kws, "set")


def _dict(eng, st, args, kws):
    s = st.copy()
    if not args:
        return [(s, s.new(Cont("dict", [Seg((), True, (k, eng.freeze(v, s))) for k, v in kws.items()])))]
    if len(args) == 1 and not kws and hasattr(args[0], "dict_segs"):
        return [(s, s.new(Cont("dict", args[0].dict_segs(eng, s))))]
    if len(args) == 1 and isinstance(args[0], CRef):
        c = s.store[args[0].oid]
        if c.kind == "dict" and not c.segs and not c.removed and c.acc is None:
            return _dict(eng, st, [], kws)
    raise Unsupported("dict(...)")


def _tuple(eng, st, args, kws):
    if not args:
        return [(st, ())]
    sg = eng.segs(args[0], st)
    if all(not g.bvs and g.guard is True for g in sg):
        return [(st, tuple(g.elem for g in sg))]
    return _list(eng, st, args, kws)


def _len(eng, st, args, kws):
    v = args[0]
    if hasattr(v, "length"):
        return v.length(eng, st)
    if isinstance(v, (tuple, str)):
        return [(st, len(v))]
    sg = eng.segs(v, st)
    if all(not g.bvs and g.guard is True for g in sg) and not (isinstance(v, CRef) and st.store[v.oid].kind in ("set", "dict")):
        return [(st, len(sg))]
    return [(st, LenV(sg))]


def _range(eng, st, args, kws):
    a = [eng.len_term(x) for x in args]
    if len(a) == 1:
        lo, hi = 0, a[0]
    elif len(a) == 2:
        lo, hi = a
    elif a[2] == 1:
        lo, hi = a[:2]
    else:
        raise Unsupported("range step")
    s = st.copy()
    if isinstance(lo, int) and isinstance(hi, int):
        return [(s, tuple(range(lo, hi)))]
    i = z3.Const(fresh_name("i"), I)
    return [(s, s.new(Cont("list", [Seg([i], And(lo <= i, i < hi), i)])))]


def _bool(eng, st, args, kws):
    return [(st, eng.truth(args[0], st) if args else False)]


def _abs(eng, st, args, kws):
    x = args[0]
    if hasattr(x, "abs"):
        return x.abs(eng, st)
    if isz(x):
        return [(st, z3.If(x < 0, -x, x))]
    return [(st, abs(x))]


def _enumerate(eng, st, args, kws):
    sg = eng.segs(args[0], st)
    s = st.copy()
    if all(not g.bvs and g.guard is True for g in sg):
        return [(s, s.new(Cont("list", [Seg((), True, (i, g.elem)) for i, g in enumerate(sg)])))]
    from .trace import SV
    if isinstance(args[0], SV) and len(args) == 1 and not kws and len(sg) == 1 and len(sg[0].bvs) == 1 and sg[0].bvs[0].sort() == I:
        return [(s, s.new(Cont("list", [Seg(sg[0].bvs, sg[0].guard, (sg[0].bvs[0], sg[0].elem))])))]
    raise Unsupported("enumerate over a symbolic collection")


def _zip(eng, st, args, kws):
    s = st.copy()
    sgs = [eng.segs(a, s) for a in args]
    if all(not g.bvs and g.guard is True for sg in sgs for g in sg):
        return [(s, s.new(Cont("list", [Seg((), True, tuple(g.elem for g in t)) for t in zip(*sgs)])))]
    raise Unsupported("zip")


def _combinations(eng, st, args, kws):
    coll, r = args
    if hasattr(coll, "combinations"):
        return coll.combinations(eng, st, r)
    sg = eng.segs(coll, st)
    s = st.copy()
    conc = all(not g.bvs and g.guard is True for g in sg)
    is_set = isinstance(coll, CRef) and st.store[coll.oid].kind == "set"
    if isinstance(r, int) and conc and not is_set:
        import itertools
        return [(s, s.new(Cont("list", [Seg((), True, tuple(x.elem for x in c)) for c in itertools.combinations(sg, r)])))]
    if r == 2:
        out = []
        for i, g1 in enumerate(sg):
            for j, g2 in enumerate(sg):
                a, b = rename_seg(g1), rename_seg(g2)
                ka, kb = key_term(a.elem), key_term(b.elem)
                if ka is None or kb is None or ka.sort() != kb.sort():
                    raise Unsupported("combinations of unordered elements")
                f = z3.Function(f"ord{len(st.scope)}_{eng_uid(eng)}_{ka.sort()}", *[x.sort() for x in st.scope], ka.sort(), kb.sort(), B)
                x, y = z3.Consts(f"ox oy", ka.sort())
                ax = z3.ForAll([*st.scope, x, y], z3.Implies(x != y, f(*st.scope, x, y) != f(*st.scope, y, x)))
                if not any(ax.eq(p) for p in s.pc if isz(p)):
                    s.pc.append(ax)
                out.append(Seg(a.bvs + b.bvs, And(a.guard, b.guard, ka != kb, f(*st.scope, ka, kb)), (a.elem, b.elem)))
        return [(s, s.new(Cont("list", out)))]
    raise Unsupported("combinations")


def eng_uid(eng):
    eng._uid = getattr(eng, "_uid", 0) + 1
    return eng._uid


def key_term(v):
    if isinstance(v, NodeV):
        return v.id
    if isz(v):
        return v
    return None


def _hasattr(eng, st, args, kws):
    o, a = args
    if hasattr(o, "has_attr"):
        return [(st, o.has_attr(eng, st, a))]
    if isinstance(o, ObjV) and isinstance(o.cls, Cls):
        return [(st, a in o.attrs or ("o", o.name, a) in st.heap or eng.prog.method(o.cls, a) is not None or eng.prog.class_attr(o.cls, a) is not None)]
    raise Unsupported("hasattr")


def _sorted(eng, st, args, kws):
    return _list(eng, st, args, {}, "list")


def _str(eng, st, args, kws):
    return [(st, StrV())]


def _sum(eng, st, args, kws):
    raise Unsupported("sum")


def _map(eng, st, args, kws):
    raise Unsupported("map")


def _type(eng, st, args, kws):
    return [(st, StrV())]


BUILTINS = {
    "builtins.list": _list, "builtins.set": _set, "builtins.frozenset": _set, "builtins.dict": _dict, "builtins.tuple": _tuple,
    "collections.OrderedDict": _dict,
    "builtins.len": _len, "builtins.range": _range, "builtins.bool": _bool, "builtins.abs": _abs,
    "builtins.enumerate": _enumerate, "builtins.zip": _zip, "itertools.combinations": _combinations,
    "builtins.hasattr": _hasattr, "builtins.sorted": _sorted, "builtins.str": _str, "builtins.type": _type,
}


def method(eng, st, recv, name, args, kws):
    if hasattr(recv, "method"):
        return recv.method(eng, st, name, args, kws)
    if isinstance(recv, (OuterD, InnerD, NodesD, HistD)):
        return dict_view(eng, st, recv, name, args, kws)
    if isinstance(recv, HistL):
        if name == "append":
            s = st.copy()
            t = eng.hist_item(args[0], s)
            h = s.heap["H_list"]
            s.heap["H_list"] = z3.Store(h, recv.u, z3.Store(z3.Select(h, recv.u), recv.v, hist_app(z3.Select(z3.Select(h, recv.u), recv.v), t)))
            return [(s, None)]
        raise Unsupported(f"history list .{name}")
    if isinstance(recv, ObjV):
        h = eng.obj_methods.get((recv.name, name)) or eng.obj_methods.get((recv.cls, name))
        if h:
            return h(eng, st, recv, args, kws)
        raise Unsupported(f"method {recv!r}.{name}")
    if isinstance(recv, (CRef, Cont)):
        return container(eng, st, recv, name, args, kws)
    if isinstance(recv, tuple):
        if name == "index":
            raise Unsupported("tuple.index")
    if isinstance(recv, str) and all(isinstance(a, (str, int)) for a in args):
        try:
            r = getattr(recv, name)(*args)
            if isinstance(r, list):
                s = st.copy()
                return [(s, s.new(Cont("list", [Seg((), True, x) for x in r])))]
            return [(st, r)]
        except Exception:
            pass
    if isz(recv) and recv.sort() == R and name in ("item", "abs") and not args:
        return [(st, recv if name == "item" else z3.If(recv < 0, -recv, recv))]
    if isinstance(recv, str) and name == "join" and getattr(eng, "join_hook", None):
        return eng.join_hook(eng, st, recv, args)
    if isinstance(recv, (StrV, str)):
        return [(st, StrV())]
    raise Unsupported(f"method .{name} of {recv!r}")


def dict_view(eng, st, d, name, args, kws):
    if name == "keys":
        return [(st, d)]
    if name in ("items", "values"):
        s = st.copy()
        out = []
        for g in eng.segs(d, s):
            k = g.elem
            if isinstance(d, NodesD):
                v = NodeV(k)
            elif isinstance(d, OuterD):
                v = InnerD(d.name, k)
            elif isinstance(d, InnerD):
                v = EdgeV(z3.Select(z3.Select(s.heap[d.name + "_ref"], d.key), k))
            else:
                raise Unsupported("history items")
            out.append(Seg(g.bvs, g.guard, (k, v) if name == "items" else v))
        return [(s, s.new(Cont("list", out)))]
    if name == "get":
        default = args[1] if len(args) > 1 else None
        if isinstance(d, OuterD) and isinstance(default, (CRef, Cont)) and not eng.segs(default, st):
            # d.get(k, {}): the guarded view already is empty for absent keys
            return [(st, InnerD(d.name, eng.as_id(args[0])))]
        if not eng.can_id(args[0]) and not isinstance(args[0], tuple):
            return [(st, default)]
        out = []
        for s, v in eng.getitem(d, args[0], st):
            out.append((s, default if isinstance(v, Raised) else v))
        return out
    if name == "pop" and isinstance(d, InnerD):
        out = []
        for s, v in eng.getitem(d, args[0], st):
            if isinstance(v, Raised):
                out.append((s, args[1] if len(args) > 1 else v)); continue
            for s2, o in eng.delitem(d, args[0], s):
                out.append((s2, v if o is NORMAL else o[1]))
        return out
    if name == "setdefault" and isinstance(d, (OuterD, HistD, InnerD)):
        out = []
        a, b = eng.split(st, eng.member(args[0], d, st))
        if a is not None:
            out += eng.getitem(d, args[0], a)
        if b is not None:
            for s, o in eng.setitem(d, args[0], args[1], b):
                out += eng.getitem(d, args[0], s)
        return out
    if name == "copy":
        s = st.copy()
        return [(s, s.new(Cont("list", eng.segs(d, s))))]
    raise Unsupported(f"dict method {name}")


def container(eng, st, recv, name, args, kws):
    kind = (st.store[recv.oid] if isinstance(recv, CRef) else recv).kind
    if name in ("append", "add"):
        s = st.copy()
        eng.mutate(s, recv).segs.append(Seg((), True, eng.freeze(args[0], s)))
        return [(s, None)]
    if name in ("extend", "update") and kind in ("list", "set"):
        s = st.copy()
        new = []
        for a in args:
            new += [Seg(g.bvs, g.guard, eng.freeze(g.elem, s)) for g in eng.segs(a, s)]
        eng.mutate(s, recv).segs.extend(new)
        return [(s, None)]
    if name in ("intersection", "difference"):
        s = st.copy()
        out = []
        for g in map(rename_seg, eng.segs(recv, s)):
            c = g.guard
            for a in args:
                m = eng.member(g.elem, a, s)
                c = And(c, m if name == "intersection" else Not(m))
            out.append(Seg(g.bvs, c, g.elem))
        return [(s, s.new(Cont("set", out)))]
    if name == "union":
        s = st.copy()
        out = list(eng.segs(recv, s))
        for a in args:
            out += eng.segs(a, s)
        return [(s, s.new(Cont("set", out)))]
    if name in ("issubset", "isdisjoint"):
        r = True
        for g in map(rename_seg, eng.segs(recv, st)):
            m = eng.member(g.elem, args[0], st)
            r = And(r, ForAll(g.bvs, Implies(g.guard, m if name == "issubset" else Not(m))))
        return [(st, r)]
    if name == "issuperset":
        r = True
        for g in map(rename_seg, eng.segs(args[0], st)):
            r = And(r, ForAll(g.bvs, Implies(g.guard, eng.member(g.elem, recv, st))))
        return [(st, r)]
    if name == "copy":
        s = st.copy()
        c = s.store[recv.oid] if isinstance(recv, CRef) else recv
        eng.read(c)
        return [(s, s.new(Cont(c.kind, c.segs)))]
    if name in ("remove", "discard") and kind == "set":
        out = []
        a, b = eng.split(st, eng.member(args[0], recv, st))
        if a is not None:
            s = a.copy()
            c = eng.mutate(s, recv)
            x = eng.freeze(args[0], s)
            c.segs = [Seg(g.bvs, And(g.guard, Not(eng.eqv(g.elem, x, s))), g.elem) for g in map(rename_seg, c.segs)]
            out.append((s, None))
        if b is not None:
            out.append((b, None if name == "discard" else Raised("KeyError")))
        return out
    if name == "remove" and kind == "list":
        sg = eng.segs(recv, st)
        if all(not g.bvs and g.guard is True for g in sg):
            out, rest = [], st
            for i, g in enumerate(sg):
                if rest is None:
                    break
                a, rest = eng.split(rest, eng.eqv(g.elem, args[0], rest))
                if a is not None:
                    s = a.copy()
                    del eng.mutate(s, recv).segs[i]
                    out.append((s, None))
            if rest is not None:
                out.append((rest, Raised("ValueError")))
            return out
    if name == "pop" and kind == "list" and not args:
        s = st.copy()
        c = eng.mutate(s, recv)
        eng.read(c)
        if c.segs and not c.segs[-1].bvs and c.segs[-1].guard is True:
            return [(s, c.segs.pop().elem)]
        if not c.segs:
            return [(st, Raised("IndexError"))]
    if kind == "dict":
        c = st.store[recv.oid] if isinstance(recv, CRef) else recv
        eng.read(c)
        if name == "keys":
            s = st.copy()
            return [(s, s.new(Cont("list", [Seg(g.bvs, g.guard, g.elem[0]) for g in c.segs])))]
        if name == "values":
            s = st.copy()
            return [(s, s.new(Cont("list", [Seg(g.bvs, g.guard, g.elem[1]) for g in c.segs])))]
        if name == "items":
            s = st.copy()
            return [(s, s.new(Cont("list", [Seg(g.bvs, g.guard, tuple(g.elem)) for g in c.segs])))]
        if name == "get":
            return eng.dict_get(c, args[0], st, ("val", args[1] if len(args) > 1 else None))
        if name == "update":
            s = st.copy()
            o = args[0]
            oc = s.store[o.oid] if isinstance(o, CRef) else o
            if isinstance(oc, Cont) and oc.kind == "dict":
                eng.mutate(s, recv).segs.extend(oc.segs)
                return [(s, None)]
    raise Unsupported(f"{kind} method {name}")
