"""Contracts of the graph edits: exact rejection condition, exact effect, frame, invariant."""
import z3
from .base import *
from .interp import *
from .graphspec import View, RI, SEL, sel2
from .verify import Obl, Unit
from .gcontracts import G, QUERIES, toid, find, heap_same, need_ri

GM = f"{G}:GraphManager."


NONE = {"meta": z3.Const("py:None:Meta", Meta), "etype": z3.Const("py:None:EType", EType)}


class Change:
    """relation between two views: per pair description; default: unchanged"""
    FIELDS = ("raw", "dead", "etype", "meta", "rec", "rtype", "rmeta", "hist", "hlist")

    def __init__(self, pair=None, nodes=None):
        self.pair = pair or (lambda V, W, a, b: {})
        self.nodes = nodes

    def parts(self, V, W):
        """named closed formulas relating V (before) and W (after)"""
        a, b = z3.Consts("pa pb", Id)
        d = self.pair(V, W, a, b)
        out = []
        h = W.h

        def fa(body, *names):
            """trigger on the components of the later state"""
            pats = []
            for n in ("E", "E_ref", "D", "D_ref") if names[0][0] in "ED" else ("H", "H_list"):
                for g in (h, V.h):
                    if z3.is_const(g[n]):
                        pats.append(sel2(g[n], a, b))
            return z3.ForAll([a, b], body, patterns=pats) if pats else z3.ForAll([a, b], body)
        # presence of edges
        raw1 = d.get("raw", V.raw(a, b))
        out.append(("exactly the expected edges are stored", fa(tob(Iff(tob(W.raw(a, b)), tob(raw1))), "E")))
        for f, txt in (("dead", "soft deletion marks"), ("etype", "edge types"), ("meta", "edge values")):
            new = d.get(f, getattr(V, f)(a, b))
            out.append((f"{txt} are as expected", fa(z3.Implies(tob(W.raw(a, b)), tob(eq(getattr(W, f)(a, b), new))), "E_ref")))
        rec1 = d.get("rec", V.rec(a, b))
        out.append(("exactly the expected removed edges are remembered", fa(tob(Iff(tob(W.rec(a, b)), tob(rec1))), "D")))
        for f, txt in (("rtype", "types of removed edges"), ("rmeta", "values of removed edges")):
            new = d.get(f, getattr(V, f)(a, b))
            out.append((f"{txt} are as expected", fa(z3.Implies(tob(W.rec(a, b)), tob(eq(getattr(W, f)(a, b), new))), "D_ref")))
        h1 = d.get("hist", V.hist(a, b))
        out.append(("edge history exists where expected", fa(tob(Iff(tob(W.hist(a, b)), tob(h1))), "H")))
        new = d.get("hlist", V.hlist(a, b))
        out.append(("edge history entries are as expected", fa(z3.Implies(tob(W.hist(a, b)), W.hlist(a, b) == new), "H_list")))
        n1 = self.nodes(V, a) if self.nodes else V.node(a)
        out.append(("nodes are as expected", z3.ForAll([a], tob(Iff(tob(W.node(a)), tob(n1))))))
        return out


def eq(x, y):
    return Iff(tob(x), tob(y)) if isbool(x) else x == y


def ite(c, x, y):
    if isinstance(c, bool):
        return x if c else y
    if isbool(x):
        return Or(And(c, x), And(Not(c), y))
    return z3.If(c, x, y)


def dirs(a, b, u, v, both):
    fwd = And(a == u, b == v)
    return Or(fwd, And(a == v, b == u)) if both else fwd


def init_hist(V, a, b, u, v, cond=True):
    t = And(cond, dirs(a, b, u, v, True))
    return {"hist": Or(V.hist(a, b), t), "hlist": ite(V.hist(a, b), V.hlist(a, b), hist_empty)}


def add_change(both):
    def mk(V, u, v, meta, et):
        def pair(V, W, a, b):
            t = dirs(a, b, u, v, both)
            return {"raw": Or(V.raw(a, b), t), "dead": And(V.dead(a, b), Not(t)), "etype": ite(t, et, V.etype(a, b)),
                    "meta": ite(t, meta, V.meta(a, b)), **init_hist(V, a, b, u, v)}
        return Change(pair)
    return mk


def remove_change(both):
    def mk(V, u, v, soft):
        def pair(V, W, a, b):
            t = dirs(a, b, u, v, both)
            hard = And(t, Not(soft), V.raw(a, b))
            return {"raw": And(V.raw(a, b), Not(And(t, Not(soft)))), "dead": Or(V.dead(a, b), And(t, soft)),
                    "rec": Or(V.rec(a, b), hard), "rtype": ite(hard, V.etype(a, b), V.rtype(a, b)), "rmeta": ite(hard, V.meta(a, b), V.rmeta(a, b))}
        return Change(pair)
    return mk


def restore_change(both):
    def mk(V, u, v):
        def pair(V, W, a, b):
            t = dirs(a, b, u, v, both)
            back = And(t, Not(V.raw(a, b)), V.rec(a, b))
            anyback = Or(And(Not(V.raw(u, v)), V.rec(u, v)), And(both, Not(V.raw(v, u)), V.rec(v, u)))
            return {"raw": Or(V.raw(a, b), back), "dead": And(V.dead(a, b), Not(t)), "etype": ite(back, V.rtype(a, b), V.etype(a, b)),
                    "meta": ite(back, V.rmeta(a, b), V.meta(a, b)), "rec": And(V.rec(a, b), Not(back)),
                    **init_hist(V, a, b, u, v, anyback)}
        return Change(pair)
    return mk


def update_change(both):
    def mk(V, u, v, meta, et):
        def pair(V, W, a, b):
            t = dirs(a, b, u, v, both)
            d = {}
            if et is not None:
                d["etype"] = ite(t, et, V.etype(a, b))
            if meta is not None:
                d["meta"] = ite(t, meta, V.meta(a, b))
            return d
        return Change(pair)
    return mk


def purge_change(V):
    def pair(V, W, a, b):
        gone = And(V.raw(a, b), V.dead(a, b))
        return {"raw": V.live(a, b), "dead": False, "rec": Or(V.rec(a, b), gone), "rtype": ite(gone, V.etype(a, b), V.rtype(a, b)),
                "rmeta": ite(gone, V.meta(a, b), V.rmeta(a, b))}
    return Change(pair)


def hist_change(V, u, v, item):
    def pair(V, W, a, b):
        t = And(a == u, b == v)
        old = ite(V.hist(u, v), V.hlist(u, v), hist_empty)
        return {"hist": Or(V.hist(a, b), t), "hlist": ite(t, hist_app(old, item), V.hlist(a, b))}
    return Change(pair)


def unknown_nodes(V, u, v):
    return Or(Not(V.node(u)), Not(V.node(v)))


class Mutator:
    """params: name -> kind; rej: exact rejection condition; change: effect"""
    def __init__(self, name, params, rej, change, exc="GraphError"):
        self.name, self.key, self.params, self.rej, self.change, self.exc = name, GM + name, params, rej, change, exc

    def conv(self, bound, eng, st):
        out = []
        for p, kind in self.params.items():
            x = bound[p]
            if kind == "node":
                if isinstance(x, NodeV):
                    out.append(x.id)
                else:
                    raise Unsupported(f"{self.name}: argument {p} is not a node")
            elif kind == "meta":
                out.append(x if x is None or (isz(x) and x.sort() == Meta) else eng.meta_val(x, st))
                if x is None and self.name.startswith("add"):
                    out[-1] = z3.Const("py:None:Meta", Meta)
            elif kind == "item":
                out.append(eng.hist_item(x, st))
            elif kind == "bool":
                out.append(eng.truth(x, st))
            elif kind == "etype":
                if x is not None and not (isz(x) and x.sort() == EType):
                    raise Unsupported("edge type argument")
                out.append(x)
            else:
                out.append(x)
        return out

    def apply(self, eng, st, bound):
        if not isinstance(bound.get("self"), ManagerV):
            return None
        if self.name.startswith("update"):
            # a value or type may be None: decided per case
            for p, kind in self.params.items():
                x = bound[p]
                if kind in ("meta", "etype") and isz(x):
                    yes, no = eng.split(st, x == NONE[kind])
                    if yes is not None:
                        out = self.apply(eng, yes, {**bound, p: None})
                        return out + (self.apply_(eng, no, bound) if no is not None else [])
                    st = no
        return self.apply_(eng, st, bound)

    def apply_(self, eng, st, bound):
        a = self.conv(bound, eng, st)
        need_ri(eng, st, self.name)
        V = View({k: st.heap[k] for k in HEAP})
        rej = self.rej(V, *a)
        out = []
        no, yes = eng.split(st, rej)
        if no is not None:
            out.append((no, Raised(self.exc)))
        if yes is not None:
            s = yes.copy()
            nh = fresh_heap(self.name)
            s.heap.update(nh)
            W = View(nh)
            s.pc += RI(nh)
            s.pc += [f for _, f in self.change(V, *a).parts(V, W)]
            eng.ri_heaps.append(dict(nh))
            s.fresh += list(nh.values())
            out.append((s, None))
        return out

    def variants(self):
        """concrete argument sets: list of (label, values)"""
        import itertools
        opts = []
        for p, kind in self.params.items():
            c = lambda s: z3.Const(p, s)
            if kind == "node":
                opts.append([(p, NodeV(c(Id)))])
            elif kind == "meta":
                opts.append([("value", c(Meta))] + ([("no value", None)] if self.name.startswith("update") else []))
            elif kind == "etype":
                opts.append([("type", c(EType))] + ([("no type", None)] if self.name.startswith("update") else []))
            elif kind == "bool":
                opts.append([("soft", True), ("hard", False)])
            elif kind == "item":
                opts.append([("result", c(Obj))])
        return [(",".join(x[0] for x in combo), [x[1] for x in combo]) for combo in itertools.product(*opts)]

    def gen(self, ctx, contracts):
        fn = find(ctx.prog, self.key)
        for lab, vals in self.variants():
            eng = ctx.engine(contracts, fn.key)
            setup(eng)
            st = ctx.start(eng)
            h0 = dict(st.heap)
            V = View(h0)
            kws = dict(zip(self.params, vals))
            lab = f"{self.name}({lab})"
            for x in vals:
                if isz(x) and self.name.startswith("update") and x.sort() in (Meta, EType):
                    st.pc.append(x != NONE["meta" if x.sort() == Meta else "etype"])
            res = eng.call_fn(FuncV(fn, ManagerV()), [], kws, st)
            a = self.conv({**kws}, eng, st)
            rej = self.rej(V, *a)
            ch = self.change(V, *a)
            for o in eng.obls:
                yield Obl(lab + ": " + o.name, o.hyps, o.goal)
            for s, v in res:
                W = View(s.heap)
                if isinstance(v, Raised):
                    yield Obl(f"{lab}: rejects ({v.exc}) only what must be rejected", s.pc, rej)
                    yield from same(V, W, s, f"{lab}: a rejected edit changes nothing")
                    continue
                yield Obl(f"{lab}: rejects what must be rejected", s.pc, Not(rej))
                for n, f in RI(s.heap, True):
                    yield Obl(f"{lab}: invariant: {n}", s.pc, f)
                for n, f in ch.parts(V, W):
                    yield Obl(f"{lab}: {n}", s.pc, f)
            ctx.close(eng)

    def unit(self, contracts):
        return Unit(self.name, lambda ctx: self.gen(ctx, contracts), keys=[self.key])


def same(V, W, s, lab):
    if heap_same(V.h, W.h):
        yield Obl(lab, s.pc, True)
        return
    for n, f in Change().parts(V, W):
        yield Obl(f"{lab}: {n}", s.pc, f)


def setup(eng):
    """models shared by all units working on the graph"""
    eng.hist_item = lambda x, st: hist_item(eng, x, st)
    eng.loop_invs = getattr(eng, "loop_invs", {})
    eng.loop_invs[GM + "purge_soft_deleted_edges"] = purge_inv
    eng.mut_loop = mut_loop
    eng.externals.update({
        "builtins.str": ext_str, "uuid.uuid4": lambda e, s, a, k: [(s, ObjV("uuid", "uuid"))],
        "torch.tensor": ext_tensor, "new:Node": new_node,
    })


class TensorV:
    """an opaque tensor"""
    closed = True
    def __init__(self, t):
        self.t = t
    def isinst(self, eng, st, n):
        return n == "Tensor"


def ext_str(eng, st, args, kws):
    if args and isinstance(args[0], ObjV) and args[0].name == "uuid":
        s = st.copy()
        c = z3.Const(fresh_name("uuid"), Id)
        s.fresh.append(c)
        eng.assumed.add("str(uuid4()) yields some node id")
        return [(s, c)]
    return [(st, StrV())]


def ext_tensor(eng, st, args, kws):
    eng.assumed.add("torch.tensor(values) returns a tensor of these values or raises TypeError")
    return [(st, TensorV(args[0])), (st.copy(), Raised("TypeError"))]


def new_node(eng, st, args, kws):
    eng.assumed.add("Node(...) stores its keyword arguments (pydantic)")
    if "id" not in kws or args:
        raise Unsupported("Node construction")
    n = NodeV(eng.as_id(kws["id"]))
    n.ctor = dict(kws)
    return [(st, n)]


def hist_item(eng, x, st):
    if isz(x) and x.sort() == Obj:
        return x
    if hasattr(x, "term_obj"):
        return x.term_obj(eng, st)
    raise Unsupported(f"history item {x!r}")


# ------------------------------------------------------------------ loops that edit the graph

def mut_loop(eng, st, seg, body, names, node):
    """for-loop whose body edits the graph: proved with a relational invariant over the processed elements"""
    key = eng._stack[-1] if eng._stack else None
    inv = eng.loop_invs.get(key)
    if inv is None:
        raise Unsupported(f"loop in {key} edits the graph and has no invariant")
    return inv_loop(eng, st, seg, body, names, node, inv)


def inv_loop(eng, st, seg, body, names, node, inv):
    from .gcontracts import key_of
    kk, terms = key_of(seg.elem)
    if inv.kind != kk:
        raise Unsupported(f"loop over {kk}, invariant is over {inv.kind}")
    h0 = {k: st.heap[k] for k in HEAP}
    V = View(h0)
    sorts = [t.sort() for t in terms]
    todo_bv = [z3.Const(fresh_name("q"), s) for s in sorts]

    def in_seq(ts):                        # the element is produced by the loop
        sg = rename_seg(seg)
        _, t2 = key_of(sg.elem)
        return Exists(sg.bvs, And(sg.guard, *[x == y for x, y in zip(ts, t2)]))
    # initially
    for n, f in inv.parts(V, V, lambda ts: False, in_seq):
        eng.obls.append(Obl(f"loop invariant holds initially: {n}", list(st.pc), f))
    # step
    done = z3.Function(fresh_name("done"), *sorts, B)
    s = st.copy()
    nh = fresh_heap("loop")
    s.heap.update(nh)
    W = View(nh)
    for nme in names:
        s.env[nme] = Poison(nme)
    s.pc += RI(nh) + [f for _, f in inv.parts(V, W, lambda ts: done(*ts), in_seq)]
    s.pc.append(z3.ForAll(todo_bv, z3.Implies(done(*todo_bv), tob(in_seq(todo_bv)))))
    sg = rename_seg(seg)
    _, cur = key_of(sg.elem)
    s.pc.append(tob(sg.guard))
    if inv.distinct:
        s.pc.append(z3.Not(done(*cur)))
    eng.ri_heaps.append(dict(nh))
    store0 = {o: c.copy() for o, c in s.store.items()}
    for s2, o in body(s, sg.elem):
        if not (o is NORMAL or o[0] == "continue"):
            eng.obls.append(Obl(f"loop body neither raises nor leaves the loop", list(s2.pc), False))
            continue
        for oid, c in store0.items():
            d = s2.store[oid]
            if len(d.segs) != len(c.segs) or any(p is not q for p, q in zip(c.segs, d.segs)):
                raise Unsupported("graph editing loop also changes a container")
        W2 = View(s2.heap)
        if not any(heap_same(h, s2.heap) for h in eng.ri_heaps):
            for n, f in RI(s2.heap, True):
                eng.obls.append(Obl(f"loop body keeps the invariant: {n}", list(s2.pc), f))
        nd = lambda ts: Or(done(*ts), And(*[x == y for x, y in zip(ts, cur)]))
        for n, f in inv.parts(V, W2, nd, in_seq):
            eng.obls.append(Obl(f"loop invariant is kept: {n}", list(s2.pc), f))
    # after
    r = st.copy()
    nh2 = fresh_heap("after")
    r.heap.update(nh2)
    r.pc += RI(nh2) + [f for _, f in inv.parts(V, View(nh2), in_seq, in_seq)]
    eng.ri_heaps.append(dict(nh2))
    for nme in names:
        r.env[nme] = Poison(nme)
    return [(r, NORMAL)]


class Inv:
    def __init__(self, kind, change, distinct=False):
        self.kind, self.change, self.distinct = kind, change, distinct

    def parts(self, V, W, done, in_seq):
        return self.change(done, in_seq).parts(V, W)


def _purge(done, in_seq):
    def pair(V, W, a, b):
        d = done((a, b))
        gone = And(d, V.raw(a, b))
        return {"raw": And(V.raw(a, b), Not(d)), "rec": Or(V.rec(a, b), gone), "rtype": ite(gone, V.etype(a, b), V.rtype(a, b)),
                "rmeta": ite(gone, V.meta(a, b), V.rmeta(a, b))}
    return Change(pair)


purge_inv = Inv("tuple(node,node)", _purge)


class AddNode(Mutator):
    def conv(self, bound, eng, st):
        return [bound["id_"]]

    def variants(self):
        obj = z3.Const("values", Obj)
        out = []
        for vl, vv in (("tensor", TensorV("data")), ("list", ListData())):
            for ml, mv in (("metadata", z3.Const("metadata", Meta)), ("no metadata", None)):
                for il, iv in (("id", z3.Const("id_", Id)), ("no id", None)):
                    out.append((f"{vl},{ml},{il}", [z3.Const("name", Obj), vv, iv, mv]))
        return out

    def gen(self, ctx, contracts):
        fn = find(ctx.prog, self.key)
        for lab, vals in self.variants():
            eng = ctx.engine(contracts, fn.key)
            setup(eng)
            st = ctx.start(eng)
            h0 = dict(st.heap)
            V = View(h0)
            kws = dict(zip(self.params, vals))
            lab = f"add_node({lab})"
            if kws["metadata"] is not None:
                st.pc.append(kws["metadata"] != NONE["meta"])
            for s, v in eng.call_fn(FuncV(fn, ManagerV()), [], kws, st):
                W = View(s.heap)
                if isinstance(v, Raised):
                    if kws["id_"] is not None and isinstance(kws["values"], TensorV):
                        yield Obl(f"{lab}: rejects only existing ids", s.pc, V.node(kws["id_"]))
                    yield from same(V, W, s, f"{lab}: a rejected node changes nothing")
                    continue
                if not isinstance(v, NodeV):
                    yield Obl(f"{lab}: returns the node", s.pc, False)
                    continue
                ct = getattr(v, "ctor", {})
                if kws["id_"] is not None:
                    yield Obl(f"{lab}: the node has the given id", s.pc, v.id == kws["id_"])
                ok = ct.get("name") is kws["name"] and ((ct.get("values") is kws["values"]) or (isinstance(ct.get("values"), TensorV) and ct["values"].t is kws["values"]))
                ok = ok and (kws["metadata"] is None or ct.get("metadata") is kws["metadata"])
                yield Obl(f"{lab}: the node holds the given name, values and metadata", s.pc, bool(ok))
                yield Obl(f"{lab}: existing ids are rejected", s.pc, Not(V.node(v.id)))
                for n, f in RI(s.heap, True):
                    yield Obl(f"{lab}: invariant: {n}", s.pc, f)
                for n, f in Change(nodes=lambda V, a: Or(V.node(a), a == v.id)).parts(V, W):
                    yield Obl(f"{lab}: {n}", s.pc, f)
            ctx.close(eng)

    def apply(self, eng, st, bound):
        return None


class ListData:
    closed = True
    def isinst(self, eng, st, n):
        return n == "list"


UN = unknown_nodes
MUTATORS = {m.key: m for m in [
    Mutator("add_edge", {"u": "node", "v": "node", "metadata": "meta", "edge_type": "etype"},
            lambda V, u, v, m, t: Or(UN(V, u, v), u == v), lambda V, u, v, m, t: add_change(True)(V, u, v, m, t)),
    Mutator("add_directed_edge", {"u": "node", "v": "node", "metadata": "meta", "edge_type": "etype"},
            lambda V, u, v, m, t: Or(UN(V, u, v), u == v), lambda V, u, v, m, t: add_change(False)(V, u, v, m, t)),
    Mutator("remove_edge", {"u": "node", "v": "node", "soft_delete": "bool"}, lambda V, u, v, s: UN(V, u, v), remove_change(True)),
    Mutator("remove_directed_edge", {"u": "node", "v": "node", "soft_delete": "bool"}, lambda V, u, v, s: UN(V, u, v), remove_change(False)),
    Mutator("restore_edge", {"u": "node", "v": "node"},
            lambda V, u, v: Or(UN(V, u, v), Not(Or(V.raw(u, v), V.raw(v, u), V.rec(u, v), V.rec(v, u)))), restore_change(True)),
    Mutator("restore_directed_edge", {"u": "node", "v": "node"},
            lambda V, u, v: Or(UN(V, u, v), Not(Or(V.raw(u, v), V.rec(u, v)))), restore_change(False)),
    Mutator("update_edge", {"u": "node", "v": "node", "metadata": "meta", "edge_type": "etype"},
            lambda V, u, v, m, t: Or(UN(V, u, v), Not(V.raw(u, v)), Not(V.raw(v, u))), update_change(True)),
    Mutator("update_directed_edge", {"u": "node", "v": "node", "metadata": "meta", "edge_type": "etype"},
            lambda V, u, v, m, t: Or(UN(V, u, v), Not(V.raw(u, v))), update_change(False)),
    Mutator("purge_soft_deleted_edges", {}, lambda V: False, lambda V: purge_change(V)),
    Mutator("add_edge_history", {"u": "node", "v": "node", "action": "item"}, lambda V, u, v, i: False, hist_change),
    AddNode("add_node", {"name": "x", "values": "x", "id_": "x", "metadata": "x"}, None, None),
]}


def contracts():
    return {**QUERIES, **MUTATORS}


def mutator_unit(name):
    return MUTATORS[GM + name].unit(contracts())
