"""Trace contracts (P08, P14): what a function does is the ordered list of calls it makes (the ghost trace) and the value it returns.

The trace is a list of the symbolic store to which the models of the calls append events; loops over sequences are summarised like
every other list (one segment or block per loop, in order).  A contract states the expected trace; the arguments of every event and
the returned lists become obligations."""
import ast
import z3
from .base import *
from .interp import *
from .verify import Obl, Unit
from .builtins_model import BUILTINS

GMF = "causy/graph_model.py"
LOGIC = "causy/common_pipeline_steps/logic.py"
EXITS = "causy/common_pipeline_steps/exit_conditions.py"
IFACE = "causy/interfaces.py"
seq_len = z3.Function("seq_len", Obj, I)
seq_at = z3.Function("seq_at", Obj, I, Obj)
TR = -7


class SV:
    """an opaque python value"""
    def __init__(self, t):
        self.t = t
    def __repr__(self):
        return f"SV({self.t})"
    def subst(self, pairs):
        return SV(z3.substitute(self.t, *pairs))
    def attr(self, eng, st, a):
        if a in getattr(eng, "sv_methods", {}):
            return [(st, MethV(self, a))]
        h = getattr(eng, "sv_attrs", {}).get(a)
        if h:
            return h(eng, st, self)
        return [(st, SV(z3.Function("attr_" + a, Obj, Obj)(self.t)))]
    def method(self, eng, st, name, args, kws):
        return eng.sv_methods[name](eng, st, self, args, kws)
    def call(self, eng, st, args, kws):
        h = getattr(eng, "sv_call", None)
        if h is None:
            raise Unsupported("call of an opaque value")
        return h(eng, st, self, args, kws)
    def iter_segs(self, eng, st):
        i = z3.Const(fresh_name("i"), I)
        return [Seg([i], z3.And(i >= 0, i < seq_len(self.t)), SV(seq_at(self.t, i)))]
    def length(self, eng, st):
        s = st.copy()
        s.pc.append(seq_len(self.t) >= 0)
        return [(s, seq_len(self.t))]
    def truth(self, eng, st):
        return z3.Function("truthy", Obj, B)(self.t)
    def is_none(self, eng, st):
        return z3.Function("is_none", Obj, B)(self.t)
    def isinst(self, eng, st, n):
        return z3.Function("is_" + n, Obj, B)(self.t)
    def eq_to(self, eng, st, o):
        if isinstance(o, SV):
            return True if self.t.eq(o.t) else self.t == o.t
        if o is None:
            return self.is_none(eng, st)
        if isinstance(o, str) and getattr(eng, "sv_str", False):
            return self.t == z3.Const("str:" + o, Obj)
        raise Unsupported("equality of an opaque value")
    def has_attr(self, eng, st, a):
        return z3.Function("has_" + a, Obj, B)(self.t)


class Clock:
    """a time or a duration: not part of any contract"""
    closed = True
    def bin(self, eng, st, op, o, swap):
        return [(st, Clock())]


class TList(SV):
    """an opaque list (the result of a call)"""
    def subst(self, pairs):
        return TList(z3.substitute(self.t, *pairs))
    def isinst(self, eng, st, n):
        return n == "list"
    def is_none(self, eng, st):
        return False
    def truth(self, eng, st):
        return seq_len(self.t) > 0
    def bin(self, eng, st, op, o, swap):
        if op != "Add":
            raise Unsupported(f"operator {op} on a list")
        a, b = (o, self) if swap else (self, o)
        s = st.copy()
        return [(s, s.new(Cont("list", eng.segs(a, s) + eng.segs(b, s))))]


def skolem(st, name, sort=Obj):
    f = z3.Function(fresh_name(name), *[x.sort() for x in st.scope], sort)
    return f(*st.scope)


def event(st, kind, **fields):
    st.store[TR].segs.append(Seg((), True, RecV("event", {"kind": kind, **fields})))


class TraceEngine:
    """engine set up for trace contracts"""
    def __new__(cls, ctx, target, contracts=None):
        eng = ctx.engine(contracts or {}, target)
        eng.blocks = True
        eng.sv_methods = {}
        eng.externals["time.time"] = lambda e, st, a, k: [(st, Clock())]
        eng.any_value = any_value
        return eng


def any_value(st, n, old):
    if isinstance(old, Clock):
        return Clock()
    if isinstance(old, TList):
        return TList(skolem(st, "any_" + n))
    if isinstance(old, SV):
        return SV(skolem(st, "any_" + n))
    if isz(old) and old.sort() == I or isinstance(old, int) and not isinstance(old, bool):
        return skolem(st, "any_" + n, I)
    raise LoopCarried(n)


def start(ctx):
    st = State()
    st.store[TR] = Cont("list")
    ctx.vacuity.append(("start", [z3.BoolVal(True)]))
    return st


# ---------------------------------------------------------------- models of the calls

def bind_args(names, args, kws, what):
    b = dict(zip(names, args))
    if len(args) > len(names) or any(k not in names or k in b for k in kws):
        raise Unsupported(f"arguments of {what}")
    b.update(kws)
    return b


def m_exec(eng, st, recv, args, kws):
    """graph_model.execute_pipeline_step(step, apply_to_graph=True) -> (taken, proposed)"""
    b = bind_args(["test_fn", "apply_to_graph"], args, kws, "execute_pipeline_step")
    if "test_fn" not in b:
        raise Unsupported("execute_pipeline_step without a step")
    s = st.copy()
    t, a = TList(skolem(s, "taken")), TList(skolem(s, "proposed"))
    event(s, "exec", model=recv, step=b["test_fn"], apply=b.get("apply_to_graph", True), taken=t, proposed=a)
    return [(s, (t, a))]


def m_take(eng, st, recv, args, kws):
    """graph_model._take_action(results, dry_run=False) -> (taken, proposed)"""
    b = bind_args(["results", "dry_run"], args, kws, "_take_action")
    s = st.copy()
    t, a = TList(skolem(s, "taken")), TList(skolem(s, "proposed"))
    dry = b.get("dry_run", False)
    event(s, "take", model=recv, results=contents(eng, b["results"], s), dry=eng.truth(dry, s), taken=t, proposed=a)
    return [(s, (t, a))]


# ---------------------------------------------------------------- matching

class Mismatch(Unsupported):
    pass


def one_loop(seg):
    """(index, guard, [(pc, [segments])]) of what a loop appended"""
    if isinstance(seg.elem, BlockV):
        b = seg.elem
        if len(b.bvs) != 1:
            raise Mismatch("loop over several variables")
        return b.bvs[0], b.guard, [(pc, list(gs)) for pc, sk, gs in b.paths]
    return None


def same_value(eng, st, a, b):
    """equality of two values of a trace as a formula; Mismatch when they are not comparable"""
    if isinstance(a, TList) and isinstance(b, Cont) or isinstance(b, TList) and isinstance(a, Cont):
        c, l = (a, b) if isinstance(a, Cont) else (b, a)
        return same_list(eng, st, c.segs, l.iter_segs(eng, st))
    if isinstance(a, Cont) and isinstance(b, Cont):
        return same_list(eng, st, a.segs, b.segs)
    if isinstance(a, RecV) and isinstance(b, RecV):
        if a.cls != b.cls:
            return False
        return And(*[same_value(eng, st, a.fields.get(k), b.fields.get(k)) for k in set(a.fields) | set(b.fields) if k != "duration"])
    if isinstance(a, SV) and isinstance(b, SV):
        return True if a.t.eq(b.t) else a.t == b.t
    if isinstance(a, ObjV) or isinstance(b, ObjV):
        return isinstance(a, ObjV) and isinstance(b, ObjV) and a.name == b.name
    if isbool(a) and isbool(b):
        return Iff(a, b)
    try:
        return eng.eqv(a, b, st)
    except LoopCarried:
        raise Mismatch("value not comparable")


def same_list(eng, st, A, Bs):
    """element-wise equality of two ordered lists given as segments (same shape required)"""
    A = [g for g in A if g.guard is not False and not (isz(g.guard) and z3.is_false(g.guard))]
    if len(A) != len(Bs):
        raise Mismatch("lists of different shape")
    out = []
    for x, y in zip(A, Bs):
        if len(x.bvs) != len(y.bvs) or any(p.sort() != q.sort() for p, q in zip(x.bvs, y.bvs)):
            raise Mismatch("lists of different shape")
        if any(p.sort() != I for p in x.bvs):
            raise Mismatch("unordered list")
        pairs = [(q, p) for p, q in zip(x.bvs, y.bvs)]
        y2 = Seg(x.bvs, subst_val(y.guard, pairs), subst_val(y.elem, pairs)) if pairs else y
        if isinstance(x.elem, BlockV) or isinstance(y2.elem, BlockV):
            out.append(same_block(eng, st, x, y2))
            continue
        out.append(ForAll(list(x.bvs), And(Iff(x.guard, y2.guard), Implies(x.guard, same_value(eng, st, x.elem, y2.elem)))))
    return And(*out)


def same_block(eng, st, x, y):
    if not (isinstance(x.elem, BlockV) and isinstance(y.elem, BlockV)) or len(x.elem.paths) != len(y.elem.paths):
        raise Mismatch("lists of different shape")
    out = [ForAll(list(x.bvs), Iff(x.guard, y.guard))]
    for (pa, ska, ga), (pb, skb, gb) in zip(x.elem.paths, y.elem.paths):
        if ska or skb:
            raise Mismatch("lists of different shape")
        out.append(ForAll(list(x.bvs), And(Iff(And(*pa), And(*pb)), Implies(And(x.guard, *pa), same_list(eng, st, ga, gb)))))
    return And(*out)


def project(segs, kind, field):
    """concatenation, in order, of the lists `field` of the events `kind` of a trace"""
    out = []
    for g in segs:
        if isinstance(g.elem, BlockV):
            ps = [(pc, sk, project(gs, kind, field)) for pc, sk, gs in g.elem.paths]
            ps2 = [(pc, sk, gs) for pc, sk, gs in ps if gs]
            if not ps2:
                continue
            if sum(len(p[2]) for p in ps2) == 1:
                pc, sk, gs = ps2[0]
                out.append(Seg(list(g.bvs) + list(sk) + list(gs[0].bvs), tob(And(*pc, gs[0].guard)), gs[0].elem))
            else:
                out.append(Seg(g.bvs, g.guard, BlockV(g.elem.bvs, g.elem.guard, ps)))
            continue
        if not (isinstance(g.elem, RecV) and g.elem.cls == "event"):
            raise Mismatch("trace")
        if g.elem.fields["kind"] != kind:
            continue
        l = g.elem.fields[field]
        j = z3.Const(fresh_name("j"), I)
        out.append(Seg(list(g.bvs) + [j], tob(And(g.guard, j >= 0, j < seq_len(l.t))), SV(seq_at(l.t, j))))
    return out


class Match:
    """compares a list of segments with the expected events, producing obligations"""
    def __init__(self, eng, lab):
        self.eng, self.lab, self.out = eng, lab, []

    def ob(self, name, pc, goal):
        self.out.append(Obl(f"{self.lab}: {name}", pc, goal))

    def value(self, name, s, got, want):
        self.ob(name, s.pc, same_value(self.eng, s, got, want))

    def ev(self, seg, kind):
        if seg.bvs or seg.guard is not True or not isinstance(seg.elem, RecV) or seg.elem.cls != "event":
            raise Mismatch(f"a single event {kind} was expected")
        if seg.elem.fields["kind"] != kind:
            raise Mismatch(f"event {kind} was expected but {seg.elem.fields['kind']} happens")
        return seg.elem.fields

    def loop_event(self, seg, kind, seq, s, name):
        """a loop over the sequence `seq` that makes exactly one such event per element: (index, fields)"""
        if isinstance(seg.elem, BlockV) or len(seg.bvs) != 1 or seg.bvs[0].sort() != I:
            raise Mismatch("one event per element was expected")
        i = seg.bvs[0]
        f = self.ev(Seg((), True, seg.elem), kind)
        self.ob(f"{name}: once for every element, in order", s.pc, ForAll([i], Iff(seg.guard, z3.And(i >= 0, i < seq_len(seq)))))
        return i, z3.And(i >= 0, i < seq_len(seq)), f


def method_of(ctx, rel, cls, name):
    c = ctx.prog.mod(rel).classes.get(cls)
    fn = ctx.prog.method(c, name) if c is not None else None
    if fn is None:
        raise Unsupported(f"{cls}.{name} not found")
    return c, fn


def ahs(**f):
    return RecV("ActionHistoryStep", f)


def record_ok(m, s, rec, name, want):
    """fields of a history record"""
    if not (isinstance(rec, RecV) and rec.cls == "ActionHistoryStep"):
        raise Mismatch("history record")
    for k, w in want.items():
        got = rec.fields.get(k)
        m.value(f"{name}: {k}", s, got, w)
    for k in rec.fields:
        if k not in want and k != "duration":
            raise Mismatch(f"history record field {k}")


# ---------------------------------------------------------------- P14

def together_unit():
    def gen(ctx):
        c, fn = method_of(ctx, LOGIC, "ApplyActionsTogether", "execute")
        eng = TraceEngine(ctx, fn.key)
        steps = z3.Const("pipeline_steps", Obj)
        me = ObjV("self", c, {"pipeline_steps": SV(steps), "name": SV(z3.Const("self.name", Obj))})
        graph, gm = ObjV("graph"), ObjV("graph_model", "GM")
        eng.obj_methods[("GM", "execute_pipeline_step")] = m_exec
        eng.obj_methods[("GM", "_take_action")] = m_take
        st = start(ctx)
        m = Match(eng, "ApplyActionsTogether.execute")
        for s, v in eng.call_fn(FuncV(fn, me), [graph, gm], {}, st):
            if isinstance(v, Raised):
                m.ob(f"never raises {v.exc}", s.pc, False)
                continue
            tr = s.store[TR].segs
            if len(tr) != 2:
                raise Mismatch("trace of a group")
            i, rng, f = m.loop_event(tr[0], "exec", steps, s, "the steps are executed")
            si = s.copy()
            si.pc = si.pc + [rng]
            m.value("each step of the group is executed itself", si, f["step"], SV(seq_at(steps, i)))
            m.value("the steps decide without changing the graph", si, f["apply"], False)
            m.value("the steps run on the given model", si, f["model"], gm)
            t = m.ev(tr[1], "take")
            m.value("the actions are applied on the given model", s, t["model"], gm)
            m.value("the actions are applied for real", s, t["dry"], False)
            j = z3.Const(fresh_name("j"), I)
            want = [Seg([i, j], z3.And(rng, j >= 0, j < seq_len(f["taken"].t)), SV(seq_at(f["taken"].t, j)))]
            m.value("all proposals of all steps are applied once and in order", s, t["results"], Cont("list", want))
            if not isinstance(v, RecV):
                raise Mismatch("value returned")
            rec = ahs(name=SV(z3.Function("attr_name", Obj, Obj)(seq_at(steps, i))), actions=f["taken"], all_proposed_actions=f["proposed"])
            record_ok(m, s, v, "the record of the group", {"name": me.attrs["name"], "steps": Cont("list", [Seg([i], rng, rec)])})
        yield from m.out
        ctx.close(eng)
    return Unit("ApplyActionsTogether.execute", gen, keys=[f"{LOGIC}:ApplyActionsTogether.execute"])


def loop_unit():
    def gen(ctx):
        c, fn = method_of(ctx, LOGIC, "Loop", "execute")
        eng = TraceEngine(ctx, fn.key)
        steps = z3.Const("pipeline_steps", Obj)
        me = ObjV("self", c, {"pipeline_steps": SV(steps), "name": SV(z3.Const("self.name", Obj)), "exit_condition": ExitV()})
        graph, gm = ObjV("graph"), ObjV("graph_model", "GM")
        eng.obj_methods[("GM", "execute_pipeline_step")] = m_exec
        eng.obj_methods[("GM", "_take_action")] = m_take
        m = Match(eng, "Loop.execute")
        eng.while_loop = WhileRounds(m, steps, graph, gm)
        st = start(ctx)
        for s, v in eng.call_fn(FuncV(fn, me), [graph, gm], {}, st):
            if isinstance(v, Raised):
                m.ob(f"never raises {v.exc}", s.pc, False)
                continue
            if not isinstance(v, RecV) or eng.while_loop.rounds is None:
                raise Mismatch("value returned")
            if len(s.store[TR].segs) != 1:
                raise Mismatch("events outside of the rounds")
            m.value("the record of the loop: name", s, v.fields.get("name"), me.attrs["name"])
            got = v.fields.get("steps")
            if not isinstance(got, Cont) or len(got.segs) != 1 or len(got.segs[0].bvs) != 2:
                raise Mismatch("recorded steps")
            k, i = got.segs[0].bvs
            w = eng.while_loop.want(k, i)
            m.ob("the record of the loop: every executed step of every round, in order", s.pc,
                 ForAll([k, i], And(Iff(got.segs[0].guard, w.guard), Implies(w.guard, same_value(eng, s, got.segs[0].elem, w.elem)))))
            for x in v.fields:
                if x not in ("name", "steps", "duration"):
                    raise Mismatch(f"history record field {x}")
        yield from m.out
        ctx.close(eng)
    return Unit("Loop.execute", gen, keys=[f"{LOGIC}:Loop.execute"])


class ExitV:
    """the exit condition of a loop"""
    closed = True
    def is_none(self, eng, st):
        return False
    def truth(self, eng, st):
        return True
    def call(self, eng, st, args, kws):
        b = bind_args(["graph", "graph_model_instance_", "actions_taken", "iteration"], args, kws, "the exit condition")
        s = st.copy()
        r = skolem(s, "exit", B)
        event(s, "exit", graph=b.get("graph"), model=b.get("graph_model_instance_"), actions=b.get("actions_taken"), iteration=b.get("iteration"), result=r)
        return [(s, r)]
    def attr(self, eng, st, a):
        if a in ("check", "__call__"):
            return [(st, self)]
        raise Unsupported(f"exit condition .{a}")


class LastActions:
    """what the exit condition is told about the previous round: a list, or None before the first"""
    def __init__(self, k, n):
        self.k, self.n = k, n
    def subst(self, pairs):
        return LastActions(z3.substitute(self.k, *pairs), self.n)


class WhileRounds:
    """step contract of the loop: a round asks the exit condition (with the previous round's actions and the number of rounds so far);
    if it says stop the loop ends, otherwise every step is executed once, in order"""
    def __init__(self, m, steps, graph, gm):
        self.m, self.steps, self.graph, self.gm, self.rounds = m, steps, graph, gm, None

    def round_(self, eng, st, x):
        """one evaluation of the test and the body: [(state, 'stop' | 'go')]"""
        out = []
        for s, v in eng.ev(x.test, st):
            if isinstance(v, Raised):
                raise Mismatch("the test of the loop raises")
            a, b = eng.split(s, eng.truth(v, s))
            if b is not None:
                out.append((b, "stop"))
            if a is not None:
                for s2, o in eng.ex(x.body, a):
                    if o is NORMAL or o[0] == "continue":
                        out.append((s2, "go"))
                    elif o[0] == "break":
                        out.append((s2, "stop"))
                    else:
                        raise Mismatch("exit from the loop")
        return out

    def __call__(self, eng, st, x):
        if self.rounds is not None or st.scope or x.orelse:
            raise Unsupported("several while loops")
        m = self.m
        names = assigned_names(x.body) | assigned_names([x.test])
        carried = [n for n in names if n in st.env]
        K = z3.Const("round", I)
        # entry
        entry = st.copy()
        entry.store = {k: v.copy() for k, v in st.store.items()}
        first = self.exit_event([p for p in self.round_(eng, entry, x)], len(st.store[TR].segs))
        m.value("the first round runs with iteration 0", st, first["iteration"], 0)
        m.ob("before the first round no actions are reported", st.pc, first["actions"] is None)
        # an arbitrary round
        head = st.copy()
        head.scope = head.scope + [K]
        head.pc.append(K >= 0)
        cand = {}
        for n in carried:
            old = st.env[n]
            if old is None:
                head.env[n] = LastActions(K, n)
            elif isinstance(old, int) and not isinstance(old, bool):
                head.env[n] = K + old
                cand[n] = old
            elif isinstance(old, Clock):
                head.env[n] = Clock()
            elif isinstance(old, CRef):
                head.env[n] = Poison(n)
            else:
                head.env[n] = Poison(n)
        ids = list(st.store)
        for o in ids:
            head.store[o] = Cont(head.store[o].kind, [], acc=o)
        paths = self.round_(eng, head, x)
        ex = self.exit_event(paths, 0)
        rng = lambda i: z3.And(i >= 0, i < seq_len(self.steps))
        hs = head
        m.value("the exit condition gets the graph", hs, ex["graph"], self.graph)
        m.value("the exit condition gets the model", hs, ex["model"], self.gm)
        if not (isz(ex["iteration"]) or isinstance(ex["iteration"], int)):
            raise Mismatch("iteration number")
        m.ob("the exit condition gets the number of rounds", hs.pc, ex["iteration"] == K)
        if not isinstance(ex["actions"], LastActions):
            raise Mismatch("actions given to the exit condition")
        goes = [s for s, o in paths if o == "go"]
        for s, o in paths:
            m.ob("the loop ends exactly if the exit condition says so", s.pc, ex["result"] if o == "stop" else Not(ex["result"]))
            if o == "stop" and len(s.store[TR].segs) != 1:
                raise Mismatch("events after the exit condition")
        if len(goes) != 1:
            raise Mismatch("paths of a round")
        s = goes[0]
        tr = s.store[TR].segs
        if len(tr) != 2:
            raise Mismatch("trace of a round")
        i, r, f = m.loop_event(tr[1], "exec", self.steps, s, "a round executes the steps")
        si = s.copy()
        si.pc = si.pc + [r]
        m.value("a round executes each step of the loop itself", si, f["step"], SV(seq_at(self.steps, i)))
        m.value("the steps of a round change the graph", si, f["apply"], True)
        m.value("the steps of a round run on the given model", si, f["model"], self.gm)
        for n, old in cand.items():
            if not (isz(s.env[n]) and s.env[n].sort() == I):
                raise Mismatch("counter")
            self.guess(m, eng, s, n, s.env[n] == K + 1 + old)
        # what the next exit condition sees
        j = z3.Const(fresh_name("j"), I)
        want = Cont("list", [Seg([i, j], z3.And(r, j >= 0, j < seq_len(f["taken"].t)), SV(seq_at(f["taken"].t, j)))])
        for n in carried:
            if n == ex["actions"].n:
                v = s.env[n]
                if isinstance(v, LastActions):
                    m.ob("the next exit condition sees the actions of this round", s.pc, False)
                    continue
                m.value("the next exit condition sees exactly the actions of this round", s, eng.freeze(v, s) if isinstance(v, CRef) else v, want)
        # after the loop
        t = st.copy()
        L = z3.Const("rounds", I)
        t.pc.append(L >= 0)
        self.rounds = L
        for o in ids:
            gs = s.store[o].segs
            if o == TR:
                t.store[o].segs.append(Seg((), True, RecV("event", {"kind": "rounds"})))
            elif gs:
                stop = [p for p, oc in paths if oc == "stop"]
                if any(p.store[o].segs for p in stop):
                    raise Mismatch("something is recorded although the loop ends")
                for g in gs:
                    t.store[o].segs.append(Seg([K] + list(g.bvs), z3.And(K >= 0, K < L, tob(g.guard)), g.elem))
        for n in names:
            t.env[n] = Poison(n)
        rec = ahs(name=SV(z3.Function("attr_name", Obj, Obj)(seq_at(self.steps, i))), actions=f["taken"], all_proposed_actions=f["proposed"])

        def want_at(k, ii):
            pr = [(K, k), (i, ii)]
            return Seg([k, ii], z3.And(k >= 0, k < L, rng(ii)), subst_val(rec, pr))
        self.want = want_at
        return [(t, NORMAL)]

    def guess(self, m, eng, s, n, goal):
        m.ob("loop invariant: the number of rounds is counted", s.pc, goal)

    def exit_event(self, paths, skip):
        evs = []
        for s, o in paths:
            tr = s.store[TR].segs[skip:]
            if not tr or tr[0].bvs or tr[0].elem.fields["kind"] != "exit":
                raise Mismatch("a round starts by asking the exit condition")
            evs.append(tr[0].elem.fields)
        if not evs or any(e is not evs[0] and e["result"] is not evs[0]["result"] for e in evs):
            raise Mismatch("the exit condition is asked once per round")
        return evs[0]


def exit_unit():
    def gen(ctx):
        c, fn = method_of(ctx, EXITS, "ExitOnNoActions", "__call__")
        eng = TraceEngine(ctx, fn.key)
        it = z3.Const("iteration", I)
        acts = TList(z3.Const("actions", Obj))
        for lab, a, n, pre in (("first round", None, 0, []), ("later round", acts, it, [it >= 1, seq_len(acts.t) >= 0])):
            st = start(ctx)
            st.pc += pre
            for s, v in eng.call_fn(FuncV(fn, ObjV("self", c)), [], {"graph": ObjV("graph"), "graph_model_instance_": ObjV("gm"), "actions_taken": a, "iteration": n}, st):
                if isinstance(v, Raised):
                    yield Obl(f"ExitOnNoActions, {lab}: never raises {v.exc}", s.pc, False)
                    continue
                yield Obl(f"ExitOnNoActions, {lab}: stops exactly if the previous round took no action", s.pc, Iff(eng.truth(v, s), False if a is None else seq_len(acts.t) == 0))
        ctx.close(eng)
    return Unit("ExitOnNoActions", gen, keys=[f"{EXITS}:ExitOnNoActions.check", f"{IFACE}:ExitConditionInterface.__call__"])


def p14_units():
    return [together_unit(), loop_unit(), exit_unit()]


# ---------------------------------------------------------------- P08

class StepV:
    """a pipeline step: concrete mode flags, everything else opaque"""
    closed = True
    def __init__(self, flags, chunked):
        self.flags, self.chunked = flags, chunked
    def has_attr(self, eng, st, a):
        if a in self.flags or a in ("generator", "name", "chunk_size_parallel_processing"):
            return True
        if a in ("apply_synchronous", "needs_unapplied_actions"):
            return False
        raise Unsupported(f"step.{a}")
    def attr(self, eng, st, a):
        if a in self.flags:
            return [(st, self.flags[a])]
        if a == "generator":
            return [(st, GenV(self))]
        if a in ("name", "chunk_size_parallel_processing"):
            return [(st, SV(z3.Const("step." + a, Obj)))]
        if a in ("apply_synchronous", "needs_unapplied_actions"):
            return [(st, Raised("AttributeError"))]
        raise Unsupported(f"step.{a}")
    def eq_to(self, eng, st, o):
        return self is o
    def is_none(self, eng, st):
        return False
    def truth(self, eng, st):
        return True
    def call(self, eng, st, args, kws):
        b = bind_args(["nodes", "graph", "unapplied_actions"], args, kws, "a step")
        s = st.copy()
        r = SV(skolem(s, "result"))
        event(s, "call", step=self, nodes=contents(eng, b.get("nodes"), s), graph=b.get("graph"), unapplied=contents(eng, b.get("unapplied_actions"), s), result=r)
        return [(s, r)]


class GenV:
    closed = True
    def __init__(self, step):
        self.step = step
    def attr(self, eng, st, a):
        if a == "chunked":
            return [(st, self.step.chunked)]
        if a == "generate":
            return [(st, MethV(self, a))]
        raise Unsupported(f"generator.{a}")
    def method(self, eng, st, name, args, kws):
        b = bind_args(["graph", "graph_model_instance_"], args, kws, "generate")
        s = st.copy()
        r = SV(skolem(s, "combinations"))
        event(s, "gen", graph=b.get("graph"), model=b.get("graph_model_instance_"), result=r)
        return [(s, r)]


class PoolV:
    """a multiprocessing pool: imap_unordered calls the function once per task; the results come in any order"""
    closed = True
    def is_none(self, eng, st):
        return False
    def truth(self, eng, st):
        return True
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name not in ("imap_unordered", "imap", "map"):
            raise Unsupported(f"pool.{name}")
        b = bind_args(["func", "iterable", "chunksize"], args, kws, "pool." + name)
        s = st.copy()
        r = SV(skolem(s, "results"))
        event(s, "pool", func=b["func"], tasks=contents(eng, b["iterable"], s), result=r)
        return [(s, r)]


def step_engine(ctx, pool="none"):
    c, fn = method_of(ctx, GMF, "AbstractGraphModel", "execute_pipeline_step")
    eng = TraceEngine(ctx, fn.key)
    graph = ObjV("graph")
    gm = ObjV("manager", "MGR", {"graph": graph})
    me = ObjV("self", c, {"graph": gm, "pool": None if pool == "none" else PoolV()})
    eng.obj_methods[("self", "_take_action")] = m_take
    eng.obj_methods[("self", "__initialize_pool")] = lambda e, st, r, a, k: [(st, PoolV())]
    eng.obj_methods[("self", "_AbstractGraphModel__initialize_pool")] = lambda e, st, r, a, k: [(st, PoolV())]
    return eng, fn, me, graph


def singleton(v):
    return Cont("list", [Seg((), True, v)])


def elements(v):
    """the list made of the elements of an opaque sequence"""
    return Cont("list", v.iter_segs(None, None))


class StepRun:
    """contract of execute_pipeline_step in one mode"""
    def __init__(self, mode, flags, chunked=False, pool="none"):
        self.mode, self.flags, self.chunked, self.pool = mode, flags, chunked, pool

    def gen(self, ctx):
        eng, fn, me, graph = step_engine(ctx, self.pool)
        step = StepV(self.flags, self.chunked)
        st = start(ctx)
        ap = z3.Const("apply_to_graph", B)
        m = Match(eng, f"execute_pipeline_step ({self.mode})")
        self.eng, self.m, self.me, self.graph, self.step, self.dry = eng, m, me, graph, step, Not(ap)
        for s, v in eng.call_fn(FuncV(fn, me), [step], {"apply_to_graph": ap}, st):
            if isinstance(v, Raised):
                m.ob(f"never raises {v.exc}", s.pc, False)
                continue
            tr = s.store[TR].segs
            if not tr:
                m.ob("the generator is asked for combinations", s.pc, False)
                continue
            g = m.ev(tr[0], "gen")
            m.value("the generator gets the graph", s, g["graph"], graph)
            m.value("the generator gets the model", s, g["model"], me)
            self.body(s, tr[1:], g["result"])
            if not (isinstance(v, tuple) and len(v) == 2):
                raise Mismatch("value returned")
            for name, k, x in (("actions taken", "taken", v[0]), ("proposed actions", "proposed", v[1])):
                got = contents(eng, x, s) if isinstance(x, CRef) else x
                want = Cont("list", project(tr, "take", k))
                if isinstance(got, TList) and len(want.segs) == 1 and len(want.segs[0].bvs) == 1:
                    pass
                m.value(f"all {name} are returned, in order", s, got, want)
        yield from m.out
        ctx.close(eng)

    def call(self, s, f, comb, unapplied):
        m = self.m
        m.value("the step itself is called", s, f["step"] is self.step, True)
        m.value("the step gets the nodes of the combination, in order", s, f["nodes"], elements(comb))
        m.value("the step gets the graph", s, f["graph"], self.graph)
        u = f["unapplied"]
        if unapplied is None:
            if u is not None:
                raise Mismatch("pending proposals although the step does not use them")
        else:
            unapplied(s, u)

    def take(self, s, f, want):
        m = self.m
        m.value("results are applied on this model", s, f["model"], self.me)
        m.value("the graph is changed exactly if changes are switched on", s, f["dry"], self.dry)
        m.value("every result is handed over exactly once, in order", s, f["results"], want)

    def within(self, s, *pc):
        s = s.copy()
        s.pc = s.pc + [tob(p) for p in pc]
        return s

    def loop(self, s, tr, seq, name):
        """a loop over seq: (index, range, [(pc, segments)])"""
        if len(tr) != 1 or not isinstance(tr[0].elem, BlockV) and len(tr[0].bvs) != 1:
            raise Mismatch(name)
        g = tr[0]
        if isinstance(g.elem, BlockV):
            b = g.elem
            if len(b.bvs) != 1 or any(sk for _, sk, _ in b.paths):
                raise Mismatch(name)
            i, guard, paths = b.bvs[0], b.guard, [(pc, gs) for pc, _, gs in b.paths]
        else:
            i, guard, paths = g.bvs[0], g.guard, [([g.guard], [Seg((), True, g.elem)])]
        if i.sort() != I:
            raise Mismatch(name)
        rng = z3.And(i >= 0, i < seq_len(seq.t))
        self.m.ob(f"{name}: once for every element, in order", s.pc, ForAll([i], Iff(rng, And(guard, Or(*[And(*pc) for pc, _ in paths])))))
        return i, rng, paths

    def body(self, s, tr, comb):
        raise NotImplementedError


class PlainRun(StepRun):
    def body(self, s, tr, comb):
        if len(tr) != 2:
            raise Mismatch("calls, then application")
        i, rng, f = self.m.loop_event(tr[0], "call", comb.t, s, "the step is called")
        want = Cont("list", [Seg([i], rng, f["result"])])
        un = None
        if self.flags.get("needs_unapplied_actions"):
            def un(s2, u):
                if u is None:
                    self.m.ob("the step gets the proposals pending so far", s2.pc, False)
                    return
                if not isinstance(u, AccV) or u.local:
                    raise Mismatch("pending proposals")
                c = s.store.get(u.oid)
                self.m.value("the step gets exactly the results of the earlier combinations", s, contents(self.eng, CRef(u.oid), s), want)
        self.call(self.within(s, rng), f, SV(seq_at(comb.t, i)), un)
        self.take(s, self.m.ev(tr[1], "take"), want)


class SyncRun(StepRun):
    def body(self, s, tr, comb):
        i, rng, paths = self.loop(s, tr, comb, "the combinations are worked on")
        for pc, gs in paths:
            if len(gs) != 2:
                raise Mismatch("call, then application")
            s2 = self.within(s, rng, *pc)
            f = self.m.ev(gs[0], "call")
            un = None
            if self.flags.get("needs_unapplied_actions"):
                def un(s3, u):
                    self.m.value("nothing is pending when each decision is applied at once", s3, u, Cont("list"))
            self.call(s2, f, SV(seq_at(comb.t, i)), un)
            self.take(s2, self.m.ev(gs[1], "take"), singleton(f["result"]))


class ChunkRun(StepRun):
    def body(self, s, tr, comb):
        i, rng, paths = self.loop(s, tr, comb, "the chunks are worked on")
        for pc, gs in paths:
            if len(gs) != 2:
                raise Mismatch("calls, then application")
            s2 = self.within(s, rng, *pc)
            chunk = seq_at(comb.t, i)
            j, r2, f = self.m.loop_event(gs[0], "call", chunk, s2, "the step is called for a chunk")
            self.call(self.within(s2, r2), f, SV(seq_at(chunk, j)), None)
            self.take(s2, self.m.ev(gs[1], "take"), Cont("list", [Seg([j], r2, f["result"])]))


class ParallelRun(StepRun):
    def body(self, s, tr, comb):
        if len(tr) != 2:
            raise Mismatch("tasks, then application")
        p = self.m.ev(tr[0], "pool")
        if not (isinstance(p["func"], FuncV) and p["func"].fn.key == "causy/graph_utils.py:unpack_run"):
            raise Mismatch("function run by the workers")
        i = z3.Const(fresh_name("i"), I)
        rng = z3.And(i >= 0, i < seq_len(comb.t))
        t = p["tasks"]
        if not (isinstance(t, Cont) and len(t.segs) == 1 and len(t.segs[0].bvs) == 1 and isinstance(t.segs[0].elem, (Cont, tuple))):
            raise Mismatch("tasks")
        g = t.segs[0]
        i = g.bvs[0]
        e = g.elem
        parts = list(e) if isinstance(e, tuple) else [x.elem for x in e.segs if not x.bvs and x.guard is True]
        self.m.ob("one task for every combination", s.pc, ForAll([i], Iff(g.guard, z3.And(i >= 0, i < seq_len(comb.t)))))
        if len(parts) != 3 or isinstance(e, Cont) and len(e.segs) != 3:
            raise Mismatch("task")
        s2 = self.within(s, g.guard)
        self.call(s2, {"step": parts[0], "nodes": parts[1], "graph": parts[2], "unapplied": None}, SV(seq_at(comb.t, i)), None)
        res = p["result"]
        k, rng, paths = self.loop(s, tr[1:], res, "the results are worked on")
        r = SV(seq_at(res.t, k))
        isl = r.isinst(None, None, "list")
        for pc, gs in paths:
            if len(gs) != 1:
                raise Mismatch("application of a result")
            s3 = self.within(s, rng, *pc)
            f = self.m.ev(gs[0], "take")
            got = f["results"]
            if got is not None and isinstance(got, SV) and got.t.eq(r.t):
                self.m.ob("a result that is no list is handed over as one result", s3.pc, isl)
                want = r
            else:
                self.m.ob("a list of results is handed over as it is", s3.pc, Not(isl))
                want = singleton(r)
            self.take(s3, f, want)


def step_units():
    out = []
    for sync in (None, False, True):
        for un in (None, False, True):
            fl = {"parallel": False}
            if sync is not None:
                fl["apply_synchronous"] = sync
            if un is not None:
                fl["needs_unapplied_actions"] = un
            lab = "synchronous" if sync else "collecting"
            lab += {None: " - attribute absent", False: ""}[sync] if not sync else ""
            lab += {None: ", pending attribute absent", False: "", True: ", with pending proposals"}[un]
            out.append(((SyncRun if sync else PlainRun)(lab, fl)))
    out.append(ChunkRun("chunked", {"parallel": False}, True))
    out.append(ParallelRun("parallel", {"parallel": True}, False, "pool"))
    out.append(ParallelRun("parallel, pool not yet started", {"parallel": True}, False))
    key = f"{GMF}:AbstractGraphModel.execute_pipeline_step"
    return [Unit(f"execute_pipeline_step ({r.mode})", r.gen, keys=[key, f"{GMF}:AbstractGraphModel._format_yield"] if i == 0 else []) for i, r in enumerate(out)]


def unpack_unit():
    def gen(ctx):
        fn = ctx.prog.mod("causy/graph_utils.py").funcs["unpack_run"]
        eng = TraceEngine(ctx, fn.key)
        step = StepV({}, False)
        for n in (2, 3):
            st = start(ctx)
            a = [SV(z3.Const(x, Obj)) for x in ("nodes", "graph", "pending")[:n]]
            ref = st.new(Cont("list", [Seg((), True, x) for x in [step] + a]))
            m = Match(eng, f"unpack_run ({n} arguments)")
            for s, v in eng.call_fn(FuncV(fn), [ref], {}, st):
                if isinstance(v, Raised):
                    m.ob(f"never raises {v.exc}", s.pc, False)
                    continue
                tr = s.store[TR].segs
                if len(tr) != 1:
                    raise Mismatch("one call")
                f = m.ev(tr[0], "call")
                for k, w in zip(("nodes", "graph", "unapplied"), a + [None]):
                    m.value(f"argument {k}", s, f[k], w) if w is not None else m.ob("no further argument", s.pc, f[k] is None)
                m.value("the result of the call is returned", s, v, f["result"])
            yield from m.out
        ctx.close(eng)
    return Unit("unpack_run", gen, keys=["causy/graph_utils.py:unpack_run"])


def call_unit():
    """PipelineStepInterface.__call__ hands its arguments to process"""
    def gen(ctx):
        c, fn = method_of(ctx, IFACE, "PipelineStepInterface", "__call__")
        eng = TraceEngine(ctx, fn.key)
        nodes, graph, pend = (SV(z3.Const(x, Obj)) for x in ("nodes", "graph", "pending"))

        def process(e, st, recv, args, kws):
            b = bind_args(["nodes", "graph", "unapplied_actions"], args, kws, "process")
            s = st.copy()
            r = SV(skolem(s, "result"))
            event(s, "process", nodes=b.get("nodes"), graph=b.get("graph"), pending=b.get("unapplied_actions"), result=r)
            return [(s, r)]
        eng.obj_methods[("self", "process")] = process
        for needs in (False, True):
            for given in (False, True):
                st = start(ctx)
                p = pend if given else None
                if given:
                    st.pc.append(Not(pend.is_none(None, None)))
                me = ObjV("self", c, {"needs_unapplied_actions": needs, "name": SV(z3.Const("self.name", Obj))})
                m = Match(eng, f"PipelineStepInterface.__call__ (needs pending {needs}, given {given})")
                for s, v in eng.call_fn(FuncV(fn, me), [nodes, graph] + ([p] if given else []), {}, st):
                    if isinstance(v, Raised):
                        m.ob(f"never raises {v.exc}", s.pc, False)
                        continue
                    tr = s.store[TR].segs
                    if len(tr) != 1:
                        raise Mismatch("one call")
                    f = m.ev(tr[0], "process")
                    m.value("process gets the nodes", s, f["nodes"], nodes)
                    m.value("process gets the graph", s, f["graph"], graph)
                    if needs and given:
                        m.value("process gets the pending proposals", s, f["pending"], pend)
                    else:
                        m.ob("process gets no pending proposals", s.pc, f["pending"] is None)
                    m.value("the result of process is returned", s, v, f["result"])
                yield from m.out
        ctx.close(eng)
    return Unit("PipelineStepInterface.__call__", gen, keys=[f"{IFACE}:PipelineStepInterface.__call__"])


class HistoryV:
    """graph.action_history: appending is an event"""
    closed = True
    def attr(self, eng, st, a):
        return [(st, MethV(self, a))]
    def method(self, eng, st, name, args, kws):
        if name != "append" or len(args) != 1:
            raise Unsupported(f"action_history.{name}")
        s = st.copy()
        event(s, "history", entry=eng.freeze(args[0], s))
        return [(s, None)]


def m_logic(eng, st, recv, args, kws):
    b = bind_args(["graph", "graph_model_instance_"], args, kws, "a logic step")
    s = st.copy()
    r = SV(skolem(s, "record"))
    event(s, "logic", step=recv, graph=b.get("graph"), model=b.get("graph_model_instance_"), result=r)
    return [(s, r)]


def m_purge(eng, st, recv, args, kws):
    s = st.copy()
    event(s, "purge", graph=recv)
    return [(s, None)]


def pipeline_unit():
    def gen(ctx):
        c, fn = method_of(ctx, GMF, "AbstractGraphModel", "execute_pipeline_steps")
        eng = TraceEngine(ctx, fn.key)
        steps = SV(z3.Const("pipeline_steps", Obj))
        graph = ObjV("graph", "GRAPH", {"action_history": HistoryV()})
        mgr = ObjV("manager", "MGR", {"graph": graph, "action_history": graph.attrs["action_history"]})
        me = ObjV("self", c, {"graph": mgr, "pipeline_steps": steps})
        eng.obj_methods[("self", "execute_pipeline_step")] = m_exec
        eng.obj_methods[("MGR", "purge_soft_deleted_edges")] = m_purge
        eng.sv_methods["execute"] = m_logic
        m = Match(eng, "execute_pipeline_steps")
        run = StepRun("", {})
        run.m = m
        st = start(ctx)
        for s, v in eng.call_fn(FuncV(fn, me), [], {}, st):
            if isinstance(v, Raised):
                m.ob(f"never raises {v.exc}", s.pc, False)
                continue
            i, rng, paths = run.loop(s, s.store[TR].segs, steps, "the steps of the pipeline")
            x = SV(seq_at(steps.t, i))
            logic = x.isinst(eng, s, "LogicStepInterface")
            for pc, gs in paths:
                s2 = run.within(s, rng, *pc)
                if len(gs) != 3:
                    raise Mismatch("execution, history entry, clean-up")
                kind = gs[0].elem.fields["kind"] if isinstance(gs[0].elem, RecV) and not gs[0].bvs else None
                h = m.ev(gs[1], "history")["entry"]
                p = m.ev(gs[2], "purge")
                m.value("soft-deleted edges are purged after the step", s2, p["graph"], mgr)
                if kind == "logic":
                    f = m.ev(gs[0], "logic")
                    m.ob("only logic steps are executed as logic steps", s2.pc, logic)
                    m.value("the logic step gets the graph", s2, f["graph"], graph)
                    m.value("the logic step gets the model", s2, f["model"], me)
                    m.value("each logic step is executed itself", s2, f["step"], x)
                    m.value("the record of the logic step is kept", s2, h, f["result"])
                else:
                    f = m.ev(gs[0], "exec")
                    m.ob("logic steps are executed as logic steps", s2.pc, Not(logic))
                    m.value("each step is executed itself", s2, f["step"], x)
                    m.value("the step runs on this model", s2, f["model"], me)
                    m.value("the step changes the graph", s2, f["apply"], True)
                    record_ok(m, s2, h, "the history entry", {"name": SV(z3.Function("attr_name", Obj, Obj)(x.t)), "actions": f["taken"], "all_proposed_actions": f["proposed"]})
            m.ob("the action history is returned", s.pc, isinstance(v, HistoryV))
        yield from m.out
        yield from eng.obls
        ctx.close(eng)
    return Unit("execute_pipeline_steps", gen, keys=[f"{GMF}:AbstractGraphModel.execute_pipeline_steps", f"{GMF}:AbstractGraphModel.execute_pipeline_step_with_progress"])


def p08_units():
    return step_units() + [unpack_unit(), call_unit(), pipeline_unit()]
