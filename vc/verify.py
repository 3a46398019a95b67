"""Obligations, their discharge, and verification units."""
import os, time, traceback, subprocess, tempfile, signal
import z3
from .base import *
from .interp import Engine, fresh_heap, HEAP, BASE_AX
from .graphspec import View, RI
from .program import Program


class Obl:
    def __init__(self, name, hyps, goal):
        self.name = name
        self.hyps = [tob(h) for h in hyps if h is not True] + BASE_AX
        self.goal = tob(goal)


class Result:
    """outcome of one obligation"""
    def __init__(self, unit, name, status, backend, t, note=""):
        self.unit, self.name, self.status, self.backend, self.t, self.note = unit, name, status, backend, t, note

    def js(self):
        return {"unit": self.unit, "name": self.name, "status": self.status, "backend": self.backend, "t": round(self.t, 3), "note": self.note}


def split_goal(g):
    """conjuncts of a goal; universally quantified goals are skolemised, implications flattened"""
    out = []

    def go(hyps, g):
        if z3.is_and(g):
            for c in g.children():
                go(hyps, c)
        elif z3.is_implies(g):
            go(hyps + [g.arg(0)], g.arg(1))
        elif z3.is_quantifier(g) and g.is_forall():
            cs = [z3.Const(fresh_name("sk_" + g.var_name(i)), g.var_sort(i)) for i in range(g.num_vars())]
            go(hyps, z3.substitute_vars(g.body(), *reversed(cs)))
        elif z3.is_eq(g) and g.arg(0).sort() == B and not (z3.is_true(g.arg(1)) or z3.is_false(g.arg(1))):
            go(hyps + [g.arg(0)], g.arg(1))
            go(hyps + [g.arg(1)], g.arg(0))
        else:
            out.append((hyps, g))
    go([], g)
    return out


def z3_check(hyps, goal, timeout, mbqi):
    s = z3.SimpleSolver() if not mbqi else z3.Solver()
    if not mbqi:
        s.set("auto_config", False)
        s.set("mbqi", False)
    s.set("timeout", timeout)
    s.add(*hyps)
    s.add(z3.Not(goal))
    r = s.check()
    return r, s


def cvc5_check(hyps, goal, timeout):
    s = z3.Solver()
    s.add(*hyps)
    s.add(z3.Not(goal))
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run(["cvc5", f"--tlimit={timeout}", "--full-saturate-quant", f.name], capture_output=True, text=True, timeout=timeout / 1000 + 5)
        return p.stdout.strip().split("\n")[0] if p.stdout else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(f.name)


def ground(f, doms, cache=None):
    """expand quantifiers over the finite domains (sort name -> constants)"""
    cache = {} if cache is None else cache
    k = f.get_id()
    if k in cache:
        return cache[k][1]
    if z3.is_quantifier(f):
        n = f.num_vars()
        sorts = [f.var_sort(i) for i in range(n)]
        key = lambda s: s.name() if s.kind() != z3.Z3_ARRAY_SORT else str(s)
        if f.is_lambda() or any(key(s) not in doms for s in sorts):
            raise Unsupported("cannot ground")
        import itertools
        parts = []
        for combo in itertools.product(*[doms[key(s)] for s in sorts]):
            parts.append(ground(z3.substitute_vars(f.body(), *reversed(combo)), doms, {}))
        r = z3.And(*parts) if f.is_forall() else z3.Or(*parts)
    elif f.num_args():
        ch = [ground(c, doms, cache) for c in f.children()]
        r = f.decl()(*ch) if not (z3.is_and(f) or z3.is_or(f)) else (z3.And(*ch) if z3.is_and(f) else z3.Or(*ch))
    else:
        r = f
    cache[k] = (f, r)
    return r


def consts_of(fs, sort):
    out, seen, todo = {}, set(), list(fs)
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if x.sort() == sort:
                out[x.decl().name()] = x
        else:
            todo += x.children()
    return out


def finite_model(hyps, goal, k=3, timeout=4000, fin=None):
    """counter-model with k node ids, or None; fin(dom, formulas): further domains, meaning of functions on them, extra facts"""
    dom = [z3.Const(f"node{i}", Id) for i in range(k)]
    doms = {"Id": dom}
    more, rewrite, facts = fin(dom, list(hyps) + [goal]) if fin else ({}, lambda f: f, [])
    doms.update(more)
    try:
        fs = [rewrite(ground(h, doms)) for h in hyps] + [rewrite(ground(z3.Not(goal), doms))]
    except Unsupported:
        return None
    s = z3.SolverFor("QF_AUFLIRA") if not fin else z3.Solver()
    s.set("timeout", timeout)
    s.add(z3.Distinct(*dom))
    s.add(*facts)
    for n, c in consts_of(list(hyps) + [goal], Id).items():
        if n.startswith("node"):
            continue
        s.add(z3.Or(*[c == d for d in dom]))
    s.add(*fs)
    try:
        if s.check() == z3.sat:
            return s.model(), dom
    except z3.Z3Exception:
        return None
    return None


HARD = [0.0]       # seconds spent on obligations the first stage did not settle


def discharge(o, quick=True, heap=None, cross=False):
    """list of (status, backend, seconds, note) per conjunct"""
    res = []
    for i, (hy, g) in enumerate(split_goal(o.goal)):
        t0 = time.time()
        hyps = o.hyps + hy
        g = tob(g)
        numeric = "(numeric)" in o.name       # proved or undecided (uninterpreted functions): no search for counter-models
        if numeric and HARD[0] > (40 if quick else 400):
            res.append(("unknown", "z3", 0.0, "time budget of this unit is used up"))
            continue
        r, s = z3_check(hyps, g, (4000 if numeric else 8000) if quick else 30000, False)
        if numeric and r != z3.unsat:
            HARD[0] += time.time() - t0
            res.append(("unknown", "z3", time.time() - t0, "equality of numbers is not decided"))
            continue
        if r == z3.unsat:
            be = "z3"
            if cross and cvc5_check(hyps, g, 10000) == "unsat":
                be = "z3+cvc5"
            res.append(("proved", be, time.time() - t0, ""))
            continue
        if HARD[0] > (60 if quick else 600):
            res.append(("unknown", "z3", time.time() - t0, "time budget of this unit is used up"))
            continue
        th = time.time()
        r2, s2 = z3_check(hyps, g, 5000 if quick else 20000, True)
        HARD[0] += time.time() - th
        if r2 == z3.unsat:
            res.append(("proved", "z3", time.time() - t0, ""))
            continue
        note = ""
        if r2 == z3.sat:
            note = describe(s2.model(), heap, None, hyps, g)
            res.append(("refuted", "z3", time.time() - t0, note))
            continue
        fm = None
        th = time.time()
        for k in (2, 3, 4):
            fm = finite_model(hyps, g, k, fin=getattr(o, "fin", None))
            if fm:
                break
        HARD[0] += time.time() - th
        if fm:
            res.append(("refuted", "z3-finite", time.time() - t0, describe(fm[0], heap, fm[1], hyps, g)))
            continue
        th = time.time()
        c5 = cvc5_check(hyps, g, 6000 if quick else 40000)
        HARD[0] += time.time() - th
        if c5 == "unsat":
            res.append(("proved", "cvc5", time.time() - t0, ""))
            continue
        res.append(("unknown", "z3,cvc5", time.time() - t0, s.reason_unknown()))
    return res


def describe(m, heap, dom, hyps, goal):
    """human readable counter-model: node ids, stored edges, arguments"""
    out = [f"violated: {str(goal)[:400]}"]
    try:
        if dom is None:
            dom = list(m.get_universe(Id) or [])[:4]
        out.append("nodes ids: " + ", ".join(map(str, dom)))
        for n, c in sorted(consts_of(list(hyps) + [goal], Id).items()):
            out.append(f"  {n} = {m.eval(c, model_completion=True)}")
        if heap:
            V = View(heap)
            ev = lambda x: m.eval(tob(x), model_completion=True)
            for a in dom:
                out.append(f"  {a}: node={ev(V.node(a))}")
                for b in dom:
                    if z3.is_true(ev(V.raw(a, b))):
                        out.append(f"  edge {a}->{b} deleted={ev(V.dead(a, b))} type={m.eval(V.etype(a, b), model_completion=True)}")
                    if z3.is_true(ev(V.rec(a, b))):
                        out.append(f"  removed edge {a}->{b}")
    except Exception as e:
        out.append(f"(model not printable: {e})")
    return "\n".join(out)


class Unit:
    """one function (or lemma) under contract"""
    def __init__(self, name, gen, own=True, keys=(), timeout=600):
        self.name, self.gen, self.keys = name, gen, keys

    def run(self, quick=True, cross=False):
        t0 = time.time()
        HARD[0] = 0.0
        rep = {"unit": self.name, "functions": list(self.keys), "results": [], "error": None, "used": [], "inlined": [], "assumed": [], "approx": False, "vacuous": False}
        try:
            prog = Program()
            ctx = Ctx(prog)
            obls = list(self.gen(ctx))
            rep["used"] = sorted(ctx.used)
            rep["inlined"] = sorted(ctx.inlined)
            rep["assumed"] = sorted(ctx.assumed)
            rep["approx"] = ctx.approx
            rep["engine_s"] = round(time.time() - t0, 2)
            rep["feas"] = ctx.feas
            if not obls:
                rep["error"] = "no obligations generated"
            for o in obls:
                for j, (stt, be, t, note) in enumerate(discharge(o, quick, ctx.heap, cross)):
                    rep["results"].append(Result(self.name, o.name, stt, be, t, note).js())
            for nm, hy in ctx.vacuity:
                r, _ = z3_check([tob(h) for h in hy], z3.BoolVal(False), 1500, False)
                if r == z3.unsat:
                    rep["vacuous"] = True
                    rep["error"] = f"vacuous precondition: {nm}"
        except Unsupported as e:
            rep["error"] = f"outside the verified subset: {e}"
        except LoopCarried as e:
            rep["error"] = f"outside the verified subset: loop carried value {e.what}"
        except RecursionError:
            rep["error"] = "outside the verified subset: recursion limit"
        except Exception as e:
            rep["error"] = f"verifier error: {type(e).__name__}: {e}"
            rep["trace"] = traceback.format_exc()[-1500:]
        rep["wall"] = round(time.time() - t0, 2)
        return rep


class Ctx:
    """collects what the engines of one unit relied on"""
    def __init__(self, prog):
        self.prog = prog
        self.used, self.inlined, self.assumed = set(), set(), set()
        self.approx = False
        self.feas = 0
        self.vacuity = []
        self.heap = None

    def engine(self, contracts=None, target=None):
        e = Engine(self.prog, contracts or {})
        e.target = target
        e.ri_heaps = []
        e.used, e.inlined, e.assumed = self.used, self.inlined, self.assumed
        e._stack = []
        return e

    def close(self, eng):
        self.approx = self.approx or eng.approx
        self.feas += eng.feas

    def start(self, eng, ri=True):
        from .base import State
        st = State()
        st.heap = fresh_heap()
        st.pc = [ETYPES_DISTINCT]
        if ri:
            st.pc += RI(st.heap)
            eng.ri_heaps.append(dict(st.heap))
        self.heap = dict(st.heap)
        self.vacuity.append((eng.target or "start", list(st.pc)))
        return st
