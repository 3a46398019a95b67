"""Recording pipeline steps and generators."""
import random
from typing import Optional, List, Any
from actions import *
from causy.interfaces import PipelineStepInterface, GeneratorInterface, PipelineStepInterfaceType
from causy.interfaces import ExitConditionInterface
from typing import Generic

LOG = []          # events of the current case
SCRIPT = {}       # tag -> list of responses (consumed per call)
NODES = {}
TBL = []          # (real result, abstract action)


class ScriptGen(GeneratorInterface):
    tag: int = 0
    combos: List[Any] = []

    def __init__(self, tag=0, combos=(), chunked=False, **kw):
        super().__init__(chunked=chunked)
        self.tag = tag
        self.combos = list(combos)

    def generate(self, graph, graph_model_instance_):
        LOG.append(("generate", self.tag))
        for c in self.combos:
            LOG.append(("yield", self.tag, c))
            yield c


def _process(self, nodes, graph, unapplied):
    LOG.append(("call", self.tag, list(nodes), snapshot(graph)["edges"], None if unapplied is None else flat(unapplied)))
    q = SCRIPT.get(self.tag)
    r = q.pop(0) if q else None
    if r is None:
        return None
    single = bool(r) and isinstance(r[0], str)
    acts = [list(a) for a in ([r] if single else r)]
    rs = [real_result(a, NODES) for a in acts]
    TBL.extend(zip(rs, acts))
    LOG.append(("result", self.tag, acts))
    return rs[0] if single else rs


def flat(res):
    out = []
    for x in res:
        if x is None:
            continue
        out += [y for y in x] if isinstance(x, (list, tuple)) else [x]
    return [id(x) for x in out]


class RecA(PipelineStepInterface[PipelineStepInterfaceType], Generic[PipelineStepInterfaceType]):
    tag: int = 0
    parallel: bool = False

    def process(self, nodes, graph, unapplied_actions=None):
        return _process(self, nodes, graph, unapplied_actions)


class RecB(PipelineStepInterface[PipelineStepInterfaceType], Generic[PipelineStepInterfaceType]):
    tag: int = 0
    parallel: bool = False
    needs_unapplied_actions: bool = True

    def process(self, nodes, graph, unapplied_actions=None):
        return _process(self, nodes, graph, unapplied_actions)


from causy.interfaces import LogicStepInterface, LogicStepInterfaceType
from causy.models import ActionHistoryStep


class RecLogic(LogicStepInterface[LogicStepInterfaceType], Generic[LogicStepInterfaceType]):
    """a logic step that applies scripted results"""
    tag: int = 0

    def execute(self, graph, graph_model_instance_):
        LOG.append(("call", self.tag, [], snapshot(graph)["edges"], None))
        rs = []
        for a in SCRIPT.get(self.tag) or []:
            r = real_result(a, NODES)
            TBL.append((r, a))
            rs.append(r)
        LOG.append(("model", self.tag, graph_model_instance_, graph))
        taken, prop = graph_model_instance_._take_action([rs])
        return ActionHistoryStep(name="logic %d" % self.tag, actions=taken, all_proposed_actions=prop, duration=0.0)


class FakePool:
    """runs in this process, as the pool would, but in order"""
    def imap_unordered(self, f, it, chunksize=1):
        for x in it:
            yield f(x)
    imap = imap_unordered

    def map(self, f, it, chunksize=1):
        return [f(x) for x in it]

    def starmap(self, f, it, chunksize=1):
        return [f(*x) for x in it]

    def close(self): pass
    def join(self): pass
    def terminate(self): pass


def make_step(s):
    if s.get("logic"):
        st = RecLogic(pipeline_steps=[])
        st.tag = s["tag"]
        return st
    cls = RecB if s.get("unapplied") else RecA
    st = cls(generator=ScriptGen(s["tag"], s["combos"], chunked=s.get("chunked", False)), parallel=False, apply_synchronous=s.get("sync", False))
    st.tag = s["tag"]
    if s.get("parallel"):
        st.parallel = True
    return st


def reset(nodes, scripts):
    LOG.clear(); TBL.clear(); SCRIPT.clear(); NODES.clear()
    NODES.update(nodes)
    for t, q in scripts.items():
        SCRIPT[t] = [x for x in q]


def rand_step(rng, tag, ids, logic=False):
    chunked = rng.random() < .25
    k = rng.randint(0, 5)
    combos = [rng.sample(ids, rng.randint(1, min(3, len(ids)))) for _ in range(k)]
    if rng.random() < .3 and k:
        combos.append(list(combos[0]))
    s = {"tag": tag, "sync": rng.random() < .35, "unapplied": rng.random() < .4}
    if chunked:
        c, i = [], 0
        while i < len(combos):
            j = i + rng.randint(0, 3)
            c.append(combos[i:j])
            i = max(j, i)
            if j == i and rng.random() < .5:
                c.append(combos[i:i + 1])
                i += 1
        s["chunked"] = True
        s["combos"] = c
    else:
        s["combos"] = combos
        if rng.random() < .15 and not logic:
            s["parallel"] = True
    return s


def rand_script(rng, ids, n):
    out = []
    for _ in range(n):
        r = rng.random()
        out.append(None if r < .25 else rand_action(rng, ids) if r < .5 else [rand_action(rng, ids) for _ in range(rng.randint(0, 3))])
    return out


def acts_of(r):
    if r is None:
        return []
    return [r] if r and isinstance(r[0], str) else list(r)


def expect_step(s, script, o, apply=True, check_calls=True, unordered=False):
    """consumes script; returns (expected calls [(nodes, edges view, unapplied)], taken, proposed)"""
    calls, taken, prop = [], [], []
    if s.get("logic"):
        v = o.view()
        for a in script:
            prop.append(a)
            if apply_oracle(o, a):
                taken.append(a)
        return [([], v, None)], taken, prop

    def act(batch):
        for r in batch:
            for a in acts_of(r):
                prop.append(a)
                if not apply or apply_oracle(o, a):
                    taken.append(a)
    if s.get("parallel"):
        for c in s["combos"]:
            r = script.pop(0) if script else None
            calls.append((c, None, None))
            act([r])
    elif s.get("chunked"):
        for ch in s["combos"]:
            batch = []
            v = o.view()
            for c in ch:
                calls.append((c, v, None))
                batch.append(script.pop(0) if script else None)
            act(batch)
    else:
        pend = []
        for c in s["combos"]:
            calls.append((c, o.view(), [a for r in pend for a in acts_of(r)] if s.get("unapplied") else None))
            pend.append(script.pop(0) if script else None)
            if s.get("sync"):
                act(pend)
                pend = []
        act(pend)
    return calls, taken, prop


def key(a):
    return (a[0], a[1], a[2], repr(a[3]))


def rkey(r):
    d = r.data
    if d is not None and "edge_type" in d and not isinstance(d["edge_type"], str):
        d = {**d, "edge_type": tname(d["edge_type"])}
    return (r.action.name, r.u.id, r.v.id, repr(d))


def check_calls(log, tag, exp, tbl):
    got = [e for e in log if e[0] == "call" and e[1] == tag]
    if len(got) != len(exp):
        return f"step {tag} was called {len(got)} times, its generator produced {len(exp)} combinations"
    ids = {id(r): a for r, a in tbl}
    for k, (g, (c, view, un)) in enumerate(zip(got, exp)):
        if g[2] != list(c):
            return f"call {k} of step {tag} got {g[2]}, combination {k} was {list(c)}"
        if view is not None and g[3] != view:
            return f"call {k} of step {tag} saw another graph than documented: {diff({'e': view}, {'e': g[3]})}"
        if un is not None:
            if g[4] is None:
                return f"call {k} of step {tag} did not get the unapplied actions"
            if len(g[4]) != len(un):
                return f"call {k} of step {tag} got {len(g[4])} unapplied actions, there were {len(un)}"
            if any(key(ids[x]) != key(a) for x, a in zip(g[4], un)):
                return f"call {k} of step {tag} got other unapplied actions"
    return None
