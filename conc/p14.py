"""Loops and groups of 1-3 recording steps with scripted results on random graphs: rounds, order of calls, recorded steps and their actions, the graph each decision sees, and the final graph, compared with an executable specification; loops with the no-action exit condition and with counting exit conditions; non-trivial: at least one action taken."""
from steps import *
from causy.common_pipeline_steps.logic import Loop, ApplyActionsTogether
from causy.common_pipeline_steps.exit_conditions import ExitOnNoActions
RULE = __doc__
TERMINATION = True
CASE_LIMIT = 20
SEEN = []


class StopAfter(ExitConditionInterface):
    rounds: int = 0

    def check(self, graph, graph_model_instance_, actions_taken, iteration):
        SEEN.append((iteration, None if actions_taken is None else [rkey(x) for x in actions_taken]))
        return iteration >= self.rounds


def cases(rng, tier):
    # many rounds, and many actions in one group
    g = {"n": 3, "edges": [[0, 1, "U", False], [1, 0, "U", False], [1, 2, "D", False]]}
    for r in (35, 70, 130):
        st = [{"tag": 0, "sync": False, "unapplied": False, "combos": [IDS[:2]]}, {"tag": 1, "sync": True, "unapplied": True, "combos": [IDS[:3]]}]
        sc = {0: [["UPDATE_EDGE", IDS[0], IDS[1], {"c": i}] for i in range(r)], 1: [None, ["UPDATE_EDGE_DIRECTED", IDS[1], IDS[2], {"c": 3}]]}
        for kind in ("loop", "count"):
            yield {**g, "steps": st, "scripts": sc, "kind": kind, "rounds": r, "whole": r == 70}
        yield {**g, "steps": st, "scripts": {0: [[["UPDATE_EDGE", IDS[0], IDS[1], {f"c{i}": i}] for i in range(r)]], 1: sc[1]}, "kind": "together", "rounds": 0, "whole": r == 70}
    for _ in range(9000 if tier == "quick" else 80000):
        n = rng.randint(2, 4)
        ids = IDS[:n]
        sp = rand_graph(rng, n, rng.choice([.5, .9]), 0, "DU")
        kind = rng.choice(["loop", "loop", "together", "count"])
        steps = [rand_step(rng, t, ids, True) for t in range(rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 6]))]
        scripts = {}
        for s in steps:
            c = sum(len(x) for x in s["combos"]) if s.get("chunked") else len(s["combos"])
            rounds = 1 if kind == "together" else rng.randint(1, 4)
            scripts[s["tag"]] = rand_script(rng, ids, c * rounds)
            if kind == "loop" and rng.random() < .3:
                scripts[s["tag"]] = [None] * c + scripts[s["tag"]]
        yield {**sp, "steps": steps, "scripts": scripts, "kind": kind, "rounds": rng.randint(0, 3), "whole": rng.random() < .4}


def nontrivial(inp):
    return any(acts_of(r) for q in inp["scripts"].values() for r in q)


def check(inp):
    scripts = {int(k): v for k, v in inp["scripts"].items()}
    steps = [make_step(s) for s in inp["steps"]]
    kind = inp["kind"]
    if kind == "loop":
        ls = Loop(pipeline_steps=steps, exit_condition=ExitOnNoActions())
    elif kind == "count":
        ls = Loop(pipeline_steps=steps, exit_condition=StopAfter(rounds=inp["rounds"]))
        ls.exit_condition.rounds = inp["rounds"]
    else:
        ls = ApplyActionsTogether(pipeline_steps=steps)
    m = new_model([])
    m.pool = FakePool()
    g, nodes, o = model_graph(m, inp)
    reset(nodes, scripts)
    SEEN.clear()
    # expectation
    qs = {t: list(q) for t, q in scripts.items()}
    rec, seen = [], []
    if kind == "together":
        allp = []
        for s in inp["steps"]:
            c, t, p = expect_step(s, qs[s["tag"]], o, False)
            rec.append((s["tag"], c, t, p))
            allp += p
        for a in allp:
            apply_oracle(o, a)
    else:
        n, last = 0, None
        while True:
            seen.append((n, last))
            if kind == "count" and n >= inp["rounds"]:
                break
            if kind == "loop" and n > 0 and not last:
                break
            last = []
            for s in inp["steps"]:
                c, t, p = expect_step(s, qs[s["tag"]], o, True)
                rec.append((s["tag"], c, t, p))
                last += [key(a) for a in t]
            n += 1
            if n > 200:
                raise Skip("script does not settle")
    if inp["whole"]:
        m.pipeline_steps = [ls]
        m.execute_pipeline_steps()
        if len(m.graph.action_history) != 1:
            return f"one logic step, but {len(m.graph.action_history)} history entries"
        h = m.graph.action_history[0]
        o.op(["purge", None, None])
    else:
        h = ls.execute(m.graph.graph, m)
    tbl = list(TBL)
    byt = {}
    for tag, c, t, p in rec:
        byt.setdefault(tag, []).extend(c)
    for tag, c in byt.items():
        r = check_calls(LOG, tag, c, tbl)
        if r:
            return f"{kind}: {r}"
    order = []
    for tag, c, t, p in rec:
        order += [tag] * len(c)
    got = [e[1] for e in LOG if e[0] == "call"]
    if got != order:
        return f"{kind}: steps were called in the order {got}, expected {order}"
    if h.name != ls.name or len(h.steps) != len(rec):
        return f"{kind}: {len(rec)} step executions expected, {len(h.steps)} recorded"
    nm = {s["tag"]: st.name for s, st in zip(inp["steps"], steps)}
    for hs, (tag, c, t, p) in zip(h.steps, rec):
        if hs.name != nm[tag]:
            return f"{kind}: recorded {hs.name}, expected {nm[tag]}"
        if [rkey(x) for x in hs.all_proposed_actions] != [key(a) for a in p]:
            return f"{kind}: proposals of step {tag} recorded as {[rkey(x)[:3] for x in hs.all_proposed_actions]}, expected {[a[:3] for a in p]}"
        if [rkey(x) for x in hs.actions] != [key(a) for a in t]:
            return f"{kind}: actions of step {tag} recorded as {[rkey(x)[:3] for x in hs.actions]}, expected {[a[:3] for a in t]}"
    if kind == "count":
        if [x[0] for x in SEEN] != [x[0] for x in seen]:
            return f"the exit condition was asked for iterations {[x[0] for x in SEEN]}, expected {[x[0] for x in seen]}"
        if any(a is not None and b is not None and a != b for (_, a), (_, b) in zip(SEEN, seen)):
            return "the exit condition was given other actions than those of the last round"
    s = snapshot(g)
    if s["edges"] != o.view():
        return f"{kind}: graph afterwards, expected -> actual: " + str(diff({"edges": o.view()}, {"edges": s["edges"]}))
    want = {f"{k[0]}|{k[1]}": [key(a) for a in v] for k, v in o.hist.items()}
    got = {f"{k[0]}|{k[1]}": [rkey(x) for x in v] for k, v in g.edge_history.items() if len(v)}
    if want != got:
        return f"{kind}: edge histories differ: {diff({'h': want}, {'h': got})}"
    return None
