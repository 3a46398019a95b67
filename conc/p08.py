"""Random pipelines of 1-3 recording steps (plain, synchronous, chunked, with unapplied actions, parallel through an in-process pool, logic steps) with scripted results on random graphs, through execute_pipeline_step (with and without applying) and execute_pipeline_steps; compared with an executable specification; non-trivial: at least one call that proposes something."""
from steps import *
from causy.models import ActionHistoryStep
RULE = __doc__


def cases(rng, tier):
    g = {"n": 3, "edges": [[0, 1, "U", False], [1, 0, "U", False], [1, 2, "D", False]]}
    for k in (40, 130, 1100):
        for chunked in (False, True):
            co = [IDS[:3], IDS[1:3], IDS[:2]] * (k // 3 + 1)
            st = {"tag": 0, "sync": False, "unapplied": False, "combos": [co[:k - 7], co[k - 7:k]] if chunked else co[:k], "chunked": chunked}
            if not chunked:
                del st["chunked"]
            yield {**g, "steps": [st], "scripts": {0: [["UPDATE_EDGE", IDS[0], IDS[1], {"c": i}] if i % 3 else None for i in range(k)]}, "whole": chunked, "apply": True}
    for k in (15, 40):
        yield {**g, "steps": [{"tag": t, "sync": t % 5 == 1, "unapplied": t % 7 == 2, "combos": [IDS[:2]]} for t in range(k)], "scripts": {t: [["UPDATE_EDGE", IDS[0], IDS[1], {"c": t}]] for t in range(k)}, "whole": True, "apply": True}
    for _ in range(6000 if tier == "quick" else 80000):
        n = rng.randint(2, 4)
        ids = IDS[:n]
        sp = rand_graph(rng, n, rng.choice([.5, .9]), 0, "DU")
        whole = rng.random() < .5
        k = rng.choice([0, 1, 2, 3, 3, 5]) if whole else 1
        steps = [rand_step(rng, t, ids) for t in range(k)]
        scripts = {}
        for i, s in enumerate(steps):
            if whole and rng.random() < .25:
                steps[i] = {"tag": s["tag"], "logic": True, "combos": []}
                scripts[s["tag"]] = [rand_action(rng, ids) for _ in range(rng.randint(0, 4))]
                continue
            c = sum(len(x) for x in s["combos"]) if s.get("chunked") else len(s["combos"])
            scripts[s["tag"]] = rand_script(rng, ids, c)
        yield {**sp, "steps": steps, "scripts": scripts, "whole": whole, "apply": whole or rng.random() < .7}


def nontrivial(inp):
    return any(acts_of(r) for q in inp["scripts"].values() for r in q)


def check(inp):
    scripts = {int(k): v for k, v in inp["scripts"].items()}
    steps = [make_step(s) for s in inp["steps"]]
    if inp["whole"]:
        m = new_model([])
        m.pipeline_steps = steps
        m.algorithm.pipeline_steps = steps
    else:
        m = new_model([])
    m.pool = FakePool()
    g, nodes, o = model_graph(m, inp)
    reset(nodes, scripts)
    exp = []
    before = snapshot(g)
    for s in inp["steps"]:
        q = list(scripts[s["tag"]])
        calls, taken, prop = expect_step(s, q, o, inp["apply"])
        exp.append((calls, taken, prop))
        if inp["whole"]:
            o.op(["purge", None, None])
    if inp["whole"]:
        hist = m.execute_pipeline_steps()
        hist = list(m.graph.action_history) if hist is None else list(hist)
        if len(hist) != len(steps):
            return f"{len(steps)} steps were configured, the history has {len(hist)} entries"
        reports = [(h.actions, h.all_proposed_actions) for h in hist]
        for h, s, d in zip(hist, steps, inp["steps"]):
            want = "logic %d" % d["tag"] if d.get("logic") else s.name
            if h.name != want:
                return f"history entry is named {h.name}, the step {want}"
        for e in LOG:
            if e[0] == "model" and (e[2] is not m or e[3] is not m.graph.graph):
                return "a logic step did not get the model and its graph"
    else:
        reports = [m.execute_pipeline_step(steps[0], apply_to_graph=False) if not inp["apply"] else m.execute_pipeline_step(steps[0])]
    order = [e[1] for e in LOG if e[0] == "call"]
    if order != sorted(order):
        return f"steps were not executed one after the other: {order}"
    tbl = list(TBL)
    for s, (calls, taken, prop), (rt, rp) in zip(inp["steps"], exp, reports):
        r = check_calls(LOG, s["tag"], calls, tbl)
        if r:
            return r
        if [rkey(x) for x in rp] != [key(a) for a in prop]:
            return f"step {s['tag']}: proposed actions are reported as {[rkey(x)[:3] for x in rp]}, expected {[a[:3] for a in prop]}"
        if [rkey(x) for x in rt] != [key(a) for a in taken]:
            return f"step {s['tag']}: taken actions are reported as {[rkey(x)[:3] for x in rt]}, expected {[a[:3] for a in taken]}"
    if not inp["apply"]:
        d = diff(before, snapshot(g))
        return f"the graph changed although changes were switched off: {d}" if d else None
    s = snapshot(g)
    if s["edges"] != o.view():
        return "graph after execution, expected -> actual: " + str(diff({"edges": o.view()}, {"edges": s["edges"]}))
    want = {f"{k[0]}|{k[1]}": [key(a) for a in v] for k, v in o.hist.items()}
    got = {f"{k[0]}|{k[1]}": [rkey(x) for x in v] for k, v in g.edge_history.items() if len(v)}
    if want != got:
        return f"edge histories differ: {diff({'h': want}, {'h': got})}"
    if inp["whole"] and any(e.deleted for d in g.edges.values() for e in d.values()):
        return "a soft-deleted edge was left behind"
    return None
