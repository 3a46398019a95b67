"""Every partially directed graph on 3 nodes (with soft-deleted edges) and 4 nodes (one in three in quick), random ones on up to 6 nodes: each of the four rules on every ordered pair against the premises of Meek's rules; the rules executed as steps (adjacencies must stay); collider rule and rule loop on the skeleton and separating sets of every DAG on 4 (random: 5) nodes must give its CPDAG; non-trivial: the premise of some rule holds."""
import itertools
from actions import *
import dsep
from causy.causal_discovery.constraint.orientation_rules import pc as rules
from causy.common_pipeline_steps.logic import Loop
from causy.common_pipeline_steps.exit_conditions import ExitOnNoActions
RULE = __doc__
CASE_LIMIT = 60
_m = []


def model():
    if not _m:
        _m.append(new_model())
    return _m[0]


def cases(rng, tier):
    for sp in pair_states(3, [None, ("U", False), ("D", True)]):
        yield {"n": 3, "edges": sp, "mode": "pairs"}
    for i, sp in enumerate(all_pdags(4)):
        if tier != "quick" or i % 3 == 0:
            yield {**sp, "mode": "pairs"}
    dags = [sp for sp in all_pdags(4, ("none", "ij", "ji")) if acyclic(sp)]
    for i, sp in enumerate(dags):
        if tier != "quick" or i % 2 == 0:
            yield {**sp, "mode": "cpdag"}
    for i in range(4000 if tier == "quick" else 40000):
        n = rng.choice([4, 5, 5, 6, 6, 7]) if i % 250 else rng.choice([8, 9])
        sp = rand_pdag(rng, n, rng.choice([.5, .8]), rng.choice([.3, .5, .8]), .15)
        yield {**sp, "mode": rng.choice(["pairs", "pairs", "steps"])}
    for i in range(400 if tier == "quick" else 5000):
        yield {**rand_pdag(rng, 5, rng.choice([.4, .6, .8]), 0, 0), "mode": "cpdag"}


def views(inp):
    lv = {(i, j) for i, j, t, d in inp["edges"] if not d}
    return lv


def prem(lv, n):
    """rule -> set of (pair as frozenset, (a, b), z-or-None): orient a -> b is warranted; for rule 1 also the conflict flag"""
    adj = lambda a, b: (a, b) in lv or (b, a) in lv
    und = lambda a, b: (a, b) in lv and (b, a) in lv
    one = lambda a, b: (a, b) in lv and (b, a) not in lv
    N = range(n)
    R = {1: set(), 2: set(), 3: set(), 4: set()}
    for a, b in itertools.permutations(N, 2):
        if not und(a, b):
            continue
        for c in N:
            if c in (a, b):
                continue
            if one(c, a) and not adj(c, b):
                conflict = any(d not in (a, b) and one(d, b) and not adj(d, a) for d in N)
                R[1].add((frozenset((c, b)), (a, b), conflict))
            if one(a, c) and one(c, b):
                R[2].add((frozenset((a, b)), (a, b), False))
        for c, d in itertools.permutations([k for k in N if k not in (a, b)], 2):
            # rule 3: a - c -> b, a - d -> b, c and d not adjacent
            if und(a, c) and und(a, d) and one(c, b) and one(d, b) and not adj(c, d):
                R[3].add((frozenset((c, d)), (a, b), False))
            # rule 4: a - c -> d -> b, a - d, c and b not adjacent
            if und(a, c) and und(a, d) and one(c, d) and one(d, b) and not adj(c, b):
                R[4].add((frozenset((a, d)), (a, b), False))
    return R


def nontrivial(inp):
    return any(prem(views(inp), inp["n"]).values())


STEPS = {1: "NonColliderTest", 2: "FurtherOrientTripleTest", 3: "OrientQuadrupleTest", 4: "FurtherOrientQuadrupleTest"}


def step(k):
    c = getattr(rules, STEPS[k], None)
    if c is None:
        raise Skip(STEPS[k] + " is gone")
    return c()


def check(inp):
    if inp["mode"] == "cpdag":
        return check_cpdag(inp)
    m = model()
    g, nodes, o = model_graph(m, inp)
    ids = list(nodes)
    idx = {i: k for k, i in enumerate(ids)}
    n = inp["n"]
    lv = {(idx[u], idx[v]) for u, v in live(g)}
    adj = lambda a, b: (a, b) in lv or (b, a) in lv
    R = prem(lv, n)
    if inp["mode"] == "steps":
        return check_steps(inp, m, g, idx, lv)
    before = snapshot(g)
    for k in STEPS:
        st = step(k)
        for x, y in itertools.permutations(range(n), 2):
            try:
                out = st.process([ids[x], ids[y]], g.graph)
            except Exception as e:
                return f"rule {k} ({STEPS[k]}) failed on pair {(x, y)}: {type(e).__name__}: {e}"
            out = [] if out is None else list(out) if isinstance(out, (list, tuple)) else [out]
            mine = {(ab, c) for p, ab, c in R[k] if p == frozenset((x, y))}
            oriented = 0
            for r in out:
                if r is None:
                    continue
                a, b = idx[r.v.id], idx[r.u.id]           # removing b -> a orients a -> b
                if r.action == A.DO_NOTHING:
                    if ((a, b), True) not in mine:
                        return f"rule {k} reports a conflict for {a} -> {b} on pair {(x, y)} but there is none"
                    oriented += 1
                    continue
                if r.action != A.REMOVE_EDGE_DIRECTED:
                    return f"rule {k} proposes {r.action.name} on pair {(x, y)}"
                if (a, b) not in lv or (b, a) not in lv:
                    return f"rule {k} proposes to orient {a} -> {b}, which is not an undirected edge"
                if ((a, b), False) not in mine:
                    return f"rule {k} on pair {(x, y)} orients {a} -> {b} without warrant" + (" (it creates a new collider)" if ((a, b), True) in mine else "")
                oriented += 1
            if mine and not oriented:
                return f"rule {k} on pair {(x, y)} proposes nothing, warranted: {sorted(mine)}"
    if snapshot(g) != before:
        return "a rule changed the graph: " + str(diff(before, snapshot(g)))
    return None


def check_steps(inp, m, g, idx, lv):
    for k in STEPS:
        a0 = {frozenset((idx[u], idx[v])) for u, v in live(g)}
        try:
            m.execute_pipeline_step(step(k))
        except Exception as e:
            return f"executing rule {k} failed: {type(e).__name__}: {e}"
        l1 = {(idx[u], idx[v]) for u, v in live(g)}
        a1 = {frozenset(p) for p in l1}
        if not conflicting(lv, inp["n"], k):
            if a0 != a1:
                return f"executing rule {k} changed the adjacent pairs: {sorted(map(sorted, a0 ^ a1))}"
        lv = l1
    return None


def conflicting(lv, n, k):
    """both directions of one edge warranted at the same time"""
    w = {ab for p, ab, c in prem(lv, n)[k]}
    return any((b, a) in w for a, b in w)


def check_cpdag(inp):
    steps = [rules.ColliderTest(), Loop(pipeline_steps=[step(k) for k in STEPS], exit_condition=ExitOnNoActions())]
    m = new_model(steps)
    n = inp["n"]
    dag = {(i, j) for i, j, t, d in inp["edges"]}
    und = []
    hist = []
    for a, b in itertools.combinations(range(n), 2):
        if (a, b) in dag or (b, a) in dag:
            und += [[a, b, "U", False], [b, a, "U", False]]
        else:
            for k in range(n - 1):
                S = next((S for S in itertools.combinations([c for c in range(n) if c not in (a, b)], k) if dsep.dsep_dag(n, dag, a, b, set(S))), None)
                if S is not None:
                    hist.append((a, b, S))
                    break
    g, nodes, o = model_graph(m, {"n": n, "edges": und})
    ids = list(nodes)
    idx = {i: k for k, i in enumerate(ids)}
    for a, b, S in hist:
        r = TestResult(u=nodes[ids[a]], v=nodes[ids[b]], action=A.REMOVE_EDGE_UNDIRECTED, data={"separatedBy": [nodes[ids[k]] for k in S]})
        g.add_edge_history(nodes[ids[a]], nodes[ids[b]], r)
        g.add_edge_history(nodes[ids[b]], nodes[ids[a]], r)
    try:
        m.execute_pipeline_steps()
    except Exception as e:
        return f"orienting the skeleton failed: {type(e).__name__}: {e}"
    got = {(idx[u], idx[v]) for u, v in live(g)}
    want = cpdag(n, dag)
    if got != want:
        return f"oriented skeleton has the present edges {sorted(got)}, the CPDAG is {sorted(want)}"
    return None


def cpdag(n, dag):
    """edges common to all Markov equivalent DAGs stay directed"""
    key = lambda d: (frozenset(frozenset(e) for e in d), frozenset((frozenset((a, c)), b) for a, b in d for c, b2 in d if b2 == b and c != a and (a, c) not in d and (c, a) not in d))
    sk = sorted(tuple(sorted(e)) for e in dag)
    k0 = key(dag)
    out = set()
    for combo in itertools.product((0, 1), repeat=len(sk)):
        d = {(a, b) if c else (b, a) for (a, b), c in zip(sk, combo)}
        if acyclic({"n": n, "edges": [[a, b, "D", False] for a, b in d]}) and key(d) == k0:
            out |= d
    return out
