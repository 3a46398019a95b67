"""Random and exhaustive (3 nodes, every edge state) graphs with recorded separating sets and not yet applied proposals: ColliderTest (both strategies) and ColliderRuleFCI are called on every ordered pair and their proposals compared with the definition; ColliderTest is also executed as a pipeline step; non-trivial: the pair has a common neighbour."""
import itertools
from actions import *
from causy.causal_discovery.constraint.orientation_rules.pc import ColliderTest, ColliderTestConflictResolutionStrategies as CS
from causy.causal_discovery.constraint.orientation_rules.fci import ColliderRuleFCI
RULE = __doc__
_m = []


def model():
    if not _m:
        _m.append(new_model())
    return _m[0]


def cases(rng, tier):
    st = [None, ("U", False), ("D", False), ("D", True)]
    for sp in pair_states(3, [None, ("U", False)]):
        yield {"n": 3, "edges": sp, "hist": [], "un": [], "k": [0, 1]}
        yield {"n": 3, "edges": sp, "hist": [[0, 1, [2]]], "un": [], "k": [0, 1]}
    N = 7000 if tier == "quick" else 60000
    for i in range(N):
        n = rng.choice([3, 4, 4, 5, 5, 6]) if i % 200 else rng.choice([8, 10])
        if rng.random() < .5:
            sp = rand_pdag(rng, n, rng.choice([.5, .7]), rng.choice([.5, .8, 1]), .2)
        else:
            sp = rand_graph(rng, n, .6, .2, "DU")
        hist = []
        for a, b in itertools.combinations(range(n), 2):
            if rng.random() < .5:
                for _ in range(rng.choice([1, 1, 2]) if i % 150 else 12):
                    hist.append([a, b, rng.choice([[], rng.sample(range(n), rng.randint(0, n))])])
        un = []
        if rng.random() < .6:
            for _ in range(rng.randint(0, 4)):
                r = rng.random()
                un.append(None if r < .2 else [[rng.choice(["REMOVE_EDGE_DIRECTED"] * 3 + ["DO_NOTHING", "RESTORE_EDGE_DIRECTED"]), *rng.sample(range(n), 2)] for _ in range(rng.randint(0, 3))])
        yield {**sp, "hist": hist, "un": un, "k": rng.sample(range(n), 2), "all": True}
    for i in range(N // 5):
        n = rng.choice([3, 4, 4, 5, 5, 6])
        sp = rand_pdag(rng, n, .6, rng.choice([.8, 1]), .1)
        hist = [[a, b, rng.sample(range(n), rng.randint(0, n - 2))] for a, b in itertools.combinations(range(n), 2) if rng.random() < .6]
        yield {**sp, "hist": hist, "run": rng.choice(["KEEP_FIRST", "KEEP_LAST"]), "k": [0, 1], "un": []}


def nontrivial(inp):
    lv = {(i, j) for i, j, t, d in inp["edges"] if not d}
    return any(any((x, z) in lv and (y, z) in lv for z in range(inp["n"])) and (x, y) not in lv for x in range(inp["n"]) for y in range(inp["n"]) if x != y)


def expect(lv, seps, un, strat, x, y, n):
    """({removes}, {conflicts}, {needed restores}) of the pair, by node number"""
    rem, conf, res = set(), set(), set()
    if (x, y) in lv or (y, x) in lv:
        return rem, conf, res
    for z in range(n):
        if z in (x, y) or (x, z) not in lv or (y, z) not in lv or any(z in s for s in seps.get((x, y), ())):
            continue
        cx = any(a[0] == "REMOVE_EDGE_DIRECTED" and tuple(a[1:3]) == (x, z) for a in un)
        cy = any(a[0] == "REMOVE_EDGE_DIRECTED" and tuple(a[1:3]) == (y, z) for a in un)
        if strat == "KEEP_FIRST" and (cx or cy):
            if cx:
                conf.add((z, x))
            if cy:
                conf.add((z, y))
            continue
        if cx:
            res.add((x, z))
        if cy:
            res.add((y, z))
        rem |= {(z, x), (z, y)}
    return rem, conf, res


def sort_out(out, idx):
    got = {"REMOVE_EDGE_DIRECTED": [], "DO_NOTHING": [], "RESTORE_EDGE_DIRECTED": []}
    order = []
    for r in out or []:
        k = r.action.name
        p = (idx[r.u.id], idx[r.v.id])
        if k not in got:
            return None, f"unexpected proposal {k} {p}"
        got[k].append(p)
        order.append((k, p))
    for i, (k, p) in enumerate(order):
        if k == "RESTORE_EDGE_DIRECTED" and any(k2 == "REMOVE_EDGE_DIRECTED" and set(p2) == set(p) for k2, p2 in order[:i]):
            return None, f"edge {p} is restored only after the edge was oriented"
    return got, None


def judge(out, exp, idx, what):
    if out is not None and not isinstance(out, (list, tuple)):
        out = [out]
    got, err = sort_out(out, idx)
    if err:
        return f"{what}: {err}"
    rem, conf, res = exp
    if set(got["REMOVE_EDGE_DIRECTED"]) != rem or len(got["REMOVE_EDGE_DIRECTED"]) != len(rem):
        return f"{what}: orients by removing {sorted(got['REMOVE_EDGE_DIRECTED'])}, expected {sorted(rem)}"
    if set(got["DO_NOTHING"]) != conf:
        return f"{what}: reports conflicts for {sorted(got['DO_NOTHING'])}, expected {sorted(conf)}"
    if set(got["RESTORE_EDGE_DIRECTED"]) != res:
        return f"{what}: restores {sorted(got['RESTORE_EDGE_DIRECTED'])}, expected {sorted(res)}"
    for r in out or []:
        if r.action.name == "DO_NOTHING" and not (r.data or {}).get("orientation_conflict"):
            return f"{what}: the conflict is not marked as orientation conflict"
    return None


def check(inp):
    m = model()
    n = inp["n"]
    g, nodes, o = model_graph(m, inp)
    ids = list(nodes)
    idx = {i: k for k, i in enumerate(ids)}
    seps = {}
    for a, b, s in inp["hist"]:
        r = TestResult(u=nodes[ids[a]], v=nodes[ids[b]], action=A.REMOVE_EDGE_UNDIRECTED, data={"separatedBy": [nodes[ids[k]] for k in s]})
        for p in ((a, b), (b, a)):
            g.add_edge_history(nodes[ids[p[0]]], nodes[ids[p[1]]], r)
            seps.setdefault(p, []).append(s)
    # entries of other kinds never count as separating sets
    if n >= 4:
        g.add_edge_history(nodes[ids[0]], nodes[ids[1]], TestResult(u=nodes[ids[0]], v=nodes[ids[1]], action=A.REMOVE_EDGE_DIRECTED, data={"separatedBy": [nodes[ids[2]]]}))
    lv = {(idx[u], idx[v]) for u, v in live(g)}
    flat = [a for b in inp["un"] if b for a in b]

    def unapplied():
        return [None if b is None else [TestResult(u=nodes[ids[a[1]]], v=nodes[ids[a[2]]], action=A[a[0]], data={"orientation_conflict": True} if a[0] == "DO_NOTHING" else {}) for a in b] for b in inp["un"]]
    before = snapshot(g)
    if inp.get("run"):
        return run_step(m, g, o, ids, idx, lv, seps, inp)
    for x, y in (itertools.permutations(range(n), 2) if inp.get("all") else [inp["k"]]):
        for strat in ("KEEP_FIRST", "KEEP_LAST"):
            if strat == "KEEP_FIRST" and any(a[0] == "RESTORE_EDGE_DIRECTED" for a in flat):
                continue        # keep-first never restores
            st = ColliderTest(conflict_resolution_strategy=CS[strat])
            try:
                out = st.process([ids[x], ids[y]], g.graph, unapplied())
            except Exception as e:
                return f"ColliderTest failed on {(x, y)}: {type(e).__name__}: {e}"
            e = judge(out, expect(lv, seps, flat, strat, x, y, n), idx, f"ColliderTest {strat} on pair {(x, y)}")
            if e:
                return e
        try:
            out = ColliderRuleFCI().process([ids[x], ids[y]], g.graph)
        except Exception as e:
            return f"ColliderRuleFCI failed on {(x, y)}: {type(e).__name__}: {e}"
        rem, _, _ = expect(lv, seps, [], "KEEP_FIRST", x, y, n)
        want = {(b, a) for a, b in rem}
        got = [(idx[r.u.id], idx[r.v.id]) for r in out or []]
        if any(r.action != A.UPDATE_EDGE_DIRECTED for r in out or []) or set(got) != want or len(got) != len(want):
            return f"ColliderRuleFCI on pair {(x, y)} proposes {sorted(got)}, expected {sorted(want)}"
    if snapshot(g) != before:
        return "the rule changed the graph: " + str(diff(before, snapshot(g)))
    return None


def run_step(m, g, o, ids, idx, lv, seps, inp):
    st = ColliderTest(conflict_resolution_strategy=CS[inp["run"]]) if inp["run"] == "KEEP_LAST" else ColliderTest()
    combos = [[idx[c] for c in cb] for cb in st.generator.generate(g.graph, m)]
    if sorted(tuple(sorted(c)) for c in combos) != sorted(itertools.combinations(range(inp["n"]), 2)):
        return f"the collider rule examines {combos}, expected every pair of nodes once"
    un = []
    for c in combos:
        rem, conf, res = expect(lv, seps, un, inp["run"], c[0], c[1], inp["n"])
        un += [["RESTORE_EDGE_DIRECTED", *p] for p in sorted(res)] + [["REMOVE_EDGE_DIRECTED", *p] for p in sorted(rem)]
    ol = {(i, j) for i, j in lv}
    for k, a, b in un:
        if k == "REMOVE_EDGE_DIRECTED":
            ol.discard((a, b))
        else:
            ol.add((a, b))
    if not hasattr(m, "execute_pipeline_step"):
        raise Skip("execute_pipeline_step is gone")
    try:
        m.execute_pipeline_step(st)
    except Exception as e:
        return f"executing the collider rule failed: {type(e).__name__}: {e}"
    got = {(idx[u], idx[v]) for u, v in live(g)}
    if got != ol:
        return f"after the collider rule ({inp['run']}) the present edges are {sorted(got)}, expected {sorted(ol)}"
    return None
