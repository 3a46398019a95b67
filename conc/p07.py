"""Random batches of proposed results (all nine actions; None, single and list items; wet and dry) on random graphs with soft-deleted and removed edges, plus every single action on every state of one node pair; graph, values, types, histories and both reports are compared with an executable specification; non-trivial: at least one proposal on a present edge."""
import itertools
from actions import *
RULE = __doc__
_m = []


def model():
    if not _m:
        _m.append(new_model())
    return _m[0]


def cases(rng, tier):
    st = [None, ("D", False), ("U", False), ("U", True), ("B", False), "rec"]
    for s1, s2 in itertools.product(st, repeat=2):
        edges, rem = [], []
        for (i, j), s in (((0, 1), s1), ((1, 0), s2)):
            if s == "rec":
                edges.append([i, j, "B", False]); rem.append([i, j])
            elif s:
                edges.append([i, j, *s])
        edges.append([0, 2, "U", False])
        for k in KINDS:
            for u, v in ((0, 1), (1, 0)):
                data = {"c": 7} if k.startswith("UPDATE_EDGE") and "TYPE" not in k else {"edge_type": "B"} if "TYPE" in k else None
                for dry in (False, True):
                    yield {"n": 3, "edges": edges, "removed": rem, "batches": [[[k, IDS[u], IDS[v], data]]], "dry": dry}
    for k in (17, 40, 130):
        for dry in (False, True):
            sp = rand_graph(rng, 4, 1, 0, "DUB")
            yield {**sp, "removed": [], "batches": [[rand_action(rng, IDS[:4]) for _ in range(k)]], "dry": dry}
            yield {**sp, "removed": [], "batches": [rand_action(rng, IDS[:4]) for _ in range(k)], "dry": dry}
    for _ in range(14000 if tier == "quick" else 150000):
        n = rng.randint(2, 4)
        sp = rand_graph(rng, n, rng.choice([.5, .8, 1]), rng.choice([0, .2]), "DUB")
        sp["removed"] = [e[:2] for e in sp["edges"] if rng.random() < .15]
        b = []
        for _ in range(rng.randint(1, 5)):
            r = rng.random()
            b.append(None if r < .1 else rand_action(rng, IDS[:n]) if r < .3 else [rand_action(rng, IDS[:n]) for _ in range(rng.choice([0, 1, 2, 3, 4, 4, 7]))])
        yield {**sp, "batches": b, "dry": rng.random() < .15}


def nontrivial(inp):
    return bool(inp["edges"])


def check(inp):
    m = model()
    if not hasattr(m, "_take_action"):
        raise Skip("_take_action is gone")
    g, nodes, o = model_graph(m, inp)
    tbl, results, flat = [], [], []
    for b in inp["batches"]:
        if b is None:
            results.append(None)
            continue
        single = isinstance(b[0], str) if b else False
        acts = [b] if single else b
        acts = [list(a) for a in acts]
        rs = [real_result(a, nodes) for a in acts]
        tbl += list(zip(rs, acts))
        flat += acts
        results.append(rs[0] if single else rs)
    f = ident(tbl)
    taken, allp = m._take_action(results, dry_run=True) if inp["dry"] else m._take_action(results)
    if inp["dry"]:
        exp_taken = list(flat)
    else:
        exp_taken = [a for a in flat if apply_oracle(o, a)]
    if [f(x) for x in allp] != [id(a) for a in flat]:
        return f"reported as proposed: {len(allp)} results {[x.action.name for x in allp]}, expected {[a[0] for a in flat]}"
    if [f(x) for x in taken] != [id(a) for a in exp_taken]:
        return f"reported as taken: {[(x.action.name, x.u.id, x.v.id) for x in taken]}, expected {[a[:3] for a in exp_taken]}"
    # types are compared by letter
    r = compare(g, o, f)
    if r:
        return ("dry run: " if inp["dry"] else "") + r
    return None
