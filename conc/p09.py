"""Every undirected graph over 2-4 nodes with soft-deleted edges and random mixed graphs over 3-6 nodes; all-combinations, edge-pair (chunked with several chunk sizes / not chunked), neighbour (chunked / not, shuffled / not) and sampling generators for all size ranges; oracle: explicit enumeration; non-trivial: at least one edge or three nodes."""
import itertools, random as pyrandom
from actions import *
from causy.generators import AllCombinationsGenerator, PairsWithEdgesInBetweenGenerator, PairsWithNeighboursGenerator, RandomSampleGenerator
from causy.models import ComparisonSettings
from causy.interfaces import AS_MANY_AS_FIELDS
RULE = __doc__
_m = []


def cases(rng, tier):
    for n in (2, 3, 4):
        prs = list(itertools.combinations(range(n), 2))
        for combo in itertools.product([0, 1, 2] if n < 4 or tier != "quick" else [0, 1], repeat=len(prs)):
            e = []
            for (i, j), c in zip(prs, combo):
                if c:
                    e += [[i, j, "U", c == 2], [j, i, "U", c == 2]]
            yield {"n": n, "edges": e, "seed": rng.randrange(10 ** 6)}
    for _ in range(5000 if tier == "quick" else 15000):
        n = rng.randint(1, 6)
        if rng.random() < .5:
            sp = rand_graph(rng, n, rng.choice([.3, .6, .9]), rng.choice([0, .3]), "DU")
        else:
            sp = rand_pdag(rng, n, rng.choice([.4, .8]), .8, .2)
        yield {**sp, "seed": rng.randrange(10 ** 6)}
    yield {"n": 10, "edges": [[0, 1, "U", False], [1, 0, "U", False]], "seed": 1}
    # one node with many neighbours
    yield {"n": 9, "edges": [x for j in range(1, 9) for x in ([0, j, "U", False], [j, 0, "U", False])], "seed": 1, "all": True}
    yield {"n": 8, "edges": [x for i, j in itertools.combinations(range(8), 2) for x in ([i, j, "U", False], [j, i, "U", False])], "seed": 1}
    n = 16
    yield {"n": n, "ids": [f"v{i}" for i in range(n)], "edges": [x for i, j in itertools.combinations(range(n), 2) for x in ([i, j, "U", False], [j, i, "U", False])], "seed": 2, "only": "pairs"}
    for k in (49, 50, 51, 52, 99, 100, 101, 102, 103, 128, 129, 199, 200, 201):
        ps = rng.sample(list(itertools.permutations(range(n), 2)), k)
        yield {"n": n, "ids": [f"v{i}" for i in range(n)], "edges": [[i, j, "U" if (j, i) in ps else "D", False] for i, j in ps], "seed": 3, "only": "pairs"}


def nontrivial(inp):
    return bool(inp["edges"]) or inp["n"] > 2


def dups(xs):
    seen = set()
    for x in xs:
        if x in seen:
            return x
        seen.add(x)
    return None


def bounds(n, lo, hi):
    hi = n if hi == AS_MANY_AS_FIELDS else hi
    return range(max(lo, 0), min(hi, n) + 1)


def check(inp):
    if not _m:
        _m.append(new_model())
    m = _m[0]
    g, nodes, o = model_graph(m, inp)
    gr = g.graph
    ids = list(nodes)
    n = len(ids)
    lv = {p for p, e in o.raw.items() if not e[0]}
    before = snapshot(g)
    big = inp.get("only") == "pairs" or n > 6
    # all combinations
    for lo, hi in [(2, 2), (3, 3), (1, 2), (2, AS_MANY_AS_FIELDS), (4, 3), (2, n + 2), (n + 1, n + 1), (1, AS_MANY_AS_FIELDS), (n, n), (3, 2), (n - 1, n + 1)]:
        if big and hi == AS_MANY_AS_FIELDS or lo < 1:
            continue
        got = [frozenset(c) for c in AllCombinationsGenerator(comparison_settings=ComparisonSettings(min=lo, max=hi)).generate(gr, m)]
        raw = [tuple(c) for c in AllCombinationsGenerator(comparison_settings=ComparisonSettings(min=lo, max=hi)).generate(gr, m)]
        want = {frozenset(c) for k in bounds(n, lo, hi) for c in itertools.combinations(ids, k)}
        if any(len(set(c)) != len(c) for c in raw):
            return f"all combinations {lo}..{hi}: a combination repeats a node"
        if dups(got) is not None:
            return f"all combinations {lo}..{hi}: {sorted(dups(got))} comes twice"
        if set(got) != want:
            return f"all combinations {lo}..{hi} of {ids}: missing {[sorted(x) for x in want - set(got)][:2]}, extra {[sorted(x) for x in set(got) - want][:2]}"
    # pairs with edges
    for ch, size in ((None, None), (False, None), (True, 1), (True, 2), (True, 3), (True, 100), (True, 7), (True, max(1, len(lv)))):
        kw = {} if ch is None else {"chunked": ch}
        if size:
            kw["chunk_size"] = size
        out = list(PairsWithEdgesInBetweenGenerator(**kw).generate(gr, m))
        if ch:
            if any(len(c) > size for c in out):
                return f"edge pairs, chunk size {size}: a chunk has {max(len(c) for c in out)} elements"
            out = [p for c in out for p in c]
        got = [tuple(p) for p in out]
        if dups(got):
            return f"edge pairs ({kw}): {dups(got)} comes twice"
        if set(got) != lv:
            return f"edge pairs ({kw}): missing {sorted(lv - set(got))[:3]}, extra {sorted(set(got) - lv)[:3]}"
    if inp.get("only") == "pairs":
        return None
    # neighbours
    und = {x: {y for y in ids if (x, y) in lv and (y, x) in lv} for x in ids}
    for lo, hi in [(2, 2), (3, 3), (2, 4), (4, AS_MANY_AS_FIELDS), (2, AS_MANY_AS_FIELDS), (3, n + 3)]:
        if big and hi != 3 and not inp.get("all"):
            continue
        for chunked, shuffle in ((True, False), (False, True), (True, True), (False, False)):
            pyrandom.seed(inp["seed"])
            out = list(PairsWithNeighboursGenerator(comparison_settings=ComparisonSettings(min=lo, max=hi), chunked=chunked, shuffle_combinations=shuffle).generate(gr, m))
            what = f"neighbours {lo}..{hi} chunked={chunked}"
            if chunked:
                out = [c for ch in out for c in ch]
            got = []
            for c in out:
                c = list(c)
                if any(not isinstance(x, str) for x in c):
                    return f"{what}: yields {c}"
                if len(set(c)) != len(c):
                    return f"{what}: {c} repeats a node"
                if (c[0], c[1]) not in lv:
                    return f"{what}: {c} although there is no edge {c[0]}->{c[1]}"
                if not set(c[2:]) <= {y for y in ids if (y, c[0]) in lv}:
                    return f"{what}: {c} contains nodes that are no neighbours of {c[0]}"
                got.append((c[0], c[1], frozenset(c[2:])))
            if dups(got):
                return f"{what}: {dups(got)} comes twice"
            want = {(a, b, frozenset(z)) for a, b in lv for k in bounds(n, lo, hi) if k >= 2 for z in itertools.combinations(sorted(und[a] - {b}), k - 2)}
            if want - set(got):
                return f"{what}: missing {sorted(map(str, want - set(got)))[:2]}"
            if any(len(c[2]) + 2 not in bounds(n, lo, hi) for c in got):
                return f"{what}: wrong size"
            if not any(e[0] for e in o.raw.values()) and set(got) != want:
                return f"{what}: extra {sorted(map(str, set(got) - want))[:2]}"
    # sampling
    for nth in (1, 2, 100):
        inner = AllCombinationsGenerator(comparison_settings=ComparisonSettings(min=2, max=3))
        pyrandom.seed(inp["seed"])
        got = [tuple(c) for c in RandomSampleGenerator(generator=inner, every_nth=nth).generate(gr, m)]
        full = {tuple(c) for c in inner.generate(gr, m)}
        if dups(got) or not set(got) <= full:
            return f"sampling every {nth}: {got} of {sorted(full)}"
    d = diff(before, snapshot(g))
    return f"a generator changed the graph: {d}" if d else None
