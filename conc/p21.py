"""Random lists of weighted causal edges over 1-6 variables (any listing order, several edges between the same pair, zero and negative weights; exact integer noise recorded by the noise source): every generated value minus its weighted causes must be one recorded noise value, each used once; the returned graph has exactly the variables and the causal directions; cyclic lists must be rejected; non-trivial: an edge into a cause of another edge."""
import collections
from util import *
from causy.sample_generator import IIDSampleGenerator, SampleEdge, NodeReference
RULE = __doc__
NAMES = ["B", "a", "Z9", "Z10", "x y", "ä", "c", "D"]


def cases(rng, tier):
    # every DAG shape and listing order over three variables, twice
    import itertools
    pairs = [(0, 1), (0, 2), (1, 2)]
    for perm in itertools.permutations(range(3)):
        for k in range(1, 4):
            for sub in itertools.permutations(pairs, k):
                yield {"edges": [[NAMES[perm[i]], NAMES[perm[j]], [2, -3, .5][n]] for n, (i, j) in enumerate(sub)], "size": 3, "shaped": k == 2, "again": True}
    for n in (9, 14):
        vs = [f"w{i}" for i in range(n)]
        rng.shuffle(vs)
        e = [[vs[a], vs[b], rng.choice([1, -1, 0])] for a in range(n) for b in range(a + 1, n) if n < 10 or b - a in (1, 5, 9)]
        rng.shuffle(e)
        yield {"edges": e, "size": 2, "shaped": False, "again": True}
        yield {"edges": e + [[vs[-1], vs[0], 1]], "size": 2, "shaped": False, "again": False}
    for i in range(5000 if tier == "quick" else 30000):
        n = rng.randint(2, 6)
        vs = rng.sample(NAMES, n)
        e = [[vs[a], vs[b], rng.choice([1, -1, 2, -3, .5, 0, 7])] for a in range(n) for b in range(a + 1, n) if rng.random() < rng.choice([.2, .5, .9])]
        if e and rng.random() < .2:
            e.append(list(rng.choice(e))[:2] + [rng.choice([1, 4])])
        if rng.random() < .25:
            a, b = sorted(rng.sample(range(n), 2)) if rng.random() < .8 else [rng.randrange(n)] * 2
            e.append([vs[b], vs[a], 2])
        rng.shuffle(e)
        if e:
            yield {"edges": e, "size": rng.choice([1, 2, 5]), "shaped": rng.random() < .3, "again": rng.random() < .3}


def nontrivial(inp):
    return any(a[1] == b[0] for a in inp["edges"] for b in inp["edges"])


def cyclic(edges):
    vs = {x for e in edges for x in e[:2]}
    while True:
        free = [v for v in vs if not any(e[1] == v and e[0] in vs for e in edges)]
        if not free:
            return bool(vs)
        vs -= set(free)


def check(inp):
    edges, size = inp["edges"], inp["size"]
    draws = []

    def noise():
        draws.append(float(3 ** 9 + 1001 * len(draws) ** 2 % 65537 + len(draws) * 16) + 2.0 ** -12 * (len(draws) % 5 + 1))
        return draws[-1]
    se = [SampleEdge(NodeReference(a), NodeReference(b), w) for a, b, w in edges]
    vs = {x for e in edges for x in e[:2]}
    try:
        gen = IIDSampleGenerator(edges=se, random=noise)
    except ValueError as e:
        if cyclic(edges):
            return None
        return f"an acyclic list of edges is rejected: {e}"
    except Exception as e:
        return f"the generator cannot be built: {type(e).__name__}: {e}"
    outs = []
    for rnd in range(2 if inp["again"] else 1):
        del draws[:]
        try:
            out, g = gen.generate(size)
        except ValueError as e:
            if cyclic(edges):
                return None
            return f"generating fails: {e}"
        except Exception as e:
            return f"generating fails: {type(e).__name__}: {e}"
        if cyclic(edges):
            return "a cyclic list of edges is accepted"
        if set(out) != vs:
            return f"variables of the data are {sorted(out)}, expected {sorted(vs)}"
        vals = {v: [float(x) for x in out[v]] for v in vs}
        w = residuals(edges, vals, size, draws)
        if w:
            return w
        ids = sorted(g.nodes)
        if ids != sorted(vs) or sorted(n.name for n in g.nodes.values()) != sorted(vs):
            return f"nodes of the graph are {ids}, expected {sorted(vs)}"
        for v in vs:
            if [float(x) for x in g.nodes[v].values.tolist()] != vals[v]:
                return f"node {v} of the graph does not carry the generated values"
        if live(g) != {(a, b) for a, b, _ in edges} or set(edge_map(g)) != live(g):
            return f"edges of the graph are {sorted(live(g))}, expected {sorted({(a, b) for a, b, _ in edges})}"
        if any(t[1] != "D" for t in edge_map(g).values()):
            return "an edge of the graph of the sample is not directed"
        e = coherent(g)
        if e:
            return "graph of the sample: " + e
    if inp["shaped"] and hasattr(gen, "_generate_shaped_data"):
        del draws[:]
        rows = gen._generate_shaped_data(size)
        if len(rows) != size or any(set(r) != vs for r in rows):
            return "rows of the shaped data do not carry every variable"
        w = residuals(edges, {v: [float(r[v]) for r in rows] for v in vs}, size, draws)
        if w:
            return "shaped data: " + w
    if [(e.from_node.node, e.to_node.node, e.value) for e in se] != [tuple(e) for e in edges]:
        return "the caller's edges were changed"
    return None


def residuals(edges, vals, size, draws):
    left = collections.Counter(draws)
    for v, x in vals.items():
        if len(x) != size:
            return f"{v} has {len(x)} values instead of {size}"
        for t in range(size):
            r = x[t] - sum(w * vals[a][t] for a, b, w in edges if b == v)
            if left[r] < 1:
                return f"sample {t} of {v} is {x[t]}: not a noise value plus the weighted causes (noise would be {r})"
            left[r] -= 1
    return None
