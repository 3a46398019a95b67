"""Random tables (1-5 columns, 1-8 rows, a few with thousands of rows or with lines of up to a megabyte, odd column names and orders, negative, integer and large values) loaded as rows, as columns, as JSON rows, JSON columns, JSON lines and by a Python loader of the workspace: nodes, names and values against the table and against each other; then the fully connected start graph; non-trivial: more than one column."""
import os, sys, json, itertools, importlib
from ws import *
from actions import new_model
from causy.data_loader import load_data_loader
RULE = __doc__
_m = []
COLS = ["b", "a", "x y", "10", "9", "Z", "ä", "_dict2", "name"]


def model():
    if not _m:
        _m.append(new_model())
    return _m[0]


def cases(rng, tier):
    for n, r, k in ((2, 3000, 1), (3, 3, 30000), (2, 2, 400000), (12, 40, 1), (1, 20000, 1)):
        cols = [c + "_" * (k - 1) + str(i) for i, c in enumerate(rng.choices(COLS, k=n))]
        yield {"cols": cols, "rows": [[rng.choice([0, 1, -2, 3.5, rng.random()]) for _ in cols] for _ in range(r)], "shuffle": False, "nl": True}
    for i in range(5000 if tier == "quick" else 30000):
        n = rng.randint(1, 5)
        cols = rng.sample(COLS, n)
        rows = [[rng.choice([0, 1, -2, 3.5, 1e-9, 1e12, rng.random()]) for _ in cols] for _ in range(rng.randint(1, 8))]
        yield {"cols": cols, "rows": rows, "shuffle": rng.random() < .3, "nl": rng.random() < .5}


DYN = """
import json
class DataLoader:
    def __init__(self, part="rows"):
        self.part = part
    def load(self):
        yield from json.loads(open("dynrows.json").read())[self.part]
    def hash(self):
        return "0"
"""


def nontrivial(inp):
    return len(inp["cols"]) > 1


def view(g):
    return {k: (n.id, n.name, [float(v) for v in n.values.tolist()]) for k, n in g.nodes.items()}


def check(inp):
    m = model()
    cols, rows = inp["cols"], inp["rows"]
    table = {c: (c, c, [float(r[j]) for r in rows]) for j, c in enumerate(cols)}
    rd = []
    for i, r in enumerate(rows):
        items = list(zip(cols, r))
        if inp["shuffle"] and i % 2:
            items = items[::-1]
        rd.append(dict(items))
    cd = {c: [r[j] for r in rows] for j, c in enumerate(cols)}
    with scratch():
        with open("r.json", "w") as f:
            json.dump(rd, f)
        with open("c.json", "w") as f:
            json.dump(cd, f)
        with open("l.jsonl", "w") as f:
            f.write("\n".join(json.dumps(r) for r in rd) + ("\n" if inp["nl"] else ""))
        src = {"rows": lambda: rd, "columns": lambda: cd}
        for nm, t, f in (("JSON rows", "json", "r.json"), ("JSON columns", "json", "c.json"), ("JSON lines", "jsonl", "l.jsonl")):
            src[nm] = lambda t=t, f=f: load_data_loader(DataLoaderReference(type=t, reference=f))
        with open("dynrows.json", "w") as f:
            json.dump({"rows": rd, "other": rd[::-1] + rd}, f)
        if os.path.realpath(".") not in map(os.path.realpath, sys.path):
            sys.path.insert(0, os.path.realpath("."))
        sys.modules.pop("vloader_rows", None)
        with open("vloader_rows.py", "w") as f:
            f.write(DYN)
        importlib.invalidate_caches()
        src["rows of a Python loader"] = lambda: load_data_loader(DataLoaderReference(type="dynamic", reference="vloader_rows"))
        src["rows of a Python loader with options"] = lambda: load_data_loader(DataLoaderReference(type="dynamic", reference="vloader_rows", options={"part": "other"}))
        for nm, mk in src.items():
            try:
                m.create_graph_from_data(mk())
            except Exception as e:
                return f"loading {nm} failed: {type(e).__name__}: {e}"
            g = m.graph
            got = view(g)
            want = {c: (c, c, v[2][::-1] + v[2]) for c, v in table.items()} if "options" in nm else table
            if got != want:
                c = next((c for c in set(got) | set(want) if got.get(c) != want.get(c)), None)
                return f"loading {nm}: node {c!r} is {got.get(c)}, expected {want.get(c)}"
            if edge_map(g):
                return f"loading {nm} creates edges"
            try:
                m.create_all_possible_edges()
            except Exception as e:
                return f"creating all edges after loading {nm} failed: {type(e).__name__}: {e}"
            lv = live(m.graph)
            full = {(a, b) for a in cols for b in cols if a != b}
            if lv != full or set(edge_map(m.graph)) != full:
                return f"start graph of {nm} lacks {sorted(full - lv)} and has in excess {sorted(lv - full)}"
            md = {}
            for a in m.graph.edges:
                for b, ed in m.graph.edges[a].items():
                    if ed.metadata is not None and md.setdefault(id(ed.metadata), {a, b}) != {a, b}:
                        return f"start graph of {nm}: the edges {sorted(md[id(ed.metadata)])} and {a!r}-{b!r} share one value"
            if any(e[1] != "U" for e in edge_map(m.graph).values()):
                return f"start graph of {nm} has edges which are not undirected"
            e = coherent(m.graph)
            if e:
                return f"start graph of {nm}: {e}"
            if view(m.graph) != want:
                return f"creating the edges after loading {nm} changed the nodes"
    return None
