"""Scratch workspaces with stored results of several experiments over the same variables (every kind and direction of edge or none per pair, records in any order, several versions): the table printed by the diff command (with and without --only-differences) for 2-12 experiment names or versions is compared with the stored results read independently: one row per pair connected in any of them, each cell the connection in that result as seen from the row's label, marked as equal exactly if all agree; unknown names and versions must not produce a table; non-trivial: some pair differs and some agrees."""
import os, json, re
from ws import *
from causy.graph import Node, Edge
from causy.serialization import CausyJSONEncoder
RULE = __doc__
CASE_LIMIT = 60
EXPS = ["exp", "exp_1", "e", "my_exp", "a_very_long_name_of_an_exp", "__"]
TIMES = [3, 20, 1700000000, 1700000001]
VARS = ["a", "B", "b", "d_1"]
META = [{}, {"correlation": .125}, {"correlation": -.5, "direct_effect": .25}, {"direct_effect": -1.0}, {"correlation": .75}]
KINDS = ["", ">", "<", "-", "="]       # none, directed either way, undirected, bidirected
SYM = {"": "", ">": "-->", "<": "<--", "-": "---", "=": "<->"}


def cases(rng, tier):
    # every combination of the connections of one pair in two results
    for a in KINDS:
        for b in KINDS:
            for fl in (False, True):
                yield {"res": [["exp", 3, {"0,1": a, "1,2": "-"}, fl], ["e", 20, {"0,1": b, "1,2": "-"}, False]], "ask": ["exp", "e"]}
    for i in range(900 if tier == "quick" else 8000):
        res, base = [], {f"{x},{y}": rng.choice(KINDS) for x in range(4) for y in range(x + 1, 4)}
        for n in rng.sample(EXPS, rng.randint(1, 3)):
            for t in rng.sample(TIMES, rng.randint(1, 3)):
                m = {k: (v if rng.random() < rng.choice([.5, .9]) else rng.choice(KINDS)) for k, v in base.items()}
                res.append([n, t, m, rng.random() < .5])
        names = sorted({r[0] for r in res})
        pool = names + [f"{r[0]}_{r[1]}" for r in res]
        ask = [rng.choice(pool) for _ in range(rng.choice([2, 2, 3, 3, 4, 4, 5, 7, 12]))]
        if rng.random() < .1:
            ask[rng.randrange(len(ask))] = rng.choice(["nope", "exp_999", "nope_3", "exp_x", "_3"])
        yield {"res": res, "ask": ask}


def nontrivial(inp):
    g = [r[2] for r in inp["res"]]
    return len(g) > 1 and any(g[0].get(k) != h.get(k) for h in g for k in h) and any(g[0].get(k) == h.get(k) != "" for h in g[1:] for k in h)


def edges(m, flip, salt):
    n = [Node(name=v, id=v, values=None) for v in VARS]
    out = []
    for k, c in m.items():
        x, y = [int(i) for i in k.split(",")]
        e = {"": [], ">": [(x, y, "D")], "<": [(y, x, "D")], "-": [(x, y, "U"), (y, x, "U")], "=": [(x, y, "B"), (y, x, "B")]}[c]
        out += [Edge(u=n[a], v=n[b], edge_type=etype(t), metadata=META[(a + 2 * b + len(c) + salt) % len(META)]) for a, b, t in e]
    return {v.id: v for v in n}, out[::-1] if flip else out


def resolve(inp, name):
    """the stored result a name stands for"""
    known = {r[0] for r in inp["res"]}
    if name in known:
        return max((r for r in inp["res"] if r[0] == name), key=lambda r: r[1])
    for r in inp["res"]:
        if name == f"{r[0]}_{r[1]}":
            return r
    return None


ANSI = re.compile(r"\x1b\[[0-9;]*m")


def table(text):
    """rows (cells, marked) of the printed table; marked: True green, False red"""
    rows = []
    for line in text.splitlines():
        plain = ANSI.sub("", line)
        if "│" in plain:
            rows.append(([c.strip() for c in plain.strip().strip("│").split("│")], "\x1b[32m" in line, "\x1b[31m" in line))
    return rows


def check(inp):
    keep = {k: os.environ.get(k) for k in ("COLUMNS", "FORCE_COLOR", "NO_COLOR", "TERM")}
    os.environ.update(COLUMNS="600", FORCE_COLOR="1", TERM="xterm")
    os.environ.pop("NO_COLOR", None)
    try:
        with scratch():
            return run(inp)
    finally:
        for k, v in keep.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v


def run(inp):
    names = sorted({r[0] for r in inp["res"]})
    write_ws({"name": "w", "author": "a", "pipelines": {"p": {"reference": "PC", "type": "name"}}, "dataloaders": {"d": {"type": "json", "reference": "data.json", "options": None}},
              "experiments": {n: {"pipeline": "p", "dataloader": "d", "variables": {}} for n in names}})
    for n, t, m, flip in inp["res"]:
        ns, es = edges(m, flip, t)
        with open(f"{n}_{t}.json", "w") as f:
            f.write(json.dumps(Result(algorithm=AlgorithmReference(reference="PC", type="name"), nodes=ns, edges=es, action_history=[]).model_dump(), cls=CausyJSONEncoder))
    before = files()
    want = [resolve(inp, a) for a in inp["ask"]]
    for only in (False, True):
        try:
            with quiet() as o:
                fn("diff")(list(inp["ask"]), only_differences=only)
        except Skip:
            raise
        except (ValueError, KeyError, SystemExit, OSError) as e:
            if None in want:
                continue
            return f"comparing {inp['ask']} failed: {type(e).__name__}: {e}"
        rows = table(o.getvalue())
        if None in want:
            if rows:
                return f"comparing {inp['ask']} prints a table although {inp['ask'][want.index(None)]} does not exist"
            continue
        r = compare(inp, [w[2] for w in want], rows, only)
        if r:
            return f"diff of {inp['ask']}{' with --only-differences' if only else ''}: {r}"
    if files() != before:
        return "comparing changes the files of the workspace"
    return None


def compare(inp, maps, rows, only):
    pairs = {}
    for m in maps:
        for k, c in m.items():
            if c:
                x, y = [VARS[int(i)] for i in k.split(",")]
                pairs[(x, y)] = [n.get(k, "") for n in maps]
    if only:
        pairs = {k: v for k, v in pairs.items() if len(set(v)) > 1}
    seen = {}
    for cells, green, red in rows:
        if len(cells) != len(maps) + 1:
            return f"a row has {len(cells) - 1} cells for {len(maps)} results"
        names = cells[0].split(" - ")
        if len(names) != 2:
            raise Skip("rows are labelled differently")
        key = tuple(names) if tuple(names) in pairs else tuple(names[::-1])
        if key not in pairs:
            return f"there is a row for {cells[0]}" + (", which all results connect alike" if only else ", which no result connects")
        if key in seen:
            return f"there are two rows for {cells[0]}"
        seen[key] = 1
        kinds = pairs[key]
        if key != tuple(names):
            kinds = [{">": "<", "<": ">"}.get(c, c) for c in kinds]
        want = [SYM[c] for c in kinds]
        if cells[1:] != want:
            return f"the row {cells[0]} shows {cells[1:]}, the stored results have {want}"
        same = len(set(kinds)) == 1
        if green != same or red == same:
            return f"the row {cells[0]} with {want} is not marked as {'equal' if same else 'different'}"
    if len(seen) != len(pairs):
        return f"there is no row for {sorted(set(pairs) - set(seen))[0]}"
    return None
