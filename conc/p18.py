"""Scratch workspaces full of result files of several experiments whose names extend each other, unrelated and look-alike files: version lists, latest result, single results, clearing and removing experiments, saving results, all compared with an independent parse of the file names; non-trivial: a file of another experiment shares the prefix."""
import os, json, re, datetime
from ws import *
from causy.graph import Node, Edge
from causy.models import TestResult, TestResultAction, ActionHistoryStep
from causy.serialization import deserialize_result, CausyJSONEncoder
RULE = __doc__
NAMES = ["exp", "exp_1", "exp_a", "e", "exp_1_2", "my exp", "e.x", "exp-2", "x_", "Exp", "EXP_1", "_e", "e+x", "a[1]", "exp*", "é", "12", "e(x)|y"]
JUNK = ["exp.json", "exp_.json", "exp_abc.json", "exp_12a.json", "exp_-5.json", "exp_1.5.json", "exp_12.jsonl", "exp_12.txt", "exp12.json", "notes.json", "exp_12.json.bak", "xexp_12.json", "exp_ 12.json", "exp_1__2.json", "exp__12.json", "exp_1a_12.json", "Exp_12.JSON", "aa_3.json", "a1_3.json"]


def cases(rng, tier):
    for n in NAMES:
        yield {"names": [n], "files": [f"{n}_{t}.json" for t in (5, 1700000000, 12)] + JUNK, "op": "list"}
        if n in ("exp", "e"):
            for op in ("list", "clear", "remove", "save"):
                yield {"names": ["exp", "e"], "target": n, "files": [f"{m}_{t}.json" for m in ("exp", "e") for t in rng.sample(range(3000), 130)], "op": op}
        for op in ("clear", "remove", "save", "race"):
            yield {"names": NAMES, "target": n, "files": [f"{m}_{t}.json" for m in NAMES for t in (7, 100)] + JUNK, "op": op}
    for i in range(3500 if tier == "quick" else 30000):
        names = rng.sample(NAMES, rng.randint(1, 5))
        fs = set(rng.sample(JUNK, rng.randint(0, len(JUNK))))
        for m in names:
            for _ in range(rng.randint(0, 4)):
                fs.add(f"{m}_{rng.choice([1, 3, 20, 100, 1700000000 + rng.randrange(10 ** 6)])}.json")
        yield {"names": names, "target": rng.choice(names + ["missing"] * (rng.random() < .1)), "files": sorted(fs), "op": rng.choice(["list", "clear", "remove", "save", "race"]), "ts": rng.choice([1, 2000000000, 1600000000]),
               "content": "".join(rng.choice("DUB") for _ in range(rng.randint(0, 4)))}


def nontrivial(inp):
    return len(inp["names"]) > 1


def mine(name, fs):
    out = []
    for f in fs:
        m = re.fullmatch(re.escape(name) + r"_([0-9]+)\.json", f)
        if m:
            out.append(int(m.group(1)))
    return sorted(out, reverse=True)


def content(kinds):
    """nodes, edges of the given types with values, and a history of a result"""
    n = [Node(name=[" N 0 ", "é\u2028x", "n0", "N"][i], id=["n0", "n 1", "2", "N"][i], values=None) for i in range(4)]
    pairs = [(0, 1), (2, 1), (3, 0), (1, 3)]
    es = [Edge(u=n[a], v=n[b], edge_type=etype(k), metadata={"correlation": .25 * i, "tag": "x", "flag": False, "zero": 0, "e": "", "small": 1e-300}) for i, ((a, b), k) in enumerate(zip(pairs, kinds))]
    act = TestResult(u=n[0], v=n[2], action=TestResultAction.REMOVE_EDGE_UNDIRECTED, data={"separatedBy": ["n 1"]})
    no = TestResult(u=n[3], v=n[1], action=TestResultAction.DO_NOTHING, data={})
    return {"nodes": {x.id: x for x in n}, "edges": es, "action_history": [ActionHistoryStep(name="s", actions=[act], all_proposed_actions=[no, act, act], steps=[ActionHistoryStep(name="inner", all_proposed_actions=[no], steps=[ActionHistoryStep(name="innermost", actions=[act])]), ActionHistoryStep(name="")]),
                                                                                             ActionHistoryStep(name=" s ")]}


def hseen(h):
    acts = lambda l: [(a.u.id, a.u.name, a.v.id, a.v.name, a.action, a.data) for a in l]
    return h.name, acts(h.actions), acts(h.all_proposed_actions), [hseen(x) for x in h.steps]


def seen(r):
    return [sorted((k, x.id, x.name) for k, x in r.nodes.items()), [(e.u.id, e.v.id, tname(e.edge_type), e.metadata) for e in r.edges],
            [hseen(h) for h in r.action_history],
            (r.algorithm.reference, r.algorithm.type, r.variables, r.data_loader_hash, r.algorithm_hash, r.variables_hash), r.created_at]


def check(inp):
    with scratch():
        d = {"name": "w", "author": "a", "pipelines": {"p": {"reference": "PC", "type": "name"}}, "dataloaders": {"d": {"type": "json", "reference": "data.json", "options": None}},
             "experiments": {n: {"pipeline": "p", "dataloader": "d", "variables": {}} for n in inp["names"]}}
        write_ws(d)
        for f in inp["files"]:
            with open(f, "w") as h:
                h.write(json.dumps({"file": f}))
        os.mkdir("exp_77.d")
        with quiet():
            ws = fn("_current_workspace")()
        before = files()
        for n in inp["names"]:
            want = mine(n, inp["files"])
            try:
                got = list(fn("_load_experiment_versions")(ws, n))
            except Skip:
                raise
            except Exception as e:
                return f"listing the versions of {n!r} failed: {type(e).__name__}: {e}"
            if got != want:
                return f"versions of {n!r} are {got}, expected {want}"
            try:
                r = fn("_load_latest_experiment_result")(ws, n)
                if not want or r != {"file": f"{n}_{want[0]}.json"}:
                    return f"latest result of {n!r} is {r}, expected version {want[:1]}"
            except Skip:
                raise
            except Exception as e:
                if want:
                    return f"loading the latest result of {n!r} failed: {type(e).__name__}: {e}"
            for v in want[:2] + [424242]:
                try:
                    r = fn("_load_experiment_result")(ws, n, v)
                    if v not in want or r != {"file": f"{n}_{v}.json"}:
                        return f"result {v} of {n!r} loads {r}"
                except Skip:
                    raise
                except Exception as e:
                    if v in want:
                        return f"loading result {v} of {n!r} failed: {type(e).__name__}: {e}"
        if files() != before:
            return "reading versions changed the files of the workspace"
        t = inp.get("target", inp["names"][0])
        if inp["op"] in ("clear", "remove"):
            with quiet():
                try:
                    fn("clear_experiment" if inp["op"] == "clear" else "remove_experiment")(t)
                except Skip:
                    raise
                except Exception as e:
                    return f"{inp['op']} of {t!r} failed: {type(e).__name__}: {e}"
            gone = {f"{t}_{v}.json" for v in mine(t, inp["files"])} if t in inp["names"] else set()
            if files() != sorted(set(before) - gone):
                return f"{inp['op']} of {t!r} deleted {sorted(set(before) - set(files()))}, expected {sorted(gone)}"
            w = norm(read_ws())
            exp = norm(d)
            if inp["op"] == "remove":
                exp["experiments"].pop(t, None)
            if w != exp:
                return f"{inp['op']} of {t!r} left the workspace {w['experiments']}"
        elif inp["op"] == "race" and t in inp["names"]:
            # another process deletes each file between the listing and the removal
            real = os.remove, os.unlink
            def lost(i):
                def f(p, **k):
                    real[i](p, **k)
                    raise FileNotFoundError(2, "No such file or directory", p)
                return f
            os.remove, os.unlink = lost(0), lost(1)
            try:
                with quiet():
                    fn("clear_experiment")(t)
            except FileNotFoundError:
                return f"clearing {t!r} fails when a result has just been deleted by someone else"
            finally:
                os.remove, os.unlink = real
            gone = {f"{t}_{v}.json" for v in mine(t, inp["files"])}
            if files() != sorted(set(before) - gone):
                return f"clearing {t!r} while a result is deleted by someone else removed {sorted(set(before) - set(files()))}, expected {sorted(gone)}"
        elif inp["op"] == "save" and t in inp["names"]:
            ts = inp.get("ts", 1600000000)
            r = Result(algorithm=AlgorithmReference(reference="PC", type="name"), created_at=datetime.datetime.fromtimestamp(ts + .7), variables={"a": 1}, data_loader_hash="h", algorithm_hash="k", variables_hash="v", **content(inp.get("content", "DUB")))
            try:
                with quiet():
                    fn("_save_experiment_result")(ws, t, r)
                got = list(fn("_load_experiment_versions")(ws, t))
                back = fn("_load_experiment_result")(ws, t, ts)
            except Skip:
                raise
            except Exception as e:
                return f"saving and loading a result of {t!r} failed: {type(e).__name__}: {e}"
            if got != sorted(set(mine(t, inp["files"])) | {ts}, reverse=True):
                return f"after saving version {ts} of {t!r} its versions are {got}"
            if back.get("variables") != {"a": 1} or back.get("data_loader_hash") != "h" or back.get("algorithm", {}).get("reference") != "PC":
                return f"the saved result of {t!r} loads back as {back}"
            if back != json.loads(json.dumps(r.model_dump(), cls=CausyJSONEncoder)):
                return f"the saved result of {t!r} loads back with another content"
            full = deserialize_result(json.loads(json.dumps(back)))
            if seen(full) != seen(r):
                return f"the saved result of {t!r} is read as {seen(full)}, expected {seen(r)}"
            if set(before) - set(files()):
                return "saving a result deleted other files"
            for n in inp["names"]:
                if n != t and list(fn("_load_experiment_versions")(ws, n)) != mine(n, inp["files"]):
                    return f"saving a result of {t!r} changed the versions of {n!r}"
    return None
