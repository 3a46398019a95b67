"""Scratch directories with random data files (rows or columns, several numbers of variables and rows) and pipelines (built-in by name, ejected ones, hand-written ones with variables, logic steps and nested steps): the result file written by the execute command is compared with a model built through the Python interface from the same data and algorithm (nodes, present edges with type and values, every action of every step in order, reference of the algorithm); ejected algorithms load as the same algorithm; without pipeline and algorithm nothing is written; non-trivial: the result has an edge and a removed edge."""
import os, json, copy
import numpy as np
from ws import *
import causy.cli as top
from causy.causal_discovery import AVAILABLE_ALGORITHMS
from causy.data_loader import JSONDataLoader
from causy.graph_model import graph_model_factory
from causy.serialization import load_algorithm_from_specification, CausyJSONEncoder
RULE = __doc__
CASE_LIMIT = 120
NAMES = [n for n in ("PC", "PCClassic", "PCStable") if n in AVAILABLE_ALGORITHMS]
C, I, O = "causy.common_pipeline_steps.", "causy.causal_discovery.constraint.independence_tests.common.", "causy.causal_discovery.constraint.orientation_rules.pc."


def spec(thr, shape):
    ref = {"name": "thr", "type": "reference"}
    steps = [{"name": C + "calculation.CalculatePearsonCorrelations"}, {"name": I + "CorrelationCoefficientTest", "threshold": ref if shape != 1 else thr, "parallel": {"name": "par", "type": "reference"}}]
    if shape >= 1:
        steps += [{"name": I + "PartialCorrelationTest", "threshold": thr}]
    if shape >= 2:
        steps += [{"name": O + "ColliderTest", "display_name": "colliders"},
                  {"name": C + "logic.Loop", "pipeline_steps": [{"name": O + "NonColliderTest"}, {"name": O + "FurtherOrientTripleTest"}], "exit_condition": {"name": C + "exit_conditions.ExitOnNoActions"}}]
    if shape >= 3:
        for i in range(24):
            steps.insert(1, {"name": C + "calculation.CalculatePearsonCorrelations", "display_name": f"again {i}"})
    return {"name": "mine", "pipeline_steps": steps, "edge_types": [{"name": "DIRECTED"}, {"name": "UNDIRECTED"}], "extensions": [], "variables": [{"name": "thr", "type": "float", "value": thr}, {"name": "par", "type": "bool", "value": False}]}


def cases(rng, tier):
    for n in NAMES:
        yield {"mode": "eject", "name": n}
    yield {"mode": "neither"}
    yield {"mode": "file", "name": NAMES[0], "thr": .05, "shape": 3, "rows": 30, "cols": 5, "seed": 3, "columns": False, "old": False, "out": True, "both": False}
    for i in range(450 if tier == "quick" else 2500):
        m = rng.choice(["name", "file", "file", "ejected"])
        yield {"mode": m, "name": rng.choice(NAMES), "thr": rng.choice([.005, .05, .3, 0.0]), "shape": rng.randrange(3), "rows": rng.choice([8, 30, 60]), "cols": rng.choice([1, 2, 3, 4, 5, 6, 8]), "seed": rng.randrange(10 ** 6), "columns": rng.random() < .3,
               "old": rng.random() < .2, "out": rng.random() < .95, "both": rng.random() < .3, "edit": rng.random() < .4, "called": rng.choice(["mine", "PC", ""])}


def nontrivial(inp):
    return inp["mode"] not in ("eject", "neither") and inp["cols"] > 2


def data(inp):
    r = np.random.RandomState(inp["seed"])
    X = r.randn(inp["rows"], inp["cols"])
    for j in range(1, inp["cols"]):
        for i in range(j):
            if r.rand() < min(.5, 2 / inp["cols"]):
                X[:, j] += r.choice([.5, -1.0, 2.0]) * X[:, i]
    names = ["v%d" % i for i in range(inp["cols"])]
    r.shuffle(names)
    return [{n: float(x) for n, x in zip(names, row)} for row in X]


def run(f, **kw):
    with quiet() as o:
        f(**kw)
    return o


def view(r):
    def acts(l):
        return [(a["u"]["id"], a["v"]["id"], a["action"], sorted(map(str, a.get("data") or {}))) for a in l or []]

    def hist(h):
        return [h["name"], acts(h.get("actions")), acts(h.get("all_proposed_actions")), [hist(x) for x in h.get("steps") or []]]
    return {"nodes": sorted((k, n["name"], n["id"]) for k, n in r["nodes"].items()),
            "edges": sorted(json.dumps([e["u"]["id"], e["v"]["id"], e["edge_type"]["name"], e.get("metadata")], sort_keys=True) for e in r["edges"]),
            "action_history": [hist(h) for h in r["action_history"]]}


def check(inp):
    for f in ("execute", "eject"):
        if not hasattr(top, f):
            raise Skip(f + " is gone")
    with scratch():
        return {"eject": check_eject, "neither": check_neither}.get(inp["mode"], check_run)(inp)


def dump(alg):
    return json.loads(json.dumps(alg.model_dump(), cls=CausyJSONEncoder))


def check_eject(inp):
    with open("p.json", "w") as f:
        f.write("x" * 100000)
    run(top.eject, algorithm=inp["name"], output_file="p.json")
    with open("p.json") as f:
        got = load_algorithm_from_specification(json.load(f))
    want = copy.deepcopy(AVAILABLE_ALGORITHMS[inp["name"]]()._original_algorithm)
    a, b = dump(got), dump(want)
    a["name"] = b["name"] = ""
    for k in b:
        if a.get(k) != b[k] and not (not a.get(k) and not b[k]):
            return f"the ejected algorithm {inp['name']} has {k} {str(a.get(k))[:300]} instead of {str(b[k])[:300]}"
    return None


def check_neither(inp):
    with open("d.json", "w") as f:
        f.write(json.dumps(data({"seed": 1, "rows": 12, "cols": 3})))
    for kw in ({}, {"algorithm": "nope"}, {"pipeline": "nope.json"}, {"pipeline": "", "algorithm": "NOPE"}):
        try:
            run(top.execute, data_file="d.json", output_file="o.json", **kw)
        except (ValueError, KeyError, OSError, SystemExit):
            pass
        if os.path.exists("o.json"):
            return f"a result is written although no existing pipeline or algorithm is given ({kw})"
    return None


def check_run(inp):
    rows = data(inp)
    with open("d.json", "w") as f:
        f.write(json.dumps({k: [r[k] for r in rows] for k in rows[0]} if inp["columns"] else rows))
    if inp["old"]:
        with open("o.json", "w") as f:
            f.write("y" * 300000)
    s = spec(inp["thr"], inp["shape"])
    s["name"] = inp.get("called", s["name"])
    kw = {}
    if inp["mode"] == "name":
        model = AVAILABLE_ALGORITHMS[inp["name"]]()
        kw["algorithm"] = inp["name"]
        ref = {"reference": inp["name"], "type": "name"}
    else:
        if inp["mode"] == "ejected":
            run(top.eject, algorithm=inp["name"], output_file="p.json")
            model = AVAILABLE_ALGORITHMS[inp["name"]]()
            if inp.get("edit"):
                # an edited definition is executed as it stands in the file
                with open("p.json") as f:
                    s = json.load(f)
                s["pipeline_steps"] = s["pipeline_steps"][:1 + inp["shape"]]
                for v in s.get("variables") or []:
                    v["value"] = inp["thr"]
                with open("p.json", "w") as f:
                    f.write(json.dumps(s))
                model = graph_model_factory(load_algorithm_from_specification(copy.deepcopy(s)))()
        else:
            with open("p.json", "w") as f:
                f.write(json.dumps(s))
            model = graph_model_factory(load_algorithm_from_specification(copy.deepcopy(s)))()
        kw["pipeline"] = "p.json"
        ref = {"reference": "p.json", "type": "file"}
        if inp.get("both"):
            kw["algorithm"] = inp["name"]       # the pipeline takes precedence
    if inp["out"]:
        kw["output_file"] = "o.json"
    before = files()
    run(top.execute, data_file="d.json", **kw)
    if not inp["out"]:
        return None if files() == before else "without an output file something is written"
    with open("o.json") as f:
        got = json.load(f)
    model.create_graph_from_data(JSONDataLoader("d.json"))
    model.create_all_possible_edges()
    with quiet():
        model.execute_pipeline_steps()
    g = model.graph
    want = json.loads(json.dumps(Result(algorithm=AlgorithmReference(**ref), nodes=dict(g.nodes), edges=[e for u in g.edges for e in g.edges[u].values() if not e.deleted], action_history=g.graph.action_history).model_dump(), cls=CausyJSONEncoder))
    if got.get("algorithm") != ref:
        return f"the result names the algorithm {got.get('algorithm')} instead of {ref}"
    a, b = view(got), view(want)
    for k in b:
        if a[k] != b[k]:
            if k == "action_history":
                i = next((i for i, (x, y) in enumerate(zip(a[k], b[k])) if x != y), -1)
                return f"step {i} of the history of the result is {str(a[k][i])[:200]}, the pipeline gives {str(b[k][i])[:200]}"
            return f"the result has the {k} {str(a[k])[:250]}, the pipeline gives {str(b[k])[:250]}"
    return None
