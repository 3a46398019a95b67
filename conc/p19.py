"""Scratch workspaces with a small pipeline (file reference), two variables and a data file: sequences of executions and changes (variable, pipeline step, pipeline option, data value, loader options, nothing, forced); whether the experiment ran is compared with whether anything differs from the last stored result, and each stored result with the edges computed from the data and the resolved threshold; non-trivial: at least one change between two executions."""
import os, json, itertools
import numpy as np
from scipy import stats as _st
from ws import *
RULE = __doc__
CASE_LIMIT = 60
OPS = ["var:thr", "var:extra", "unset:thr", "data", "rows", "opt", "optdel", "step", "stepopt", "default", "loader", "none", "revert", "var2", "jsonl", "dyn", "dynopt", "dyndata", "tail", "algname", "edgetypes", "vardecl"]

NAMES = [("_e", "e"), ("e", "_e"), ("E", "e"), ("my exp", "my"), ("e-1", "e.1"), ("1", "12"), ("é", "e"), ("a_very_long_experiment_name_of_more_than_thirty_two_characters", "a_very_long_experiment_name_of_more_than_thirty_two")]
STRIP = {"strip:v": "variables_hash", "strip:a": "algorithm_hash", "strip:d": "data_loader_hash"}


def cases(rng, tier):
    for op in OPS:
        yield {"seed": 1, "ops": [op]}
    for a in OPS:
        for b in OPS:
            if a != b or a not in ("none", "revert"):
                yield {"seed": 1, "ops": [a, b]}
    for op in ["!named", "!unknown", "!force"]:
        for two in (False, True):
            yield {"seed": 3, "ops": [op], "two": two}
            yield {"seed": 3, "ops": ["var:thr", op, "none"], "two": two}
    for op in STRIP:
        yield {"seed": 3, "ops": [op, "none"]}
        yield {"seed": 3, "ops": [op, "var:thr", "none"], "two": True}
    for n1, n2 in NAMES:
        for op in ("!force", "var:thr", "!named", "!unknown"):
            yield {"seed": 6, "ops": ["none", op, "none"], "two": True, "names": (n1, n2)}
    for op in OPS:
        yield {"seed": 2, "ops": [op, "none"], "two": True}
    for ops in (["dyn", "none"], ["dyn", "dynopt", "none"], ["dyn", "dyndata"], ["dyn", "dynopt", "dyn"], ["jsonl", "data", "none"]):
        yield {"seed": 4, "ops": ops}
    yield {"seed": 5, "ops": ["tail", "none"], "rows": 1500}
    yield {"seed": 5, "ops": ["jsonl", "tail", "none"], "rows": 1500}
    yield {"seed": 5, "ops": ["tail", "none"], "rows": 26000}
    yield {"seed": 5, "ops": ["jsonl", "tail"], "rows": 26000}
    yield {"seed": 3, "ops": ["none", "var:thr", "none", "revert"]}
    yield {"seed": 3, "ops": ["none", "var2", "data", "!named", "!force"], "extra": 13}
    yield {"seed": 3, "ops": ["var2", "none"], "extra": 27}
    for i in range(400 if tier == "quick" else 3000):
        yield {"seed": rng.randrange(1000), "ops": [rng.choice(OPS + list(STRIP) + ["!force", "!named", "!unknown", "none"]) for _ in range(rng.randint(1, 5))], "two": rng.random() < .4, "names": rng.choice([("e", "e_b")] * 4 + NAMES)}


def nontrivial(inp):
    return any(o not in ("none", "!force", "!named", "!unknown") for o in inp["ops"])


def spec(st):
    steps = [{"name": "causy.common_pipeline_steps.calculation.CalculatePearsonCorrelations"},
             {"name": "causy.causal_discovery.constraint.independence_tests.common.CorrelationCoefficientTest", "threshold": {"name": "thr", "type": "reference"}, "display_name": st["disp"]}]
    if st["more"]:
        steps.append({"name": "causy.causal_discovery.constraint.orientation_rules.pc.ColliderTest"})
    return {"name": st["algname"], "pipeline_steps": steps, "edge_types": [{"name": "DIRECTED"}, {"name": "UNDIRECTED"}, {"name": "BIDIRECTED"}][:2 + (st["edgetypes"] == 1)][::-1 if st["edgetypes"] == 2 else 1], "extensions": [],
            "variables": [{"name": "thr", "type": "float", "value": st["dthr"]}, {"name": "extra", "type": "integer", "value": 3}] + [{"name": f"more{i}", "type": "bool", "value": True} for i in range(st["decl"])]}


def data(st):
    r = np.random.RandomState(st["dseed"])
    X = r.randn(st["rows"], 4)
    X[:, 1] += .5 * X[:, 0]
    X[:, 2] += .3 * X[:, 1]
    X[0, 0] += st["bump"]
    X[-1, 3] += st["tail"]
    return X


def write(st):
    with open("alg.json", "w") as f:
        f.write(json.dumps(spec(st)))
    X = data(st)
    rows = [{c: float(v) for c, v in zip("abcd", x)} for x in X]
    for n in ("data.json", "data2.json"):
        with open(n, "w") as f:
            f.write(json.dumps(rows if n == "data.json" else {c: [r[c] * 1.0 for r in rows][::-1] + [] for c in "abcd"}))
    with open("data.jsonl", "w") as f:
        f.write("".join(json.dumps(r) + "\n" for r in rows))
    # a module of the workspace which loads the same rows, without the first ones its option "skip" counts
    with open("vloader_dyn.py", "w") as f:
        f.write(DYN)
    with open("dyn.txt", "w") as f:
        f.write(json.dumps([rows, st["dynver"]]))
    dl = {"type": {"data.jsonl": "jsonl", "vloader_dyn": "dynamic"}.get(st["file"], "json"), "reference": st["file"], "options": st["opt"]}
    if st["file"] == "vloader_dyn":
        dl["options"] = {"skip": st["skip"]} if st["skip"] else None
    n1, n2 = st["names"]
    e = {n1: {"pipeline": "p", "dataloader": "d", "variables": dict(st["vars"])}}
    if st["two"]:
        e[n2] = {"pipeline": "p", "dataloader": "d", "variables": dict(st["vars2"])}
    for i in range(st["extra"]):
        e[f"x{i}"] = {"pipeline": "p", "dataloader": "d", "variables": dict(st["vars2"])}
    write_ws({"name": "w", "author": "a", "pipelines": {"p": {"reference": "alg.json", "type": "file"}}, "dataloaders": {"d": dl}, "experiments": e})


DYN = """
import json
class DataLoader:
    def __init__(self, skip=0):
        self.skip = skip
        self.rows, self.version = json.loads(open("dyn.txt").read())
    def load(self):
        for r in self.rows[self.skip:]:
            yield r
    def hash(self):
        return "rows of " + "x" * 120 + " v%s" % self.version
"""


def variables_of(st, name):
    return {**{"thr": st["dthr"], "extra": 3}, **{f"more{i}": True for i in range(st["decl"])}, **st["vars" if name == st["names"][0] else "vars2"]}


def facts(st, name):
    """what the result depends on"""
    dyn = st["file"] == "vloader_dyn"
    return json.dumps([spec(st)["pipeline_steps"], spec(st)["name"], sorted(e["name"] for e in spec(st)["edge_types"]), variables_of(st, name), st["dynver"] if dyn else data(st).tolist(), st["file"], (st["skip"] if dyn else st["opt"])], sort_keys=True)


def edges_of(st, name):
    X = data(st)
    if st["file"] == "vloader_dyn":
        X = X[st["skip"]:]
    thr = variables_of(st, name)["thr"]
    out = set()
    for a, b in itertools.combinations(range(4), 2):
        r = np.corrcoef(X[:, a], X[:, b])[0, 1]
        p = 2 * _st.norm.sf(abs(np.arctanh(r)) * np.sqrt(len(X) - 3))
        if not p > thr:
            out |= {("abcd"[a], "abcd"[b])}
    return out


def check(inp):
    ex = fn("execute")
    need = getattr(cli, "_experiment_needs_reexecution", None)
    n1, n2 = inp.get("names", ("e", "e_b"))
    names = [n1] + ([n2] if inp.get("two") else [])
    names += [f"x{i}" for i in range(inp.get("extra", 0))]
    with scratch():
        st = {"extra": inp.get("extra", 0), "vars": {}, "vars2": {"thr": .4}, "two": bool(inp.get("two")), "dthr": .05, "disp": "x", "more": False, "dseed": inp["seed"], "rows": inp.get("rows", 25), "bump": 0, "opt": None, "file": "data.json", "skip": 0, "dynver": 0, "tail": 0, "algname": "alg", "edgetypes": 0, "decl": 0, "names": (n1, n2)}
        hist = []
        last, stored = {}, {}
        k = 0
        for op in [None] + list(inp["ops"]):
            hist.append(json.dumps(st))
            if op == "var:thr":
                st["vars"]["thr"] = {.2: .6, .6: .01}.get(st["vars"].get("thr"), .2)
            elif op == "var:extra":
                st["vars"]["extra"] = st["vars"].get("extra", 3) + 1
            elif op == "var2":
                st["vars2"]["thr"] = {.4: .7, .7: .02}.get(st["vars2"].get("thr"), .4)
            elif op == "unset:thr":
                st["vars"].pop("thr", None)
            elif op == "data":
                st["bump"] += .25
                st["dynver"] += 1
            elif op == "tail":
                st["tail"] += .25
                st["dynver"] += 1
            elif op == "algname":
                st["algname"] += "x"
            elif op == "edgetypes":
                st["edgetypes"] = (st["edgetypes"] + 1) % 3
            elif op == "vardecl":
                st["decl"] += 1
            elif op == "dyndata":
                st["dynver"] += 1
            elif op == "rows":
                st["rows"] += 1
                st["dynver"] += 1
            elif op == "opt":
                st["opt"] = {"q": len(hist)}
            elif op == "optdel":
                st["opt"] = None
            elif op == "step":
                st["more"] = not st["more"]
            elif op == "stepopt":
                st["disp"] += "y"
            elif op == "default":
                st["dthr"] = .3 if st["dthr"] == .05 else .05
            elif op == "loader":
                st["file"] = "data2.json" if st["file"] == "data.json" else "data.json"
            elif op == "jsonl":
                st["file"] = "data.jsonl" if st["file"] == "data.json" else "data.json"
            elif op == "dyn":
                st["file"] = "vloader_dyn" if st["file"] == "data.json" else "data.json"
            elif op == "dynopt":
                st["skip"] = (st["skip"] + 3) % 12
            elif op in STRIP:
                # a result stored without one of the hashes: nothing shows that it is still valid
                for n in [x for x in names if x in stored]:
                    old = json.load(open(stored[n]))
                    old[STRIP[op]] = None
                    with open(stored[n], "w") as h:
                        h.write(json.dumps(old))
                    last.pop(n, None)
            elif op == "revert":
                st = json.loads(hist[0])
            write(st)
            what = f"after {inp['ops'][:len(hist) - 1]} the experiment"
            # the variables' default counts as part of the algorithm's declaration: a change of it that is overridden may or may not re-execute
            must = {n: n not in last or facts(st, n) != last[n][0] for n in names}
            loose = {n: not must[n] and json.dumps(spec(st)) != last[n][1] for n in names}
            with quiet():
                try:
                    if need is not None:
                        for n in names:
                            try:
                                nr = need(fn("_current_workspace")(), n)
                            except ValueError:
                                if n in last:
                                    raise
                                continue  # never executed
                            if must[n] and nr is False:
                                return f"{what} {n} is reported as unchanged"
                            if not must[n] and not loose[n] and nr is not False:
                                return f"{what} {n}, which is unchanged, is reported as changed"
                    before = set(files())
                    ex(experiment_name={"!named": n1, "!unknown": "nope"}.get(op), force_reexecution=op == "!force")
                except Skip:
                    raise
                except Exception as e:
                    return f"executing after {inp['ops'][:len(hist) - 1]} failed: {type(e).__name__}: {e}"
            added = set(files()) - before - {"__pycache__"}
            for n in names:
                new = [x for x in added if x.startswith(n + "_") and x[len(n) + 1:-5].isdigit()]
                added -= set(new)
                run = must[n] or op == "!force"
                skip = not run and not loose[n]
                if op == "!unknown" or op == "!named" and n != n1:
                    run, skip = False, True
                elif op == "!named":
                    run, skip = True, False
                if run and not new:
                    return f"{what} {n} was not executed again" + (" though named" if op == "!named" else "")
                if new and skip:
                    return f"{what} {n} was executed again" + (f" by executing {op[1:]}" if op in ("!named", "!unknown") else ", though unchanged")
                if new:
                    k += 1
                    os.rename(new[0], f"{n}_{1000 + k}.json")
                    stored[n] = f"{n}_{1000 + k}.json"
                    last[n] = (facts(st, n), json.dumps(spec(st)))
                    r = json.load(open(f"{n}_{1000 + k}.json"))
                    wantv = variables_of(st, n)
                    if r["variables"] != wantv:
                        return f"the stored result of {n} has the variables {r['variables']}, expected {wantv}"
                    if st["file"] != "data2.json" and not st["more"]:
                        got = {tuple(sorted((e["u"]["name"], e["v"]["name"]))) for e in r["edges"]}
                        if got != edges_of(st, n):
                            return f"with {wantv} the result has the edges {sorted(got)}, the data gives {sorted(edges_of(st, n))}"
                    if sorted(x["name"] for x in r["nodes"].values()) != list("abcd"):
                        return f"the result has the nodes {sorted(x['name'] for x in r['nodes'].values())}"
            if added:
                return f"executing after {inp['ops'][:len(hist) - 1]} stored {sorted(added)}"
    return None
