"""Scratch workspaces with several experiments (names that extend each other, spaces, dots) and stored results of different contents, look-alike files around them, algorithm files inside and outside the workspace: the answers of the web API (experiments, versions, latest, single versions, unknown names and versions, algorithms by name, file and module, a single loaded result, no workspace) compared with the files read independently; non-trivial: more than one stored result."""
import os, json, datetime, urllib.parse, copy
from ws import *
from fastapi.testclient import TestClient
from causy.ui import server as sv
from causy.serialization import CausyJSONEncoder, load_algorithm_from_specification
import p18
RULE = __doc__
CASE_LIMIT = 60
NAMES = ["exp", "exp_1", "exp_a", "e", "exp_1_2", "my exp", "e.x", "exp-2", "x_", "latest", "Exp", "_e", "e+x", "a[1]", "é", "12"]
TIMES = [0, 1, 3, 20, 100, 1700000000, 1700000001, 1700500000]
SPEC = {"name": "t", "pipeline_steps": [{"name": "causy.common_pipeline_steps.calculation.CalculatePearsonCorrelations", "display_name": "n"}, {"name": "causy.common_pipeline_steps.logic.Loop", "pipeline_steps": [
    {"name": "causy.causal_discovery.constraint.orientation_rules.pc.ColliderTest", "parallel": False}], "exit_condition": {"name": "causy.common_pipeline_steps.exit_conditions.ExitOnNoActions"}}],
    "edge_types": [{"name": "DIRECTED"}, {"name": "UNDIRECTED"}], "extensions": [], "variables": [{"name": "thr", "type": "float", "value": .25}]}
ALGS = [["name", "PC"], ["name", "nope"], ["file", "a.json"], ["file", "nothere.json"], ["file", "../top.json"], ["file", "..%2Ftop.json"], ["file", "l_out.json"], ["file", "%2Fetc%2Fhostname"], ["file", "b..json"], ["other", "a.json"],
        ["FILE", "a.json"], ["python_module", "nope"], ["python_module", "causy.causal_discovery.constraint.algorithms.pc.PC_EDGE_TYPES"]]


def cases(rng, tier):
    for a in ALGS:
        yield {"mode": "alg", "alg": a}
    for k in ("", "D", "DUB"):
        yield {"mode": "model", "content": k}
    yield {"mode": "none"}
    for k in (25, 60, 130):
        yield {"mode": "ws", "names": ["exp", "e"], "res": [[n, t * 7 + 1, "DU", t % 100] for n in ("exp", "e") for t in rng.sample(range(1000), k)], "junk": [], "vars": [None, {}]}
    for i in range(700 if tier == "quick" else 6000):
        names = rng.sample(NAMES, rng.randint(1, 4))
        yield {"mode": "ws", "names": names, "res": [[n, t, "".join(rng.choice("DUB") for _ in range(rng.randint(0, 4))), rng.randrange(100)] for n in names for t in rng.sample(TIMES, rng.randint(0, 4))],
               "junk": rng.sample(p18.JUNK, rng.randint(0, 6)), "vars": [rng.choice([None, {}, {"thr": .5}]) for _ in names]}


def nontrivial(inp):
    return inp["mode"] == "ws" and len(inp["res"]) > 1


def client():
    if not hasattr(sv, "_create_ui_app") or not hasattr(sv, "_set_workspace"):
        raise Skip("the server is built differently")
    return TestClient(sv._create_ui_app(with_static=False), raise_server_exceptions=False)


def stored(kinds, tag, ts):
    r = Result(algorithm=AlgorithmReference(reference="PC", type="name"), created_at=datetime.datetime.fromtimestamp(ts + .25), variables={"a": tag}, data_loader_hash=f"h{tag}", algorithm_hash="k", variables_hash="v", **p18.content(kinds))
    return json.loads(json.dumps(r.model_dump(), cls=CausyJSONEncoder))


def same_result(got, want, version):
    got = copy.deepcopy(got)
    if got.pop("version", None) != version:
        return f"carries another version than {version}"
    for n in got.get("nodes", {}).values():
        if n.pop("position", None) is not None:
            return "carries positions of nodes"
    for k in want:
        if k == "created_at":
            if datetime.datetime.fromisoformat(got.get(k, "")) != datetime.datetime.fromisoformat(want[k]):
                return f"was created at {got.get(k)} instead of {want[k]}"
        elif got.get(k) != want[k]:
            return f"has {k} {str(got.get(k))[:200]} instead of {str(want[k])[:200]}"
    return None


def check(inp):
    try:
        with scratch() as ws:
            return {"ws": check_ws, "alg": check_alg, "model": check_model, "none": check_none}[inp["mode"]](inp, ws)
    finally:
        sv._set_workspace(None)
        sv._set_model(None)


def q(x):
    return urllib.parse.quote(x, safe="")


def check_none(inp, ws):
    c = client()
    sv._set_workspace(None)
    sv._set_model(None)
    with open("e_5.json", "w") as f:
        f.write(json.dumps(stored("D", 1, 5)))
    for u in ("experiments", "experiments/e/latest", "experiments/e/5", "workspace", "model"):
        r = c.get("/api/v1/" + u)
        if r.status_code != 404:
            return f"without a workspace {u} answers {r.status_code}: {r.text[:200]}"
    s = c.get("/api/v1/status").json()
    return None if (s["model_loaded"], s["workspace_loaded"]) == (False, False) else f"without a workspace the status is {s}"


def check_model(inp, ws):
    c = client()
    w = stored(inp["content"], 7, 50)
    sv._set_model(copy.deepcopy(w))
    r = c.get("/api/v1/model")
    if r.status_code != 200:
        return f"the loaded result is answered with {r.status_code}: {r.text[:200]}"
    e = same_result(r.json(), w, None)
    return e and "the loaded result " + e


def check_alg(inp, ws):
    kind, ref = inp["alg"]
    for n in ("a.json", "b..json", "../top.json"):
        with open(n, "w") as f:
            f.write(json.dumps({**SPEC, "name": n}))
    os.symlink("../top.json", "l_out.json")
    r = client().get(f"/api/v1/algorithm/{kind}/{ref}")
    ok = [kind, ref] in (["name", "PC"], ["file", "a.json"])
    if [kind, ref] == ["file", "b..json"] and r.status_code != 200:
        return None     # two dots in a row may be refused
    if not ok and [kind, ref] != ["file", "b..json"]:
        return None if r.status_code >= 400 else f"the algorithm {kind} {ref} is answered with {r.text[:200]}"
    if r.status_code != 200:
        return f"the algorithm {kind} {ref} is answered with {r.status_code}: {r.text[:200]}"
    if kind == "file":
        want = json.loads(json.dumps(load_algorithm_from_specification({**copy.deepcopy(SPEC), "name": ref}).model_dump(), cls=CausyJSONEncoder))
    else:
        from causy.causal_discovery import AVAILABLE_ALGORITHMS
        want = json.loads(json.dumps(AVAILABLE_ALGORITHMS[ref]()._original_algorithm.model_dump(), cls=CausyJSONEncoder))
    got = r.json()
    for k in want:
        if got.get(k) != want[k]:
            return f"the algorithm {kind} {ref} is served with {k} {str(got.get(k))[:300]} instead of {str(want[k])[:300]}"
    return None


def check_ws(inp, ws):
    exps = {n: {"pipeline": f"p{i % 2}", "dataloader": f"d{i % 2}", "variables": v} for i, (n, v) in enumerate(zip(inp["names"], inp["vars"]))}
    write_ws({"name": "w", "author": "a", "pipelines": {"p0": {"reference": "PC", "type": "name"}, "p1": {"reference": "a.json", "type": "file"}},
              "dataloaders": {f"d{i}": {"type": "json", "reference": f"d{i}.json", "options": None} for i in (0, 1)}, "experiments": exps})
    for f in inp["junk"]:
        with open(f, "w") as h:
            h.write(json.dumps({"file": f}))
    have = {n: {} for n in inp["names"]}
    for n, t, kinds, tag in inp["res"]:
        have[n][t] = stored(kinds, tag, t)
        with open(f"{n}_{t}.json", "w") as h:
            h.write(json.dumps(have[n][t], indent=4))
    # a file name can belong to two experiments ("exp" and "exp_1"): then it is not clear which one it is a result of
    names = [n for n in inp["names"] if all(set(p18.mine(n, [f])) == set() for f in inp["junk"])]
    with quiet():
        w = fn("_current_workspace")()
    sv._set_workspace(w)
    c = client()
    before = files()
    r = c.get("/api/v1/workspace")
    if r.status_code != 200 or norm(r.json())["experiments"] != norm(read_ws())["experiments"] or r.json()["pipelines"] != read_ws()["pipelines"]:
        return f"the workspace is answered with {r.status_code}: {r.text[:300]}"
    r = c.get("/api/v1/experiments")
    if r.status_code != 200:
        return f"the list of experiments is answered with {r.status_code}: {r.text[:200]}"
    got = {x["name"]: x for x in r.json()}
    if sorted(x["name"] for x in r.json()) != sorted(inp["names"]):
        return f"the experiments {[x['name'] for x in r.json()]} are listed, the workspace has {inp['names']}"
    for n in names:
        x = got[n]
        ts = sorted(have[n], reverse=True)
        if (x["pipeline"], x["dataloader"], x["variables"] or {}) != (exps[n]["pipeline"], exps[n]["dataloader"], exps[n]["variables"] or {}):
            return f"the experiment {n!r} is listed as {x}"
        if [v["version"] for v in x["versions"]] != ts:
            return f"the versions of {n!r} are listed as {[v['version'] for v in x['versions']]}, stored are {ts}"
        if any(datetime.datetime.fromisoformat(v["name"]).timestamp() != v["version"] for v in x["versions"]):
            return f"the versions of {n!r} have the wrong times: {x['versions']}"
        r = c.get(f"/api/v1/experiments/{q(n)}/latest")
        if not ts:
            if r.status_code < 400 or r.status_code >= 500:
                return f"the latest result of {n!r}, which has none, is answered with {r.status_code}: {r.text[:200]}"
        else:
            if r.status_code != 200:
                return f"the latest result of {n!r} is answered with {r.status_code}: {r.text[:200]}"
            e = same_result(r.json(), have[n][ts[0]], ts[0])
            if e:
                return f"the latest result of {n!r} {e}"
        for t in TIMES + [4242]:
            r = c.get(f"/api/v1/experiments/{q(n)}/{t}")
            if t not in have[n]:
                if r.status_code < 400 or r.status_code >= 500:
                    return f"version {t} of {n!r}, which does not exist, is answered with {r.status_code}: {r.text[:200]}"
                continue
            if r.status_code != 200:
                return f"version {t} of {n!r} is answered with {r.status_code}: {r.text[:200]}"
            e = same_result(r.json(), have[n][t], t)
            if e:
                return f"version {t} of {n!r} {e}"
    for u in ("experiments/missing/latest", "experiments/missing/1", "experiments/exp_1700000000/1"):
        r = c.get("/api/v1/" + u)
        if r.status_code != 404 and not (u.split("/")[1] in inp["names"]):
            return f"the unknown experiment in {u} is answered with {r.status_code}: {r.text[:200]}"
    if files() != before:
        return "answering changed the files of the workspace"
    return None
