"""Scratch workspaces with random pipelines, data loaders and experiments sharing them: removing pipelines, data loaders and experiments and updating variables (every kind of variable, good and bad texts, choices) through the commands; the stored workspace is compared with the expected one, result files with the expected ones; non-trivial: the named item exists."""
import os, json, itertools
from ws import *
import p15
from p15 import KIND
RULE = __doc__
PN = ["p", "p2", "pipe"]
GONE = ["gone", "pip", "p3"]
DN = ["d", "d2", "p"]
EN = ["e", "e2", "d", "p", "nope2"]
TEXT = {"s": ["x", "", "true", "5", "False", " x", "X"], "i": ["5", "-3", "0", "x", "1.5", "", "true", " 7 ", "1_0", "5.0", "1,5", "0x5", "1e3", "+5", "١"],
        "f": ["0.5", "1", "x", "", "-2e3", "inf", "0,5", "1,000.5", "50%", "1/2", " .5 "], "b": ["true", "false", "True", "FALSE", "1", "0", "", "yes", "x", "t", " true", "on"]}
NEAR = ["vs ", " vi", "VI", "v", "vii", "cs\n", ""]
VARS = [["vs", "s", "x", None], ["vi", "i", 5, None], ["vf", "f", .5, None], ["vb", "b", True, None], ["cs", "s", "x", ["x", "y"]], ["ci", "i", 1, [1, 5]], ["cf", "f", .5, [.5, 1.0]]]


def cases(rng, tier):
    for n, k, v, ch in VARS:
        for t in TEXT[k] + ["y"]:
            yield {"op": "var", "exp": {"e": ["p", "d"], "e2": ["p", "d"]}, "args": ["e", n, t]}
    yield {"op": "var", "exp": {"e": ["p", "d"]}, "args": ["e", "nope", "1"]}
    yield {"op": "var", "exp": {"e": ["p", "d"]}, "args": ["nope", "vi", "1"]}
    for n in NEAR:
        yield {"op": "var", "exp": {"e": ["p", "d"]}, "args": ["e", n, "1"]}
    for n in ("E", " e", "e ", ""):
        yield {"op": "var", "exp": {"e": ["p", "d"]}, "args": [n, "vi", "1"]}
    many = {f"x{k}": [PN[k % 3], DN[k % 2]] for k in range(40)}
    for op, a in (("rmp", "p"), ("rmp", "pipe"), ("rmd", "d"), ("rmd", "p"), ("rme", "x33"), ("rme", "x3")):
        yield {"op": op, "exp": many, "args": [a]}
    yield {"op": "rmp", "exp": {f"x{k}": ["p" if k == 35 else "p2", "d" if k == 37 else "d2"] for k in range(40)}, "args": ["p"]}
    yield {"op": "rmd", "exp": {f"x{k}": ["p" if k == 35 else "p2", "d" if k == 37 else "d2"] for k in range(40)}, "args": ["d"]}
    yield {"op": "var", "exp": many, "args": ["x33", "vi", "7"]}
    for i in range(4000 if tier == "quick" else 30000):
        w = rng.random() < .3
        exp = {e: [rng.choice(PN + GONE if w else PN), rng.choice(DN + GONE if w else DN)] for e in rng.sample(EN, rng.randint(0, 5))}
        op = rng.choice(["rmp", "rmd", "rme", "rme"])
        yield {"op": op, "exp": exp, "args": [rng.choice({"rmp": PN, "rmd": DN, "rme": EN}[op] + ["nope"])], "results": {e: rng.randint(0, 2) for e in EN},
               "pre": {"e": {"vi": 9}, "d": {"vb": False}} if rng.random() < .4 else None}
    for i in range(500 if tier == "quick" else 10000):
        k = rng.choice(VARS)
        yield {"op": "var", "exp": {e: [rng.choice(PN), "d"] for e in EN[:rng.randint(1, 4)]}, "args": ["e", k[0], rng.choice(TEXT[k[1]])], "pre": {"e": {"vi": 9}, "e2": {"vf": .25}}}


def nontrivial(inp):
    return inp["args"][0] != "nope"


def conv(k, t, ch):
    """(ok, value)"""
    try:
        if k == "s":
            v = t
        elif k == "i":
            v = int(t)
        elif k == "f":
            v = float(t)
        else:
            v = {"true": True, "false": False}[t.lower()]
    except (ValueError, KeyError):
        return False, None
    return (not ch or v in ch), v


def check(inp):
    with scratch():
        alg = {"name": "alg", "pipeline_steps": [{"name": "causy.common_pipeline_steps.calculation.CalculatePearsonCorrelations"}], "edge_types": [], "extensions": [],
               "variables": [{"name": n, "type": {"s": "string", "i": "integer", "f": "float", "b": "bool"}[k], "value": v, "choices": ch} for n, k, v, ch in VARS]}
        with open("alg.json", "w") as f:
            f.write(json.dumps(alg))
        d = {"name": "w", "author": "a", "pipelines": {p: {"reference": "alg.json", "type": "file"} for p in PN},
             "dataloaders": {n: {"type": "json", "reference": n + ".json", "options": {"a": 1} if n == "d2" else None} for n in DN},
             "experiments": {e: {"pipeline": v[0], "dataloader": v[1], "variables": dict((inp.get("pre") or {}).get(e, {}))} for e, v in inp["exp"].items()}}
        write_ws(d)
        for e in EN:
            for t in [5, 17][:(inp.get("results") or {}).get(e, 1)]:
                with open(f"{e}_{t}.json", "w") as f:
                    f.write("{}")
        before = files()
        name = {"rmp": "remove_pipeline", "rmd": "remove_data_loader", "rme": "remove_experiment", "var": "update_experiment_variable"}[inp["op"]]
        f = fn(name)
        a = inp["args"]
        err = None
        with quiet():
            try:
                f(*a)
            except Skip:
                raise
            except (Exception, SystemExit) as e:
                err = e
        want = norm(d)
        wf = list(before)
        what = f"{name}{tuple(a)} with experiments {inp['exp']}"
        refuse = False
        if inp["op"] == "rmp":
            refuse = a[0] not in d["pipelines"] or any(v[0] == a[0] for v in inp["exp"].values())
            if not refuse:
                del want["pipelines"][a[0]]
        elif inp["op"] == "rmd":
            refuse = a[0] not in d["dataloaders"] or any(v[1] == a[0] for v in inp["exp"].values())
            if not refuse:
                del want["dataloaders"][a[0]]
        elif inp["op"] == "rme":
            refuse = a[0] not in d["experiments"]
            if not refuse:
                del want["experiments"][a[0]]
                wf = [x for x in wf if x not in (f"{a[0]}_5.json", f"{a[0]}_17.json")]
        else:
            var = next((v for v in VARS if v[0] == a[1]), None)
            ok, val = conv(var[1], a[2], var[3]) if var else (False, None)
            refuse = a[0] not in d["experiments"] or not ok
            if not refuse:
                want["experiments"][a[0]]["variables"][a[1]] = val
        if err is not None and not refuse:
            return f"{what} failed: {type(err).__name__}: {err}"
        try:
            got = norm(read_ws())
        except Exception as e:
            return f"{what}: the stored workspace is broken: {e}"
        js = lambda x: json.dumps(x, sort_keys=True)
        if js(got) != js(want):
            part = next((k for k in want if js(got.get(k)) != js(want[k])), "?")
            return f"{what}: stored {part} {got.get(part)}, expected {want.get(part)}" + (" (it must be refused)" if refuse else "")
        if files() != sorted(wf):
            return f"{what}: files changed to {files()}"
        try:
            with quiet():
                fn("_current_workspace")()
        except Skip:
            pass
        except Exception as e:
            return f"{what}: the stored workspace cannot be loaded: {type(e).__name__}: {e}"
    return None
