"""Scratch workspaces with random contents in which pipelines (preconfigured, ejected, skeletons), data loaders (json, jsonl, dynamic), experiments and whole workspaces are created through the commands, with answers in place of the prompts: names with spaces, quotes, dashes, accents, names already used, cancelled dialogues and refused confirmations; the stored workspace is compared entry by entry, and what was created is loaded the way an experiment loads it; workspaces with awkward texts and values are written and read back; non-trivial: something is created."""
import os, json, importlib
import questionary, typer
import torch.multiprocessing as mp
from ws import *
from markdown.extensions.toc import slugify
from causy.causal_discovery import AVAILABLE_ALGORITHMS
from causy.serialization import load_algorithm_by_reference, CausyJSONEncoder
from causy.data_loader import load_data_loader
from causy.graph_model import graph_model_factory
RULE = __doc__
CASE_LIMIT = 120
KINDS, TYPES = ["PRECONFIGURED", "EJECT", "SKELETON"], ["json", "jsonl", "dynamic"]
NAMES = ["vk one", "VK Two", "vk", "vk-dash", 'vk "quoted"', "vk's", "vk\\back", "Vk Ünï", "vk_under  score", "vk.1", "9vk", "vk {{x}}", "p", "p2"]
VARS = [{"name": "vs", "type": "string", "value": "x", "choices": None}, {"name": "vi", "type": "integer", "value": 5, "choices": [1, 5]}, {"name": "vf", "type": "float", "value": .5, "choices": None}, {"name": "vb", "type": "bool", "value": True, "choices": None},
        {"name": "zs", "type": "string", "value": "", "choices": None}, {"name": "zi", "type": "integer", "value": 0, "choices": None}, {"name": "zf", "type": "float", "value": 0.0, "choices": None}, {"name": "zb", "type": "bool", "value": False, "choices": None}, {"name": "ts", "type": "string", "value": "1e5", "choices": None}]
TEXTS = ["w", "", "yes", "null", "1", "a: b", "ü 'x' \"y\"", "- #c", "two\nlines", " s ", "1e5", "2020-01-01", "~", "on", "1_000", "0x1f", "0o17", "1:30", ".inf", "12e3", "True", "a\tb", "!x", "&a", "*a", "[1]", "{a: 1}", "%", "@", "`", "x" * 200 + " y" * 40, "=", "<<"]


def cases(rng, tier):
    n = 1 if tier == "quick" else 8
    algs = sorted(AVAILABLE_ALGORITHMS)
    for k in KINDS:
        for a in algs if k != "SKELETON" else algs[:1]:
            for nm in NAMES:
                yield {"op": "pipeline", "kind": k, "alg": a, "pname": nm, "full": rng.random() < .5}
    for t in TYPES:
        for nm in NAMES:
            yield {"op": "loader", "type": t, "lname": nm if nm[0] != "p" else "d" + nm[1:], "full": rng.random() < .5}
    for i in range(60 * n):
        yield {"op": "experiment", "pname": rng.choice(["p", "p2", "p3", "p4", "My Pipe"]), "lname": rng.choice(["d", "d2", "My Data"]), "ename": rng.choice(NAMES + ["e"]), "full": True}
    for op, who in (("pipeline", "kind alg pname"), ("loader", "type path lname"), ("experiment", "exp_p exp_l ename")):
        for w in who.split():
            for k in range(3):
                yield {"op": op, "kind": KINDS[k], "alg": "PC", "type": TYPES[k], "pname": "vk" if op == "pipeline" else "p", "lname": "vk" if op == "loader" else "d", "ename": "vk", "full": True, "cancel": w}
    for i in range(150 * n):
        yield {"op": "init", "kind": rng.choice(KINDS), "alg": rng.choice(algs), "type": rng.choice(TYPES), "pname": rng.choice(NAMES[:10]) + "p", "lname": rng.choice(NAMES[:10]) + "d", "ename": rng.choice(NAMES[:10]),
               "do": [rng.random() < .6 for _ in range(3)], "there": rng.random() < .5, "over": rng.random() < .6, "wname": rng.choice(TEXTS), "author": rng.choice(TEXTS), "full": False}
    for i in range(300 * n):
        yield {"op": "round", "seed": rng.randrange(10 ** 6)}


def nontrivial(inp):
    return inp["op"] != "round" and not inp.get("cancel")


class Answer:
    def __init__(self, v):
        self.v = v
    def ask(self, *a, **k):
        return self.v
    unsafe_ask = ask


@contextlib.contextmanager
def answers(plan, asked):
    """the dialogue functions answer from the plan"""
    def named(msg, what):
        m = str(msg).lower()
        for w, k in (("pipeline", "pname"), ("loader", "lname"), ("experiment", "ename")):
            if w in m:
                return k
        return what

    def select(message, choices=None, *a, **kw):
        vals = [getattr(c, "value", c) for c in choices]
        for k in ("kind", "type", "alg", "exp_p", "exp_l"):
            if plan.get(k) in vals and (k, "sel") not in asked:
                asked.append((k, "sel"))
                return Answer(None if plan.get("cancel") == k else plan[k])
        raise Missing(f"none of the planned choices is offered in {vals}")

    def text(message, *a, **kw):
        k = named(message, plan["name_of"])
        asked.append((k, "text"))
        return Answer(None if plan.get("cancel") == k else plan[k])

    def path(message, *a, **kw):
        asked.append(("path", "path"))
        return Answer(None if plan.get("cancel") == "path" else plan["path"])

    def confirm(text, default=False, abort=False, *a, **kw):
        m = str(text).lower()
        v = plan["over"] if "exist" in m or "overwrite" in m else plan["do"][0] if "pipeline" in m else plan["do"][1] if "loader" in m else plan["do"][2]
        asked.append(("over" if "exist" in m or "overwrite" in m else "do", "confirm"))
        if abort and not v:
            raise typer.Abort()
        return v

    def prompt(text, *a, **kw):
        m = str(text).lower()
        asked.append((m, "prompt"))
        return plan["author"] if "author" in m else plan["wname"]

    class Pool:
        def __init__(self, *a, **k):
            pass
        close = join = terminate = __init__
    repl = [(questionary, n, f) for n, f in (("select", select), ("text", text), ("path", path))] + [(typer, "confirm", confirm), (typer, "prompt", prompt), (mp, "Pool", Pool)]
    old = []
    for o, n, f in repl:
        real = getattr(o, n)
        old.append((o, n, real))
        setattr(o, n, f)
        for k, v in list(vars(cli).items()):
            if v is real:
                old.append((cli, k, v))
                setattr(cli, k, f)
    mods = set(sys.modules)
    try:
        yield
    finally:
        for o, n, v in reversed(old):
            setattr(o, n, v)
        for k in set(sys.modules) - mods:
            f = getattr(sys.modules[k], "__file__", None) or ""
            if f.startswith(os.getcwd()):
                del sys.modules[k]


class Missing(Exception):
    pass


def start(full):
    with open("alg.json", "w") as f:
        f.write(json.dumps({"name": "alg", "pipeline_steps": [{"name": "causy.common_pipeline_steps.calculation.CalculatePearsonCorrelations"}], "edge_types": [], "extensions": [], "variables": VARS}))
    with open("plain.json", "w") as f:
        f.write(json.dumps({"name": "plain", "pipeline_steps": [], "edge_types": [], "extensions": [], "variables": []}))
    rows = [{"a": 1.0, "b": 2.5}, {"a": -3.0, "b": 0.5}]
    with open("rows.json", "w") as f:
        f.write(json.dumps(rows))
    with open("rows.jsonl", "w") as f:
        f.write("\n".join(map(json.dumps, rows)))
    d = {"name": "w", "author": None if full else "a", "pipelines": {}, "dataloaders": {}, "experiments": {}}
    if full:
        d["pipelines"] = {"p": {"reference": "alg.json", "type": "file"}, "p2": {"reference": "PC", "type": "name"}, "p3": {"reference": "plain.json", "type": "file"}, "p4": {"reference": "causy.causal_discovery.constraint.algorithms.pc.PCStable", "type": "python_module"}, "My Pipe": {"reference": "alg.json", "type": "file"}}
        d["dataloaders"] = {"d": {"type": "json", "reference": "rows.json", "options": None}, "d2": {"type": "jsonl", "reference": "rows.jsonl", "options": {"a": 1}}, "My Data": {"type": "json", "reference": "rows.json", "options": None}}
        d["experiments"] = {"e": {"pipeline": "p", "dataloader": "d", "variables": {"vi": 1}}, "e2": {"pipeline": "p2", "dataloader": "d2", "variables": {}}}
    return d, rows


def dump(a):
    return json.loads(json.dumps(a.model_dump(), cls=CausyJSONEncoder))


def one_new(before, after, name, what):
    """(key, entry) of the created entry or a message"""
    keys = {name, slugify(name, "_")}
    changed = [k for k in set(before) | set(after) if before.get(k) != after.get(k)]
    if set(changed) - keys:
        return None, f"creating the {what} {name!r} changes the entry {sorted(set(changed) - keys)[0]!r}: {before.get(changed[0])} becomes {after.get(changed[0])}"
    there = [k for k in keys if k in after and (k in changed or k in before)]
    if len(changed) > 1 or not [k for k in keys if k in after]:
        return None, f"creating the {what} {name!r} leaves {sorted(after)}"
    k = changed[0] if changed else there[0]
    if k not in after:
        return None, f"creating the {what} {name!r} removes {k!r}"
    return k, None


def check_pipeline(plan, e, new, name):
    kind = plan["kind"]
    want = {"PRECONFIGURED": 0, "EJECT": 1, "SKELETON": 1}[kind]
    if len(new) != want:
        return f"creating the pipeline {name!r} ({kind}) creates the files {new}"
    importlib.invalidate_caches()
    try:
        with quiet():
            got = load_algorithm_by_reference(e["type"], e["reference"])
    except Exception as x:
        return f"the created pipeline {name!r} ({kind}) is stored as {e} and does not load: {type(x).__name__}: {x}"
    if kind == "SKELETON":
        if got.name != name or got.pipeline_steps:
            return f"the skeleton {name!r} loads as the algorithm {got.name!r} with {len(got.pipeline_steps)} steps"
        return None
    a, b = dump(got), dump(AVAILABLE_ALGORITHMS[plan["alg"]]()._original_algorithm)
    for k in b:
        if a.get(k) != b[k] and not (not a.get(k) and not b[k]):
            return f"the created pipeline {name!r} ({kind} of {plan['alg']}) loads with {k} {str(a.get(k))[:200]} instead of {str(b[k])[:200]}"
    return None


def check_loader(plan, e, new, name, rows):
    t = plan["type"]
    if len(new) != (t == "dynamic"):
        return f"creating the data loader {name!r} ({t}) creates the files {new}"
    if e["type"] != t or e.get("options"):
        return f"the data loader {name!r} of type {t} is stored as {e}"
    importlib.invalidate_caches()
    try:
        got = list(load_data_loader(DataLoaderReference(**e)).load())
    except Exception as x:
        return f"the created data loader {name!r} ({t}) is stored as {e} and does not load: {type(x).__name__}: {x}"
    if t != "dynamic" and got != rows:
        return f"the created data loader {name!r} loads {got}, the chosen file {plan['path']} has {rows}"
    if t == "dynamic" and (not got or not all(isinstance(r, dict) for r in got)):
        return f"the data loader created from the template yields {got}"
    return None


def defaults(ref):
    with quiet():
        a = load_algorithm_by_reference(ref["type"], ref["reference"])
    return {v.name: v.value for v in a.variables or []}


def check_experiment(plan, e, name, pipes):
    want = {"pipeline": plan["exp_p"], "dataloader": plan["exp_l"], "variables": defaults(pipes[plan["exp_p"]])}
    got = {"pipeline": e.get("pipeline"), "dataloader": e.get("dataloader"), "variables": e.get("variables") or {}}
    if got != want or any(type(got["variables"][k]) is not type(v) for k, v in want["variables"].items()):
        return f"the experiment {name!r} is created as {got} instead of {want}"
    return None


def check(inp):
    with scratch():
        if inp["op"] == "round":
            return check_round(inp)
        return check_init(inp) if inp["op"] == "init" else check_create(inp)


def check_create(inp):
    d, rows = start(inp["full"] or inp["op"] == "experiment")
    write_ws(d)
    d = norm(d)
    op = inp["op"]
    f = fn({"pipeline": "create_pipeline", "loader": "create_data_loader", "experiment": "create_experiment"}[op])
    nk = {"pipeline": "pname", "loader": "lname", "experiment": "ename"}[op]
    plan = dict(inp, name_of=nk, path="rows." + (inp.get("type") or "json"), over=True, do=[True] * 3)
    if op == "experiment":
        plan = {"exp_p": inp["pname"], "exp_l": inp["lname"], "ename": inp["ename"], "name_of": nk, "cancel": inp.get("cancel")}
    before, asked = files(), []
    with answers(plan, asked):
        try:
            with quiet():
                f()
        except Missing as x:
            return str(x)
        except Exception as x:
            if inp.get("cancel"):
                return None if norm(read_ws()) == d else f"a dialogue cancelled at {inp['cancel']} changes the workspace"
            raise
        new = [x for x in files() if x not in before and x != "__pycache__"]
        w = norm(read_ws())
        if inp.get("cancel") and any(k == inp["cancel"] for k, _ in asked):
            return None if w == d else f"a dialogue cancelled at {inp['cancel']} changes the workspace: {d} becomes {w}"
        coll = {"pipeline": "pipelines", "loader": "dataloaders", "experiment": "experiments"}[op]
        for k in d:
            if k != coll and w.get(k) != d[k]:
                return f"creating a {op} changes {k}: {d[k]} becomes {w.get(k)}"
        k, msg = one_new(d[coll], w[coll], inp[nk], op)
        if msg:
            return msg
        if op == "pipeline":
            return check_pipeline(plan, w[coll][k], new, inp[nk])
        if op == "loader":
            return check_loader(plan, w[coll][k], new, inp[nk], rows)
        if new:
            return f"creating an experiment creates the files {new}"
        return check_experiment(plan, w[coll][k], inp[nk], d["pipelines"])


def check_init(inp):
    d, rows = start(False)
    old = None
    if inp["there"]:
        write_ws(dict(d, name="old", pipelines={"q": {"reference": "PC", "type": "name"}}))
        old = read_ws()
    f = fn("init")
    plan = dict(inp, name_of="pname", path="rows." + inp["type"], exp_p=None, exp_l=None)
    before, asked = files(), []
    do = inp["do"]
    # the offered experiment choices are the created entries: whichever key they got
    plan = dict(plan)
    asked_keys = {"exp_p": {inp["pname"], slugify(inp["pname"], "_")}, "exp_l": {inp["lname"], slugify(inp["lname"], "_")}}
    with answers(plan, asked):
        sel = questionary.select

        def select(message, choices=None, *a, **kw):
            vals = [getattr(c, "value", c) for c in choices]
            for k, ks in asked_keys.items():
                if len(vals) == 1 and vals[0] in ks:
                    plan[k] = vals[0]
                    return Answer(vals[0])
            return sel(message, choices, *a, **kw)
        questionary.select = select
        for k, v in list(vars(cli).items()):
            if v is sel:
                setattr(cli, k, select)
        try:
            with quiet():
                f()
        except Missing as x:
            return str(x)
        except typer.Abort:
            if not inp["there"] or inp["over"]:
                return "init gives up although nothing was refused"
            return None if read_ws() == old and files() == before else "a refused init changes the workspace"
        finally:
            questionary.select = sel
            for k, v in list(vars(cli).items()):
                if v is select:
                    setattr(cli, k, sel)
        if inp["there"] and not inp["over"]:
            return None if read_ws() == old else "init overwrites the workspace although this was refused"
        new = [x for x in files() if x not in before and x not in ("__pycache__", "workspace.yml")]
        with quiet():
            w = fn("_current_workspace")()
        w = norm(w.model_dump(mode="json"))
        if w["name"] != inp["wname"] or w["author"] != inp["author"]:
            return f"the workspace is stored with name {w['name']!r} and author {w['author']!r} instead of {inp['wname']!r} and {inp['author']!r}"
        for coll, on, nk in (("pipelines", do[0], "pname"), ("dataloaders", do[1], "lname"), ("experiments", do[2] and do[0] and do[1], "ename")):
            if not on:
                if w[coll]:
                    return f"a new workspace without {coll} has {w[coll]}"
                continue
            k, msg = one_new({}, w[coll], inp[nk], coll[:-1])
            if msg:
                return msg
            e = w[coll][k]
            if coll == "pipelines":
                r = check_pipeline(plan, e, [x for x in new if not x.startswith(slugify(inp["lname"], "_"))], inp[nk])
            elif coll == "dataloaders":
                r = check_loader(plan, e, [x for x in new if not x.startswith(slugify(inp["pname"], "_"))], inp[nk], rows)
            else:
                r = check_experiment(plan, e, inp[nk], w["pipelines"])
            if r:
                return r
    return None


def check_round(inp):
    import random
    r = random.Random(inp["seed"])
    t = lambda: r.choice(TEXTS)
    pipes = {t(): {"reference": t(), "type": r.choice(["file", "name", "python_module"])} for _ in range(r.randrange(3))}
    loads = {t(): {"type": r.choice(TYPES), "reference": t(), "options": r.choice([None, {"a": t(), "b": [1, 2.5, None]}])} for _ in range(r.randrange(3))}
    exps = {t(): {"pipeline": t(), "dataloader": t(), "variables": {t(): r.choice([t(), 5, -2, .25, 1e-7, True, False, 1.0])}} for _ in range(r.randrange(4))}
    w = Workspace(name=t(), author=r.choice([None, t()]), pipelines=pipes, dataloaders=loads, experiments=exps)
    want = json.loads(json.dumps(w.model_dump(mode="json")))
    with open("workspace.yml", "w") as f:
        f.write("z" * 5000)
    with quiet():
        fn("write_to_workspace")(w)
        got = fn("_current_workspace")()
    got = json.loads(json.dumps(got.model_dump(mode="json")))
    if json.dumps(got, sort_keys=True) != json.dumps(want, sort_keys=True):
        return f"the workspace {want} is read back as {got}"
    if files() != ["workspace.yml"]:
        return f"storing the workspace leaves the files {files()}"
    return None
