"""Scratch directory trees with files, nested and sibling directories (names extending the workspace's), symbolic links inside and out, entered directly and through a link, with relative, dotted and absolute references: every reference is loaded while all opened paths are recorded by an audit hook; algorithms loaded by name and by module are resolved, modified and loaded again; non-trivial: reference outside the workspace or through a link."""
import os, sys, json, itertools, copy
from ws import *
from causy import serialization as ser
from causy.models import AlgorithmReferenceType as T
from causy.graph_model import graph_model_factory
RULE = __doc__
OPENED = []
ON = [False]


def _hook(ev, args):
    if ON[0] and ev == "open" and isinstance(args[0], (str, bytes)):
        OPENED.append(os.path.realpath(os.fsdecode(args[0])))


_h = []
SPEC = {"name": "t", "pipeline_steps": [{"name": "causy.common_pipeline_steps.calculation.CalculatePearsonCorrelations"}], "edge_types": [], "extensions": [], "variables": []}

TREE = ["ws/a.json", "ws/sub/b.json", "ws/sub/deep/c.json", "ws2/a.json", "ws_x/a.json", "out/o.json", "top.json", "w/a.json", "ws/..odd.json", "ws/sub/a.yml", "out/sub/b.json"]
LINKS = {"ws/l_out.json": "../out/o.json", "ws/l_in.json": "a.json", "ws/ldir": "../out", "ws/lsub": "sub", "out/back": "../ws", "ws/sub/up": "../..", "ws/chain": "l_out.json", "lws": "ws"}
REFS = ["a.json", "./a.json", "sub/b.json", "sub/../a.json", "../ws/a.json", "../ws2/a.json", "../ws_x/a.json", "../out/o.json", "../top.json", "sub/deep/../../../top.json", "sub/deep/c.json",
        "l_out.json", "l_in.json", "ldir/o.json", "lsub/b.json", "ldir/back/a.json", "sub/up/ws/a.json", "sub/up/top.json", "sub/up/ws2/a.json", "chain", "..odd.json", "../w/a.json", "ldir/sub/b.json",
        "ldir/../top.json", "ldir/../a.json", "sub/a.yml", "nothere.json", "../nothere.json", "../lws/a.json", "lsub/../a.json", "lsub/../../top.json", "../ws/../out/o.json"]


def cases(rng, tier):
    for r in REFS:
        for absolute in (False, True):
            for cwd in ("ws", "lws", "ws/sub", "out/back", "ws/lsub", "out"):
                yield {"mode": "file", "ref": r, "abs": absolute, "cwd": cwd}
    for i in range(2500 if tier == "quick" else 20000):
        parts = [rng.choice(["..", ".", "sub", "ws", "ws2", "out", "ldir", "lsub", "deep", "up", "back", "lws", "ws_x"]) for _ in range(rng.randint(0, 5) if i % 20 else rng.randint(8, 20))] + [rng.choice(["a.json", "b.json", "o.json", "top.json", "l_out.json", "c.json"])]
        yield {"mode": "file", "ref": "/".join(parts), "abs": rng.random() < .3, "cwd": rng.choice(["ws", "lws", "ws/sub", "out/back", "ws/sub/deep", "out"])}
    for k in ("name", "python_module"):
        for how in ("resolve", "attr", "vars", "steps"):
            for who in range(4):
                yield {"mode": "copy", "kind": k, "how": how, "who": who}


def nontrivial(inp):
    return inp["mode"] == "copy" or ".." in inp["ref"] or "l" in inp["ref"]


def check(inp):
    return check_file(inp) if inp["mode"] == "file" else check_copy(inp)


def check_file(inp):
    if not _h:
        sys.addaudithook(_hook)
        _h.append(1)
    with scratch() as ws:
        base = os.path.dirname(ws)
        for t in TREE:
            p = os.path.join(base, t)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(json.dumps({**SPEC, "name": t}))
        for l, t in LINKS.items():
            os.symlink(t, os.path.join(base, l))
        os.chdir(os.path.join(base, inp["cwd"]))
        cwd = os.getcwd()
        # the reference as it would be written: absolute ones start at the (resolved or linked) directory
        ref = inp["ref"]
        if inp["abs"]:
            ref = os.path.join(base, inp["cwd"], ref)
        real = os.path.realpath(ref)
        inside = real == os.path.realpath(cwd) or real.startswith(os.path.realpath(cwd) + os.sep)
        del OPENED[:]
        ON[0] = True
        err = alg = None
        try:
            alg = ser.load_algorithm_by_reference(T.FILE, ref)
        except Exception as e:
            err = e
        finally:
            ON[0] = False
        bad = [p for p in OPENED if p.startswith(base + os.sep) and not p.startswith(os.path.realpath(cwd) + os.sep)]
        if bad:
            return f"reference {inp['ref']!r} from {inp['cwd']} opens {os.path.relpath(bad[0], base)}, outside the working directory"
        if not inside:
            if alg is not None:
                return f"reference {inp['ref']!r} from {inp['cwd']} is loaded although it lies outside"
            return None
        if os.path.isfile(real):
            if err is not None:
                return f"reference {inp['ref']!r} from {inp['cwd']} lies inside but is refused: {type(err).__name__}: {err}"
            want = os.path.relpath(real, base)
            if alg.name != want:
                return f"reference {inp['ref']!r} loaded {alg.name} instead of {want}"
    return None


def check_copy(inp):
    from causy.causal_discovery import AVAILABLE_ALGORITHMS
    names = sorted(k for k in AVAILABLE_ALGORITHMS if k != "ParallelPC")
    if inp["kind"] == "name":
        ref = names[inp["who"] % len(names)]
    else:
        ref = "causy.causal_discovery.constraint.algorithms.pc." + ["PC", "PCClassic", "PCStable", "PC"][inp["who"]]
        mod, a = ref.rsplit(".", 1)
        import importlib
        if not hasattr(importlib.import_module(mod), a):
            ref = mod + ".PC"
    k = T.NAME if inp["kind"] == "name" else T.PYTHON_MODULE
    dump = lambda a: json.dumps(a.model_dump(), sort_keys=True, default=str)
    a1 = ser.load_algorithm_by_reference(k, ref)
    d0 = dump(a1)
    if inp["how"] == "resolve":
        vs = {v.name: (0.77 if isinstance(v.value, float) else v.value) for v in a1.variables or []}
        shown = lambda xs: [(type(x).__name__, getattr(x, "threshold", None)) for x in xs] + [y for x in xs for y in shown(getattr(x, "pipeline_steps", None) or [])]
        refs = [getattr(thr, "name", None) for t, thr in shown(a1.pipeline_steps)]
        m = graph_model_factory(a1, vs or None)()
        # the model runs with the values given, not with those of the algorithm as shipped
        for (t, thr), r in zip(shown(m.algorithm.pipeline_steps), refs):
            if r in vs and thr != vs[r]:
                return f"a model made of the loaded {ref} with threshold .77 runs {t} with {thr}"
    elif inp["how"] == "attr":
        for s in a1.pipeline_steps:
            s.display_name = "changed"
            if getattr(s, "generator", None) is not None:
                s.generator.chunked = "changed"
            for q in getattr(s, "pipeline_steps", None) or []:
                q.display_name = "changed"
    elif inp["how"] == "vars":
        for v in a1.variables or []:
            v.value = 0.123
        a1.name = "other"
    else:
        del a1.pipeline_steps[0]
    a2 = ser.load_algorithm_by_reference(k, ref)
    if a2 is a1:
        return f"loading {ref} twice returns the same object"
    if dump(a2) != d0:
        return f"loading {ref} ({inp['kind']}) again gives another algorithm after the first copy was used ({inp['how']})"
    return None
