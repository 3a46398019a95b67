"""Every option of every step, logic step and generator class with ordinary, false, zero, empty and referenced values (one at a time and random subsets) must be visible afterwards and options not given keep their default; random algorithms built from them are saved to JSON, loaded again (from memory and from JSON and YAML files in a scratch directory) and compared with the original by an independent walk, and saving the loaded one gives the same JSON; non-trivial: at least one option given."""
import itertools, json, os, tempfile, copy, shutil
from util import *
import p15
from p15 import walk, KIND, VALS, ref
from causy.variables import *
from causy.models import Algorithm, ComparisonSettings
from causy.interfaces import PipelineStepInterface, GeneratorInterface, ExitConditionInterface
from causy.generators import AllCombinationsGenerator, PairsWithNeighboursGenerator, RandomSampleGenerator, PairsWithEdgesInBetweenGenerator
from causy.common_pipeline_steps.logic import Loop, ApplyActionsTogether
from causy.common_pipeline_steps.exit_conditions import ExitOnNoActions
from causy.common_pipeline_steps.calculation import CalculatePearsonCorrelations
from causy.causal_discovery.constraint.orientation_rules import pc, fci
from causy.causal_discovery.constraint.independence_tests import common as it
from causy.causal_effect_estimation.multivariate_regression import ComputeDirectEffectsInDAGsMultivariateRegression
from causy.graph_model import graph_model_factory
from causy import serialization as ser
from causy.contrib.graph_ui import GraphUIExtension, EdgeTypeConfig, EdgeUIConfig, ConditionalEdgeUIConfig
from causy.causal_discovery.constraint.algorithms.fci import InducingPathExtension
RULE = __doc__
STEPS = {"Pearson": CalculatePearsonCorrelations, "Corr": it.CorrelationCoefficientTest, "Part": it.PartialCorrelationTest, "Mat": it.ExtendedPartialCorrelationTestMatrix,
         "Col": pc.ColliderTest, "Non": pc.NonColliderTest, "R2": pc.FurtherOrientTripleTest, "R3": pc.OrientQuadrupleTest, "R4": pc.FurtherOrientQuadrupleTest,
         "FCI": fci.ColliderRuleFCI, "Eff": ComputeDirectEffectsInDAGsMultivariateRegression}
GENS = {"All": AllCombinationsGenerator, "Nb": PairsWithNeighboursGenerator, "Ed": PairsWithEdgesInBetweenGenerator, "Rand": RandomSampleGenerator}
SOPT = {"threshold": [0.0, .05, 1.0, "REF"], "chunk_size_parallel_processing": [0, 1, 7, "REF"], "parallel": [False, True, "REF"], "apply_synchronous": [False, True, "REF"],
        "display_name": ["", "n", "REF"], "needs_unapplied_actions": [False, True, "REF"]}
GOPT = {"chunked": [False, True, "REF"], "every_nth": [0, 3, "REF"], "shuffle_combinations": [False, True, "REF"]}


def opts(cls):
    o = dict(SOPT)
    if cls == "Col":
        o["conflict_resolution_strategy"] = ["KEEP_FIRST", "KEEP_LAST"]
    return o


def gopts(g):
    if g == "Ed":
        return {**GOPT, "chunk_size": [0, 1, 7, "REF"]}
    if g == "Rand":
        return {**GOPT, "every_nth": [0, 1, 50, "REF"]}
    return GOPT


BUILTIN = ["PC"]


def mk_ext(e):
    if e == "path":
        return InducingPathExtension()
    return GraphUIExtension(edges=[EdgeTypeConfig(edge_type="DIRECTED", default_ui_config=EdgeUIConfig(color="#333", width=0, animated=True), conditional_ui_configs=[
        ConditionalEdgeUIConfig(condition_field="direct_effect", condition_value=0.0, condition_comparison="LESS")]), EdgeTypeConfig(edge_type="UNDIRECTED")])


def builtin(name):
    from causy.causal_discovery import AVAILABLE_ALGORITHMS
    if name not in AVAILABLE_ALGORITHMS:
        return None
    alg = AVAILABLE_ALGORITHMS[name]()._original_algorithm
    d = json.loads(alg.model_dump_json())
    new = ser.load_algorithm_from_specification(copy.deepcopy(d))
    d1 = json.loads(new.model_dump_json())
    if d1 != d:
        return f"{name}: saving the loaded algorithm gives another JSON form: {[(a, b) for a, b in zip(walk(d), walk(d1)) if a != b][:1]}"
    for f in ("pipeline_steps", "edge_types", "extensions", "variables"):
        if [type(x) for x in getattr(alg, f) or []] != [type(x) for x in getattr(new, f) or []]:
            return f"{name}: {f} are loaded as {[type(x).__name__ for x in getattr(new, f) or []]}"
    return None


def rand_gen(rng, d=2):
    k = rng.choice(list(GENS) if d else ["All", "Nb", "Ed"])
    g = {"g": k, "o": {o: rng.choice(v) for o, v in gopts(k).items() if rng.random() < .4}}
    if k in ("All", "Nb"):
        g["cs"] = rng.choice([[2, 2], [0, 3], [2, -1], [3, "REF"], [None, None]])
    if k == "Rand" or d and rng.random() < .2:
        g["sub"] = rand_gen(rng, d - 1)
    return g


class StopAfter(ExitConditionInterface):
    """an exit condition with an option of its own"""
    limit: int = 1
    def check(self, graph, graph_model_instance_, actions_taken, iteration):
        return iteration >= self.limit


def mk_exit(x):
    return StopAfter(limit=x) if type(x) is int else ExitOnNoActions() if x else None


def rand_step(rng, d):
    if d and rng.random() < .3:
        return {"k": rng.choice(["loop", "group"]), "steps": [rand_step(rng, d - 1) for _ in range(rng.randint(0, 3))], "exit": rng.choice([False, True, 0, 5]),
                "o": {"display_name": rng.choice(["x", "", "REF"])} if rng.random() < .5 else {}}
    c = rng.choice(list(STEPS))
    o = {k: rng.choice(v) for k, v in opts(c).items() if rng.random() < .3}
    if o.get("parallel") is True:
        o["parallel"] = False
    return {"k": c, "o": o, "gen": rand_gen(rng) if rng.random() < .5 else None}


def cases(rng, tier):
    for c in STEPS:
        yield {"mode": "opt", "step": {"k": c, "o": {}, "gen": None}}
        for o, vs in opts(c).items():
            for v in vs:
                yield {"mode": "opt", "step": {"k": c, "o": {o: v}, "gen": None}}
    for g in GENS:
        for o, vs in gopts(g).items():
            for v in vs:
                gg = {"g": g, "o": {o: v}}
                if g == "Rand":
                    gg["sub"] = {"g": "All", "o": {}, "cs": [2, 2]}
                yield {"mode": "gen", "gen": gg}
        gg = {"g": g, "o": {}}
        if g == "Rand":
            gg["sub"] = {"g": "All", "o": {}, "cs": [0, 0]}
        else:
            gg["cs"] = [0, 1]
            yield {"mode": "gen", "gen": {"g": g, "o": {}, "sub": {"g": "All", "o": {"chunked": True}, "cs": [0, 3]}}}
        yield {"mode": "gen", "gen": gg}
    for i in range(200):
        yield {"mode": "gen", "gen": rand_gen(rng)}
    for i in range(6000 if tier == "quick" else 40000):
        decl = [["v", rng.choice("sifb")], ["w", rng.choice("sifb")]][:rng.randint(1, 2)]
        yield {"mode": "alg", "steps": [rand_step(rng, 2 if i % 70 else 4) for _ in range(rng.randint(1, 4) if i % 60 else rng.choice([11, 25]))],
               "decl": [[n, k, rng.choice(VALS[k]), rng.choice([None, VALS[k]])] for n, k in decl], "et": rng.sample("DUB", rng.randint(0, 3)),
               "file": rng.choice([None, None, "json", "yaml"]), "ext": rng.sample(["ui", "path"], rng.choice([0, 0, 0, 1, 2])),
               "omit": {k: rng.choice(["drop", "none"]) for k in ("edge_types", "extensions", "variables") if rng.random() < .05}}
    for name in BUILTIN:
        yield {"mode": "builtin", "name": name}


def nontrivial(inp):
    return inp["mode"] != "opt" or bool(inp["step"]["o"])


def val(v):
    return ref("v") if v == "REF" else v


def mk_gen(g):
    kw = {k: val(v) for k, v in g["o"].items()}
    if "sub" in g:
        kw["generator"] = mk_gen(g["sub"])
    if g.get("cs") is not None:
        a, b = g["cs"]
        kw["comparison_settings"] = ComparisonSettings(**{k: val(x) for k, x in (("min", a), ("max", b)) if x is not None})
    return GENS[g["g"]](**kw)


def mk(s):
    if s["k"] in ("loop", "group"):
        return (Loop if s["k"] == "loop" else ApplyActionsTogether)(pipeline_steps=[mk(c) for c in s["steps"]], exit_condition=mk_exit(s["exit"]), **{k: val(v) for k, v in s["o"].items()})
    kw = {k: val(v) for k, v in s["o"].items()}
    if s["gen"]:
        kw["generator"] = mk_gen(s["gen"])
    return STEPS[s["k"]](**kw)


def same(a, b):
    if isinstance(b, VariableReference):
        return isinstance(a, VariableReference) and a.name == b.name
    return a == b and type(a) in (type(b),) or (isinstance(b, str) and isinstance(a, str) and a == b)


def see_gen(obj, g, where):
    if type(obj) is not GENS[g["g"]]:
        return f"{where}: is a {type(obj).__name__}, expected {g['g']}"
    for o, v in g["o"].items():
        if not same(getattr(obj, o), val(v)):
            return f"{where}: option {o}={v!r} has no effect, it is {getattr(obj, o)!r}"
    for o, f in type(obj).model_fields.items():
        if o not in g["o"] and o not in ("generator", "comparison_settings") and getattr(obj, o) != f.default:
            return f"{where}: option {o} was not given but is {getattr(obj, o)!r} instead of the default {f.default!r}"
    if g.get("cs") is not None:
        for k, x in zip(("min", "max"), g["cs"]):
            w = val(x) if x is not None else ComparisonSettings.model_fields[k].default
            if not same(getattr(obj.comparison_settings, k), w):
                return f"{where}: comparison setting {k}={x!r} has no effect, it is {getattr(obj.comparison_settings, k)!r}"
    if "sub" in g:
        return see_gen(obj.generator, g["sub"], where + ".generator")
    return None


def see(obj, s, where):
    if s["k"] in ("loop", "group"):
        if type(obj).__name__.split("[")[0] != ("Loop" if s["k"] == "loop" else "ApplyActionsTogether"):
            return f"{where}: is a {type(obj).__name__}"
        if len(obj.pipeline_steps) != len(s["steps"]):
            return f"{where}: has {len(obj.pipeline_steps)} steps, expected {len(s['steps'])}"
        w = mk_exit(s["exit"])
        if type(obj.exit_condition) is not type(w) or isinstance(w, StopAfter) and obj.exit_condition.limit != w.limit:
            return f"{where}: exit condition is {obj.exit_condition!r}"
        for o, v in s["o"].items():
            if not same(getattr(obj, o), val(v)):
                return f"{where}: option {o}={v!r} is {getattr(obj, o)!r}"
        for i, c in enumerate(s["steps"]):
            e = see(obj.pipeline_steps[i], c, f"{where}.{i}")
            if e:
                return e
        return None
    cls = STEPS[s["k"]]
    if type(obj) is not cls:
        return f"{where}: is a {type(obj).__name__}, expected {cls.__name__}"
    for o, v in s["o"].items():
        if not same(getattr(obj, o), val(v)):
            return f"{where} ({s['k']}): option {o}={v!r} has no effect, it is {getattr(obj, o)!r}"
    for o, f in cls.model_fields.items():
        if o not in s["o"] and not (o == "generator" and s["gen"]) and getattr(obj, o) != f.default:
            return f"{where} ({s['k']}): option {o} was not given but is {getattr(obj, o)!r} instead of the default {f.default!r}"
    if s["gen"]:
        return see_gen(obj.generator, s["gen"], where + ".generator")
    return None


def check(inp):
    try:
        if inp["mode"] == "gen":
            return see_gen(mk_gen(inp["gen"]), inp["gen"], "generator")
        if inp["mode"] == "builtin":
            return builtin(inp["name"])
        if inp["mode"] == "opt":
            return see(mk(inp["step"]), inp["step"], "step")
        steps = [mk(s) for s in inp["steps"]]
    except Exception as e:
        return f"creating a step failed: {type(e).__name__}: {e}"
    for i, s in enumerate(inp["steps"]):
        e = see(steps[i], s, f"step {i}")
        if e:
            return e
    decl = [KIND[k](name=n, value=v, choices=ch) for n, k, v, ch in inp["decl"]]
    om = inp.get("omit", {})
    et, ext = [] if "edge_types" in om else list(inp["et"]), [] if "extensions" in om else inp.get("ext", [])
    if "variables" in om:
        decl = []
    alg = Algorithm(name="t", pipeline_steps=steps, edge_types=[etype(t) for t in et], extensions=[mk_ext(e) for e in ext], variables=decl)
    d0 = json.dumps(alg.model_dump(), sort_keys=True)
    dj = json.dumps(json.loads(alg.model_dump_json()), sort_keys=True)
    if dj != d0:
        return f"the two JSON forms of the algorithm differ: {[(a, b) for a, b in zip(walk(json.loads(d0)), walk(json.loads(dj))) if a != b][:1]}"
    tmp = None
    spec = json.loads(d0)
    for k, how in om.items():
        if how == "drop":
            del spec[k]
        else:
            spec[k] = None
    try:
        if inp["file"]:
            import yaml
            tmp = tempfile.mkdtemp(prefix="p16-")
            old = os.getcwd()
            os.chdir(tmp)
            try:
                with open("a." + inp["file"], "w") as f:
                    f.write(json.dumps(spec) if inp["file"] == "json" else yaml.dump(spec))
                new = ser.load_algorithm_by_reference("file", "a." + inp["file"])
            finally:
                os.chdir(old)
        else:
            new = ser.load_algorithm_from_specification(spec)
    except Exception as e:
        return f"the saved algorithm cannot be loaded: {type(e).__name__}: {e}"
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
    if len(new.pipeline_steps) != len(steps):
        return f"loaded {len(new.pipeline_steps)} of {len(steps)} steps"
    for i, s in enumerate(inp["steps"]):
        e = see(new.pipeline_steps[i], s, f"loaded step {i}")
        if e:
            return e
    if [type(x) for x in new.extensions or []] != [type(x) for x in alg.extensions]:
        return f"extensions {ext} are loaded as {[type(x).__name__ for x in new.extensions or []]}"
    if [tname(t) for t in new.edge_types] != et:
        return f"edge types {et} are loaded as {[type(t).__name__ for t in new.edge_types]}"
    got = [(v.name, type(v), v.value, type(v.value), v.choices) for v in new.variables]
    want = [(n, KIND[k], v, type(v), ch) for n, k, v, ch in inp["decl"] if decl]
    if got != want:
        return f"variables {want} are loaded as {got}"
    if new.name != alg.name:
        return "the name of the algorithm changed"
    d1 = json.dumps(new.model_dump(), sort_keys=True)
    if d1 != d0:
        return "saving the loaded algorithm gives another JSON form"
    return None
