"""Random pipelines (steps, generators, generators in generators, loops in loops, groups, exit conditions) with references to declared and undeclared variables at every kind of place, random user values: resolution against an independent walk over the pipeline; every kind of value against every kind of variable with and without choices; non-trivial: at least one reference or one user value."""
import itertools, copy, enum
from typing import Optional, Generic
from util import *
from pydantic import BaseModel
import causy.variables as cv
from causy.variables import *
from causy.models import Algorithm, ComparisonSettings
from causy.interfaces import PipelineStepInterface, PipelineStepInterfaceType, ExitConditionInterface, GeneratorInterface
from causy.generators import AllCombinationsGenerator, PairsWithNeighboursGenerator, RandomSampleGenerator, PairsWithEdgesInBetweenGenerator
from causy.common_pipeline_steps.logic import Loop, ApplyActionsTogether
from causy.common_pipeline_steps.exit_conditions import ExitOnNoActions
from causy.graph_model import graph_model_factory
RULE = __doc__
KIND = {"s": StringVariable, "i": IntegerVariable, "f": FloatVariable, "b": BoolVariable}
VALS = {"s": ["a", "b", "", "1"], "i": [0, 1, 2, -5], "f": [0.0, 0.5, 1.0], "b": [True, False]}


class PStep(PipelineStepInterface[PipelineStepInterfaceType], Generic[PipelineStepInterfaceType]):
    parallel: BoolParameter = False
    extra: StringParameter = "e"

    def process(self, nodes, graph, unapplied_actions=None):
        return None


class PExit(ExitConditionInterface):
    limit: IntegerParameter = 3

    def check(self, graph, graph_model_instance_, actions_taken, iteration):
        return True


SLOTS = ["threshold", "chunk_size_parallel_processing", "parallel", "display_name", "apply_synchronous", "needs_unapplied_actions", "extra"]


def rand_node(rng, names, depth):
    r = rng.random()
    if depth > 0 and r < .35:
        return {"k": rng.choice(["loop", "group"]), "steps": [rand_node(rng, names, depth - 1) for _ in range(rng.randint(0, 3))],
                "refs": {s: rng.choice(names) for s in ["display_name"] if rng.random() < .4},
                "exit": rng.choice([None, "no", ["lim", rng.choice(names)] if rng.random() < .6 else ["lim", None]])}
    return {"k": "step", "refs": {s: rng.choice(names) for s in SLOTS if rng.random() < .2}, "gen": rand_gen(rng, names, 2)}


def rand_gen(rng, names, d):
    r = rng.random()
    if r < .15:
        return None
    g = {"g": rng.choice(["all", "nb", "edges"] + ["rand"] * (d > 0)), "cs": {s: rng.choice(names) for s in ("min", "max") if rng.random() < .3}, "refs": {}}
    for s in ("chunked", "every_nth", "shuffle_combinations"):
        if rng.random() < .15:
            g["refs"][s] = rng.choice(names)
    if g["g"] == "rand":
        g["sub"] = rand_gen(rng, names, d - 1) or {"g": "all", "cs": {}, "refs": {}}
    return g


def cases(rng, tier):
    for k, kv in itertools.product("sifb", repeat=2):
        for v in VALS[kv]:
            for ch in (None, [], VALS[k][:1], VALS[k]):
                yield {"mode": "val", "kind": k, "value": v, "choices": ch}
    for v in (None, [1], {"a": 1}):
        for k in "sifb":
            yield {"mode": "val", "kind": k, "value": v, "choices": None}
    for i in range(7000 if tier == "quick" else 60000):
        nv = rng.randint(0, 4) if i % 60 else rng.randint(10, 24)
        decl = [[f"v{j}", rng.choice("sifb")] for j in range(nv)]
        decl = [[n, k, rng.choice(VALS[k])] for n, k in decl]
        names = [d[0] for d in decl] or ["v0"]
        if rng.random() < .15:
            names = names + ["nope"]
        user = {d[0]: rng.choice(VALS[d[1]]) for d in decl if rng.random() < .5}
        if rng.random() < .1:
            user["other"] = 1
        yield {"mode": "pipe", "decl": decl, "user": user, "steps": [rand_node(rng, names, 2 if i % 45 else 4) for _ in range(rng.randint(1, 3) if i % 60 else 12)], "factory": rng.random() < .3}


def nontrivial(inp):
    return inp["mode"] == "val" or bool(inp["user"]) or "v0" in str(inp["steps"])


def ref(n):
    return VariableReference(name=n)


def mk_gen(g):
    if g is None:
        return None
    cs = ComparisonSettings(**{s: ref(n) for s, n in g["cs"].items()})
    kw = {s: ref(n) for s, n in g["refs"].items()}
    if g["g"] == "rand":
        return RandomSampleGenerator(generator=mk_gen(g["sub"]), **{k: v for k, v in kw.items() if k == "every_nth"})
    cls = {"all": AllCombinationsGenerator, "nb": PairsWithNeighboursGenerator, "edges": PairsWithEdgesInBetweenGenerator}[g["g"]]
    gen = cls(comparison_settings=cs)
    for k, v in kw.items():
        setattr(gen, k, v)
    return gen


def mk(n):
    if n["k"] == "step":
        kw = {s: ref(v) for s, v in n["refs"].items()}
        st = PStep(generator=mk_gen(n["gen"]))
        for k, v in kw.items():
            setattr(st, k, v)
        return st
    ex = n["exit"]
    ex = None if ex is None else ExitOnNoActions() if ex == "no" else PExit() if ex[1] is None else PExit(limit=ref(ex[1]))
    st = (Loop if n["k"] == "loop" else ApplyActionsTogether)(pipeline_steps=[mk(c) for c in n["steps"]], exit_condition=ex)
    for k, v in n["refs"].items():
        setattr(st, k, ref(v))
    return st


def walk(o, path=()):
    if isinstance(o, VariableReference):
        yield path, ("ref", o.name)
    elif isinstance(o, enum.Enum) or o is None or isinstance(o, (str, int, float, bool)):
        yield path, (type(o).__name__, o)
    elif isinstance(o, (list, tuple)):
        yield path, ("list", len(o))
        for i, x in enumerate(o):
            yield from walk(x, path + (i,))
    elif isinstance(o, dict):
        for k in o:
            yield from walk(o[k], path + (k,))
    elif isinstance(o, BaseModel):
        yield path, ("obj", type(o).__name__)
        for k, v in o.__dict__.items():
            yield from walk(v, path + (k,))
    else:
        yield path, ("other", type(o).__name__)


def check(inp):
    if inp["mode"] == "val":
        return check_val(inp)
    try:
        steps = [mk(n) for n in inp["steps"]]
    except Exception as e:
        raise Skip(f"cannot build the pipeline: {type(e).__name__}: {e}")
    decl = [KIND[k](name=n, value=v) for n, k, v in inp["decl"]]
    before = dict(walk(steps))
    alg = Algorithm(name="t", pipeline_steps=[], edge_types=[], extensions=[], variables=decl)
    want = {n: inp["user"].get(n, v) for n, k, v in inp["decl"]}
    unknown_user = set(inp["user"]) - set(want)
    try:
        cv.validate_variable_values(alg, inp["user"])
        if unknown_user:
            return f"a value for the undeclared variable {unknown_user} is accepted"
    except ValueError:
        if not unknown_user:
            return f"valid values {inp['user']} are rejected"
    got = cv.resolve_variables(decl, inp["user"])
    if {k: got.get(k) for k in want} != want or any(type(got[k]) is not type(want[k]) for k in want) or set(got) - set(want):
        return f"variables resolve to {got}, expected {want}"
    refs = {p: v[1] for p, v in before.items() if v[0] == "ref"}
    bad = [n for n in refs.values() if n not in want]
    after = None
    try:
        if inp["factory"]:
            a2 = alg.model_copy(update={"pipeline_steps": steps, "variables": decl})
            cls = graph_model_factory(a2, variables=(want if inp["user"] else None))
            m = cls()
            out = m.pipeline_steps
            m.pool = None
        else:
            out = cv.resolve_variables_to_algorithm_for_pipeline_steps(steps, got)
    except ValueError as e:
        if not bad:
            return f"resolving failed although every reference is declared: {e}"
        return None
    except Exception as e:
        return f"resolving failed: {type(e).__name__}: {e}"
    if bad:
        return f"the reference to the unknown variable {bad[0]} is not reported"
    after = dict(walk(out))
    for p, v in before.items():
        w = (type(want[v[1]]).__name__, want[v[1]]) if v[0] == "ref" else v
        if p not in after:
            return f"{p} is gone after resolving the variables"
        if after[p] != w:
            return f"{p}: is {after[p]} after resolving, expected {w}"
    if set(after) - set(before):
        return f"unexpected values {sorted(map(str, set(after) - set(before)))[:3]} after resolving"
    return None


def check_val(inp):
    k, v, ch = inp["kind"], inp["value"], inp["choices"]
    base = VALS[k][0]
    try:
        var = KIND[k](name="x", value=base, choices=ch)
    except Exception as e:
        raise Skip(f"cannot declare the variable: {e}")
    ok = type(v) is {"s": str, "i": int, "f": float, "b": bool}[k] and (not ch or v in ch)
    alg = Algorithm(name="t", pipeline_steps=[], edge_types=[], extensions=[], variables=[var])
    acc = True
    try:
        cv.validate_variable_values(alg, {"x": v})
    except ValueError:
        acc = False
    except Exception as e:
        return f"validating {v!r} for a {KIND[k].__name__} failed: {type(e).__name__}"
    if acc != ok:
        return f"{v!r} is {'accepted' if acc else 'rejected'} for a {KIND[k].__name__} with choices {ch}"
    if bool(var.is_valid_value(v)) != ok:
        return f"is_valid_value({v!r}) is {not ok} for a {KIND[k].__name__} with choices {ch}"
    if ch and base in ch:
        bad = next((b for b in VALS[k] if b not in ch), None)
        if bad is not None:
            try:
                KIND[k](name="x", value=bad, choices=ch)
                return f"a {KIND[k].__name__} with default {bad!r} outside its choices {ch} is accepted"
            except ValueError:
                pass
    return None
