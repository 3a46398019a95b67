"""Which contracts (units) decide which property."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUSTED = ["z3 5.3.2 (cvc5 1.1.2 as second back end)", "CPython ast as parser of the source that runs",
           "vc/: the VC generator of this repository (its model of the Python subset; cross-checked against CPython by conc/)"]

GRAPH_TRUST = ["Edge(...)/Node(...) constructors store their arguments", "dict/list/set iteration visits each element once",
               "metadata dictionaries are treated as values (no aliasing)", "logging calls are dropped"]


def _g(*names):
    def f():
        from vc import gcontracts as gc, mutators as mu
        out = []
        for n in names:
            hit = [k for k in gc.QUERIES if k.split(".")[-1] == n]
            out.append(gc.query_unit(hit[0]) if hit else mu.mutator_unit(n))
        return out
    return f


EDITS = ["add_edge", "add_directed_edge", "remove_edge", "remove_directed_edge", "restore_edge", "restore_directed_edge",
         "update_edge", "update_directed_edge", "purge_soft_deleted_edges", "add_edge_history", "add_node"]
ADJ = ["directed_edge_is_soft_deleted", "edge_exists", "directed_edge_exists", "undirected_edge_exists", "only_directed_edge_exists",
       "edge_of_type_exists", "edge_value", "edge_type", "node_by_id", "parents_of_node", "get_siblings", "retrieve_edges", "get_edge"]

PROPS = {
    "P01": {"level": "proof", "units": [_g(*EDITS)], "trusted": GRAPH_TRUST, "filter": lambda u, o: "invariant" in o or "changes nothing" in o},
    "P02": {"level": "proof", "units": [_g(*EDITS)], "trusted": GRAPH_TRUST, "filter": lambda u, o: ": invariant:" not in o},
    "P03": {"level": "proof", "units": [_g(*ADJ)], "trusted": GRAPH_TRUST},
}



def _m(mod, f):
    def g():
        import importlib
        return getattr(importlib.import_module("vc." + mod), f)()
    return g


PROPS["P01"]["units"].append(_m("classes", "p01_units"))
PROPS["P03"]["units"].append(_m("classes", "p03_units"))
REACH = ["sets of reachable nodes and of simple paths are given by their inductive definitions; induction is applied through explicit instances (the path gets shorter, the visited set is the induction predicate)",
         "generators are consumed without changing the graph in between"]
_OWN = lambda u, o: "never raises" in o or "answer is exact" in o
PROPS["P04"] = {"level": "proof", "units": [_m("reach", "units"), _m("paths", "p04_units")], "trusted": GRAPH_TRUST, "assumptions": REACH, "filter": _OWN,
                "bounded": ["recursion depth of CPython (queries on graphs with more than about 900 nodes in a row)"]}
PROPS["P05"] = {"level": "proof", "units": [_m("paths", "p05_units"), _g("_is_collider"), _m("reach", "desc_units")], "trusted": GRAPH_TRUST, "assumptions": REACH, "filter": _OWN,
                "support": ["descendants_of_node", "all_paths_on_underlying_undirected_graph"]}
PROPS["P06"] = {"level": "proof", "units": [_m("paths", "p06_units"), _g("_is_collider", "_is_definite_noncollider"), _m("reach", "desc_units")], "trusted": GRAPH_TRUST, "assumptions": REACH, "filter": _OWN,
                "support": ["descendants_of_node", "all_paths_on_underlying_undirected_graph"]}
PROPS["P07"] = {"level": "proof", "units": [_m("take", "units"), _m("classes", "p07_units")], "trusted": GRAPH_TRUST,
                "assumptions": ["proposals name nodes of the graph", "pre graph update hooks answer a list of proposals; hooks do not edit the graph themselves",
                                "the effect of a list of results is the fold of the verified steps in list order (induction over the list)"]}
PROPS["P10"] = {"level": "proof", "units": [_m("rules", "p10_units")], "trusted": GRAPH_TRUST, "support": ["retrieve_edge_history"],
                "bounded": ["order of restores and removals within one proposal list, and the collider rule run as a whole step (executable contract)"],
                "assumptions": ["pending proposals are those of the collider rule itself (directed removals, conflict reports, restores under keep-last)"]}
PROPS["P11"] = {"level": "proof", "units": [_m("rules", "p11_units")], "trusted": GRAPH_TRUST,
                "bounded": ["adjacencies over a whole step or loop of the rules, and the CPDAG they lead to (executable contract on small graphs)"]}
TRACE = ["the effect of a step is the call graph_model.execute_pipeline_step (verified by P08), the effect of a list of results the call _take_action (verified by P07)",
         "the ghost trace of calls is the observable behaviour; clocks and durations are not part of it"]
PROPS["P08"] = {"level": "proof", "units": [_m("trace", "p08_units"), _m("classes", "p08_units")], "trusted": ["pydantic models store their fields", "logging calls are dropped",
                    "multiprocessing.Pool.imap_unordered calls the function once per task and returns each result once, in any order"],
                "assumptions": ["the effect of a list of results is the call _take_action (verified by P07), purging that of purge_soft_deleted_edges (P01, P02)",
                                "the combinations of a generator are a finite sequence (P09); in chunked mode it is consumed while the graph changes, as documented",
                                "the call of a step returns and does not change the graph (its decision is any value)",
                                "parallel mode: which intermediate graph a worker sees is not specified"],
                "bounded": ["real generators, graphs and history contents (executable contract)"]}
PROPS["P14"] = {"level": "proof", "units": [_m("trace", "p14_units")], "trusted": ["pydantic models store their fields", "logging calls are dropped"],
                "assumptions": TRACE + ["a user supplied exit condition is any function of its four arguments"],
                "bounded": ["that a loop with ExitOnNoActions ends on real pipelines (executable contract on small graphs)"]}
PROPS["P15"] = {"level": "proof", "units": [_m("vars", "p15_units")],
                "trusted": ["pydantic stores the fields of variables, references and steps (and coerces the declared value to the annotated type)", "logging calls are dropped"],
                "assumptions": ["the variables of an algorithm have distinct names", "the steps of a logic step are a list", "deepcopy returns an equal copy",
                                "the mixin classes added to Graph by graph_model_factory are dropped by the extraction"],
                "bounded": ["reading variables and references back from files, workspace files with experiment variables (executable contract)"]}
FS = ["open(), os.listdir (each name once), os.remove and the json/yaml parsers behave as documented", "logging calls are dropped"]
PROPS["P17"] = {"level": "proof", "units": [_m("files", "p17_units")],
                "trusted": FS + ["os.path.realpath resolves every symbolic link; for resolved paths os.path.commonpath([d, p]) == d exactly if p is d or lies below it", "copy.deepcopy returns an independent equal copy"],
                "assumptions": ["nobody moves the file between the check and open()"],
                "bounded": ["contents of algorithm files, the named algorithms themselves, references in workspace files (executable contract)"]}
PROPS["P18"] = {"level": "proof", "units": [_m("files", "p18_units")],
                "trusted": FS + ["int() of ASCII digits is their decimal value, str() of a natural number its digits without leading zeros"],
                "assumptions": ["result files are written by causy (no leading zeros in the version)", "the working directory does not change"],
                "bounded": ["experiment names with every kind of character, contents of results read back (executable contract)"]}
PROPS["P19"] = {"level": "proof", "units": [_m("wspace", "p19_units"), _m("hashes", "units")],
                "trusted": FS + ["the hash functions of hashlib have no collisions, json.dumps with sorted keys is injective on contents", "pydantic's model_dump of an algorithm holds all of its fields, nested ones included"],
                "assumptions": ["the progress generator of execute_pipeline_steps is consumed completely", "experiments refer to existing pipelines and data loaders", "the user interface (printing, progress bars) is dropped"],
                "bounded": ["what model_dump puts into the hash of an algorithm, whole executions on files (executable contract)"]}
PROPS["P22"] = {"level": "proof", "units": [_m("wspace", "p22_units")],
                "trusted": FS + ["reading and writing the workspace file round-trips (P16)", "int(), float() and str.lower as modelled"],
                "assumptions": ["names of pipelines, loaders and experiments are keys of dictionaries, hence distinct", "experiments are distinct objects and refer to existing pipelines"],
                "bounded": ["the commands run as a whole on workspace files, interactive commands (executable contract)"]}
PROPS["P09"] = {"level": "proof", "units": [_m("gens", "p09_units")], "trusted": GRAPH_TRUST + ["itertools.combinations(xs, r) yields each r-element subset of the distinct values xs once", "random.shuffle permutes, random.randint returns a number in its range"],
                "assumptions": ["minimum size at least 0 (all combinations) or 2 (neighbours), chunk size positive", "generators are consumed without changing the graph in between", "slicing a list into consecutive parts is described by positions"],
                "bounded": ["construction of generators from settings and definitions (executable contract)"]}
PROPS["P20"] = {"level": "proof", "units": [_m("load", "p20_units"), _m("hashes", "p20_units")],
                "trusted": ["open(), iteration over the lines of a file and the json parser behave as documented", "torch.tensor(values, dtype=torch.float64) holds exactly these numbers in order", "Node(...) stores its arguments", "logging calls are dropped"],
                "assumptions": ["every row has the columns of the first row, there is at least one row, and no column is called _dict (the marker of the JSON loader)",
                                "the start graph is the union of the effects of the add_edge calls (verified by P02)", "a loader hands over rows or one dictionary of columns (the two forms of JSONDataLoader.load and JSONLDataLoader.load)"],
                "bounded": ["dynamic loaders, the table of loader types, numbers of every kind through torch (executable contract)"]}
PROPS["P16"] = {"level": "proof", "units": [_m("opts", "p16_units")],
                "trusted": ["BaseModel.__init__ gives every field the value handed over or its default; model_dump writes every field and computed field of an object (fields declared as an interface: those of the interface, plus what the wrap serializer adds)",
                            "importlib.import_module and getattr return the class that serialize_module_name named (module and class name; class names have no dot)",
                            "TypeAdapter(Algorithm).validate_python keeps the objects it is given", "yaml and json read back what they wrote"],
                "assumptions": ["the saved form of a nested generator, comparison setting, exit condition or step is a dictionary, the object itself is not", "dictionaries have no __dict__",
                                "round trip: the dump of an object names its class and its options (trusted), the loader hands exactly these to the constructor, the constructor honours each of them (verified), so loading gives an equal object (induction over the nesting)"],
                "bounded": ["the dump of pydantic itself and the whole round trip through JSON and YAML files (executable contract)"]}
PROPS["P21"] = {"level": "proof", "units": [_m("sample", "p21_units")],
                "trusted": ["torch.tensor and its + and * are those of real vectors (no rounding)", "sorted and copy.deepcopy keep the elements of a list"],
                "assumptions": ["the source of noise is any function called once per value", "the graph is the union of the effects of the add_node and add_directed_edge calls (verified by P01, P02)",
                                "from the verified step of the sort: every round places one variable after all of its causes, so the finite list ends sorted, and where no variable can be placed every remaining one has a remaining cause, that is the edges have a cycle"],
                "bounded": ["real tensors and graphs (executable contract)"]}
STATS = ["numbers are real numbers (no rounding); log, square root, normal distribution function and t quantile are functions with log/atanh and symmetry identities",
         "torch: stack, cov, inverse (symmetric, positive diagonal), diag, mm with a diagonal factor, mean, std and lstsq compute what their names say", "logging calls are dropped"]
PROPS["P12"] = {"level": "proof", "units": [_m("stats", "p12_units")], "trusted": GRAPH_TRUST + STATS,
                "assumptions": ["the tests run on the undirected graph (every edge has both directions with equal values) whose edges carry their correlation (P13)", "the tested nodes are distinct nodes of the graph; at least one degree of freedom",
                                "no perfect (partial) correlation (for these see the known findings); correlations that round to 1.0000 count as perfect in the regression variant",
                                "the entries of the normalised inverse covariance matrix are the negative partial correlations; the regression variant correlates residuals (without intercept: known finding)"],
                "bounded": ["p-values of real data, perfect correlations (executable contract)"]}
PROPS["P13"] = {"level": "proof", "units": [_m("stats", "p13_units")], "trusted": GRAPH_TRUST + STATS,
                "assumptions": ["both variables have a positive standard deviation", "the pairs of the direct effects are the directed edges (P09), positions of a list without repetition are a bijection",
                                "a regression on centred columns has the coefficients of the regression with intercept"],
                "bounded": ["floating point values of real data (executable contract)"]}
PROPS["P23"] = {"level": "proof", "units": [_m("api", "p23_units")],
                "trusted": ["HTTPException(n) is answered by FastAPI with status n; routing hands the path parameters over unchanged", "ExtendedResult and ExtendedExperiment keep the fields they are given"],
                "assumptions": ["one result store, not changed while a request is answered"],
                "bounded": ["the routes, JSON encoding of answers, real files (executable contract over the application's test client)"]}
PROPS["P24"] = {"level": "proof", "units": [_m("series", "p24_units")],
                "trusted": ["torch tensors of one number and their + and * are real numbers (no rounding); torch.stack keeps the elements of a list in order"],
                "assumptions": ["edges have lags of at least one step and lead to the present", "vec(S) = (I - A (x) A)^-1 vec(Q) solves S = A S A^T + Q (linear algebra; kron, pinv, matmul, reshape are uninterpreted)", "the default initial distribution draws from the normal distribution with the standard deviation it is given", "the graph is the union of the effects of the add_node and add_directed_edge calls (verified by P01, P02)"],
                "bounded": ["the numeric value of the stationary deviations, real tensors and graphs (executable contract)"]}
PROPS["P25"] = {"level": "proof", "units": [_m("command", "p25_units")],
                "trusted": FS + ["rich prints the rows of a table as they are added", "pydantic validation keeps the fields of a stored result; nodes are equal if their fields are"],
                "assumptions": ["a stored result has one kind and direction of connection per pair (P01)", "the names of nodes identify them", "labels: text before the last underscore and number after it determine each other, _latest is no number", "loading versions and results: the contracts of P18", "of the positions of a finite list with a property there is a first one (well-ordering, given to the solver as an axiom)"],
                "bounded": ["the printed table on real files (executable contract)"]}
PROPS["P26"] = {"level": "proof", "units": [_m("command", "p26_units")],
                "trusted": FS + ["json.dumps writes what it is given", "pydantic: Result(...) keeps its arguments, model_dump writes every field, model_copy(update=...) changes only the named fields"],
                "assumptions": ["executing a pipeline on a model, loading data, building algorithms: the contracts of P08, P14, P15, P16, P20", "printing is dropped"],
                "bounded": ["contents of the files written, ejected algorithms loaded again and executed (executable contract)"]}
PROPS["P27"] = {"level": "proof", "units": [_m("create", "p27_units")],
                "trusted": FS + ["questionary and typer hand back what was answered, a choice is one of the offered ones", "jinja2 replaces {{x|tojson}} by x as a JSON text, which is a python text", "markdown's slugify (uninterpreted)", "reading YAML gives back what was written if both sides use the same YAML version; model_dump(mode='json') and validation keep the workspace"],
                "assumptions": ["the dialogue is answered (cancelled dialogues are only executed)", "the file written for a pipeline or data loader is not one of another entry", "loading algorithms and resolving variables: the contracts of P15, P16, P17"],
                "bounded": ["what was created loads and is what was chosen, workspaces written and read back (executable contract)"]}
BOUNDED = ("executable contract of the property evaluated on the real code over the stated enumeration and seeded random inputs (bounded, not proved); "
           "the functions under contract with discharged obligations are listed under functions_under_contract")
for _p in ["P%02d" % i for i in range(4, 23)]:
    PROPS.setdefault(_p, {"level": "other", "units": [], "explanation": BOUNDED, "note": "bounded stand-in: executable contract on the real code"})


# obligations about the shape of a proof (a correct rewrite of a loop may need another invariant)
AUX = ["(numeric)", "loop invariant", "loop body", "termination", "invariant holds when calling"]


def units(pid):
    out = []
    for f in PROPS[pid]["units"]:
        out += f()
    return out


def prover_of():
    """function -> property whose check discharges its contract"""
    out = {}
    for p in sorted(PROPS):
        for u in units(p):
            for k in u.keys:
                out.setdefault(k, p)
    return out


def counts(pid, unit, obligation):
    """does a refuted obligation mean that this property (and not only one it relies on) is broken?"""
    info = PROPS[pid]
    if unit in info.get("support", ()) or any(x in obligation for x in AUX):
        return False
    f = info.get("filter")
    return f(unit, obligation) if f else True


def known(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid]


NA = {}
