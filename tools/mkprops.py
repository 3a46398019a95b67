"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state="", observe=""):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": state, "meaning": state, "where": files[0]}]
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
G = "causy/graph.py"; ET = "causy/edge_types.py"; GM = "causy/graph_model.py"
RP = "causy/causal_discovery/constraint/orientation_rules/pc.py"; RF = "causy/causal_discovery/constraint/orientation_rules/fci.py"
IT = "causy/causal_discovery/constraint/independence_tests/common.py"; GEN = "causy/generators.py"
W = "causy/workspaces/cli.py"; V = "causy/variables.py"; S = "causy/serialization.py"; DL = "causy/data_loader.py"
LG = "causy/common_pipeline_steps/logic.py"; SG = "causy/sample_generator.py"; IF = "causy/interfaces.py"; GU = "causy/graph_utils.py"

prop("P01", "Graph indexes stay coherent under every sequence of graph edits",
 "After any sequence of graph edits (adding nodes and edges, removing, soft-deleting, restoring, updating and purging edges), the outgoing and the incoming view of the graph list exactly the same edges, every edge joins two distinct existing nodes and knows its own endpoints, and no two node pairs share one edge record. An edit that is rejected leaves the graph as it was.",
 ["histories", "inputs"], "every sequence of public graph edits on every graph, with every node pair and edge type",
 "Existing tests run a few fixed edit sequences on 2-4 nodes and look at single edges; coherence must hold after every history.",
 [G], [("edge mutators of the graph manager", G + ": GraphManager.add_edge, add_directed_edge, remove_edge, remove_directed_edge, restore_edge, restore_directed_edge, update_edge, update_directed_edge, purge_soft_deleted_edges, add_node")],
 "forward, reverse and removed-edge maps", "public edit and query functions of the graph")
prop("P02", "Each graph edit changes exactly the edge it names, as documented",
 "Adding, removing, soft-deleting, restoring or updating an edge has exactly the documented effect on the named node pair (a directed edit touches only that direction, an undirected edit both), and every other edge, node, edge type, edge value and edge history entry of the graph is unchanged. Restoring a removed or soft-deleted edge brings back the directions, type and value it had; edits naming unknown nodes, self loops, or updates of missing edges are rejected.",
 ["inputs", "histories"], "every reachable graph, every node pair, every edge type and value",
 "Tests look at the touched edge only; that nothing else changed, for every graph, is a frame condition no sample settles.",
 [G], [("edit operations", G + ": GraphManager.*edge*, purge_soft_deleted_edges, add_node, add_edge_history")],
 "edge maps and edge records", "public edit and query functions of the graph")
prop("P03", "Adjacency queries answer exactly, whatever was soft-deleted",
 "Every adjacency query (any edge, directed edge, undirected edge, one-way edge, edge of a given type, edge value and type, parents, siblings, list of all edges) answers exactly from the edges that are currently present: soft-deleted edges and unknown nodes are never reported, nothing present is missed, and asking by node or by node id gives the same answer.",
 ["inputs", "histories"], "every reachable graph including soft-deleted edges, every pair of nodes or ids including unknown ids",
 "Tests query a handful of edges right after creating them; the answer must be exact in every reachable graph state.",
 [G, ET], [("query mixin", G + ": GraphBaseAccessMixin queries"), ("directed edge mixin", ET + ": DirectedEdge.GraphAccessMixin.only_directed_edge_exists")],
 "", "query functions of graph and graph manager")
prop("P04", "Reachability queries are exact and terminate on every graph",
 "The descendants of a node are exactly the node itself and the nodes reachable from it over one-way edges; a directed path is reported between two nodes exactly if one exists over present edges, and the listing of directed paths contains each directed path without repeated nodes exactly once and nothing else. All of this holds on every graph, including graphs with cycles, undirected edges, soft-deleted edges and isolated nodes, and the queries always terminate.",
 ["inputs"], "every graph, every pair of nodes",
 "Tests use small trees and chains; cycles, diamonds and soft-deleted edges are inputs they do not reach.",
 [G, ET], [("depth first searches", G + ": descendants_of_node, directed_path_exists, all_paths_on_underlying_undirected_graph; " + ET + ": directed_paths")])
prop("P05", "d-separation in DAGs agrees with the graphical definition",
 "For every DAG, two distinct nodes are reported d-separated given a set of other nodes exactly if every path between them contains a collider such that neither it nor any of its descendants is in the set, or a non-collider that is in the set. The conditioning set may be given as nodes or node ids in any order, and a conditioning set containing one of the two nodes is rejected.",
 ["inputs"], "every DAG, every pair of nodes, every conditioning set",
 "Tests check about a dozen hand-drawn graphs; paths with several colliders and conditioned descendants are unbounded.",
 [G], [("path blocking", G + ": are_nodes_d_separated_dag, _is_a_collider_blocking, _is_a_non_collider_in_conditioning_set, _is_collider, descendants_of_node, all_paths_on_underlying_undirected_graph")])
prop("P06", "d-separation in CPDAGs is decided by the definite-status paths",
 "For every partially directed graph, two distinct nodes are reported d-separated given a set of other nodes exactly if they are not adjacent and every path between them that is of definite status (each inner node is a collider, or has an outgoing directed edge on the path, or is an unshielded non-collider) is blocked by a definite non-collider in the set or by a collider that has neither itself nor a descendant in the set. Paths that are not of definite status have no influence, and a conditioning set containing one of the two nodes is rejected.",
 ["inputs"], "every partially directed graph, every pair of nodes, every conditioning set",
 "Tests check a few hand-drawn graphs only.",
 [G], [("definite status paths", G + ": are_nodes_d_separated_cpdag, _is_path_of_definite_status, _is_definite_noncollider, _is_definite_noncollider_in_conditioning_set, _is_a_collider_blocking")])
prop("P07", "Proposed actions are applied faithfully, recorded, or skipped",
 "Applying proposed results to a graph performs each action that is applicable at that moment with exactly its documented effect, in the order proposed, records it in the history of the affected direction(s) and reports it as taken; an action that is not applicable and an explicit do-nothing change nothing and are not reported as taken. Every proposal is reported as proposed, and a dry run reports everything but leaves the graph and its histories unchanged.",
 ["inputs", "histories"], "every list of proposed actions of every kind, on every reachable graph",
 "Tests apply single actions; sequences of interacting, conflicting and inapplicable actions are unbounded.",
 [GM, G], [("action application", GM + ": AbstractGraphModel._take_action, _execute_hook, _execute_pre_graph_update_hooks, _execute_post_graph_update_hooks")],
 "graph, edge history, lists of taken and proposed actions")
prop("P08", "A pipeline step examines every generated combination exactly once",
 "Executing a pipeline step calls it exactly once for every node combination its generator produced, with the graph as it was when documented (all decisions before any change, or each decision applied before the next one when the step is synchronous), and hands every result to action application exactly once and in order; with changes switched off the graph is not modified. Running a whole pipeline executes every step once, in order, appends one history entry per step with the actions it took, and leaves no soft-deleted edge behind.",
 ["configurations", "inputs", "schedules"], "every generator (chunked or not), synchronous or not, with or without application, every pipeline",
 "Tests run a few fixed pipelines and look at the final graph; lost or doubled evaluations in one of the modes stay invisible.",
 [GM], [("step execution", GM + ": AbstractGraphModel.execute_pipeline_step, execute_pipeline_step_with_progress, execute_pipeline_steps, _format_yield"), ("call convention", GU + ": unpack_run; " + IF + ": PipelineStepInterface.__call__")])
prop("P09", "Generators produce exactly the node combinations they promise",
 "The all-combinations generator yields every set of nodes whose size lies between the configured minimum and maximum exactly once; the edge-pair generator yields every present directed edge exactly once, chunked or not; the neighbour generator yields, for every present edge and every size, each choice of further neighbours of the first node (nodes joined to it in both directions) exactly once and never a soft-deleted edge. The sampling generator only yields combinations of the generator it wraps, each at most once.",
 ["inputs", "configurations"], "every graph, every minimum and maximum size, chunked, shuffled or plain",
 "Tests count combinations for one or two graphs.",
 [GEN], [("generators", GEN + ": AllCombinationsGenerator.generate, PairsWithEdgesInBetweenGenerator.generate, PairsWithNeighboursGenerator.generate, RandomSampleGenerator.generate")])
prop("P10", "Collider rule orients exactly the unshielded non-separating triples",
 "For two nodes without any edge between them, the collider rule proposes to orient both edges into a common neighbour (one that edges of both nodes still lead into) exactly if that neighbour is in no recorded separating set of the two nodes, and proposes nothing else; adjacent nodes yield no proposal. If an earlier not yet applied proposal already orients one of these edges the other way, the configured strategy decides: keep-first only reports the conflict, keep-last restores the edges removed earlier and orients the new collider.",
 ["inputs", "histories"], "every graph, every pair of nodes, every recorded history of separating sets, every list of pending proposals, both strategies",
 "Tests cover a few graphs with at most one conflict.",
 [RP, RF], [("collider rules", RP + ": ColliderTest.process, filter_unapplied_actions, generate_restores; " + RF + ": ColliderRuleFCI.process")])
prop("P11", "Meek rules only make, and always find, warranted orientations",
 "Each of the four orientation rules proposes an orientation of an undirected edge only if the premise of the corresponding Meek rule holds for it in the current graph (no new collider, no directed cycle), never proposes to change an edge that is not undirected, so that the set of adjacent pairs never changes (unless the premises demand both directions of one edge), and each rule proposes at least one orientation for a pair of nodes whenever its premise holds for that pair and no candidate conflicts. A conflict that would create a new unshielded collider is reported instead of oriented.",
 ["inputs"], "every partially directed graph, every pair of nodes, every iteration order",
 "Tests check single hand-made graphs per rule, with one iteration order.",
 [RP], [("orientation rules", RP + ": NonColliderTest, FurtherOrientTripleTest, OrientQuadrupleTest, FurtherOrientQuadrupleTest (process)")])
prop("P12", "Independence tests decide by the p-value and record the separating set",
 "An independence test proposes to remove the edge between two nodes exactly if they are adjacent and the p-value of Fisher's z statistic (or the t statistic, for the regression variant) of their (partial) correlation, with the sample size and the number of conditioning variables taken into account, accepts independence at the configured threshold; the recorded separating set is exactly the conditioning set that was tested. In every other case no edge removal is proposed, and perfectly correlated variables count as dependent.",
 ["inputs", "configurations"], "all correlation values, sample sizes, thresholds, conditioning sets and node orders",
 "Tests use a few random data sets with clear-cut dependencies; boundaries, signs and degrees of freedom are not pinned down.",
 [IT, "causy/math_utils.py"], [("tests", IT + ": CorrelationCoefficientTest, PartialCorrelationTest, ExtendedPartialCorrelationTestMatrix, ExtendedPartialCorrelationTestLinearRegression (process)"), ("critical value", "causy/math_utils.py: get_t_and_critical_t")])
prop("P13", "Edge statistics are the right ones and are stored on the right edge",
 "The correlation stored for an edge is the Pearson correlation of its two variables, always within [-1, 1] and independent of the order of the two nodes and of shifting the data; a direct effect is stored only for one-way edges, on that edge, and is the coefficient of the cause in the least-squares regression of the effect on all of its present parents. Other values already stored on the edge are kept.",
 ["inputs"], "all data sets, all graphs",
 "Tests compare single numbers for one seed.",
 ["causy/common_pipeline_steps/calculation.py", "causy/causal_effect_estimation/multivariate_regression.py"],
 [("statistics", "causy/common_pipeline_steps/calculation.py: CalculatePearsonCorrelations.process; causy/causal_effect_estimation/multivariate_regression.py: ComputeDirectEffectsInDAGsMultivariateRegression.process")])
prop("P14", "Loops stop only when nothing changed; grouped steps decide before acting",
 "A loop runs its steps in order again and again until a full round took no action (the first round always runs; another exit condition may say stop), and records every step it ran with its actions. A group whose actions are applied together lets all of its steps decide on the unchanged graph and applies all their proposals afterwards, each exactly once and in order.",
 ["histories", "configurations"], "every list of steps, every sequence of actions they take",
 "Tests run one loop and one group.",
 [LG, "causy/common_pipeline_steps/exit_conditions.py"], [("logic steps", LG + ": Loop.execute, ApplyActionsTogether.execute; causy/common_pipeline_steps/exit_conditions.py: ExitOnNoActions.check")])
prop("P15", "Variables resolve to user values or defaults, and bad values are rejected",
 "Every variable an algorithm declares resolves to the value given by the user if there is one and to its declared default otherwise, and every reference to a variable anywhere in the pipeline (including nested steps and generators) is replaced by that value or reported as unknown. Values for undeclared variables, of the wrong type (a boolean is not an integer) or outside the declared choices are rejected before anything runs.",
 ["inputs", "configurations"], "all sets of declared variables, all user values, all nestings of steps",
 "Tests use one or two variables with valid values.",
 [V, GM], [("variables", V + ": BaseVariable.validate_value, IntegerVariable.validate_value, validate_variable_values, resolve_variables, resolve_variable_to_object, resolve_variables_to_algorithm_for_pipeline_steps, deserialize_variable")])
prop("P16", "Configured options are honoured and survive saving and loading",
 "Every option given when creating a pipeline step, a logic step or a generator takes effect, including false, zero and empty values, and options not given keep their default. An algorithm saved to its JSON form and loaded again is the same algorithm: same steps in the same order, same options, variables and references.",
 ["configurations"], "all combinations of options of all steps, all algorithms built from them",
 "Tests set a few options to non-default true values and reload one or two algorithms.",
 [IF, S, GU, V, GEN], [("construction", IF + ": PipelineStepInterface.__init__, GeneratorInterface.__init__, LogicStepInterface.__init__"), ("loading", S + ": load_algorithm_from_specification; " + GU + ": load_pipeline_steps_by_definition, load_pipeline_artefact_by_definition; " + V + ": deserialize_variable_references")])
prop("P17", "Algorithm references never reach files outside the workspace",
 "Loading an algorithm from a file reference opens a file only if, after resolving symbolic links and relative parts, it lies in the current working directory or below it; any other reference is refused before anything is opened. Loading an algorithm by name or from a module returns an independent copy, so using it with one set of variables never affects a later load.",
 ["inputs"], "all reference strings, all directory layouts including sibling directories with a common name prefix and symbolic links",
 "The loader of references has no test for refused paths at all.",
 [S, "causy/ui/server.py"], [("containment check", S + ": load_algorithm_by_reference"), ("api guard", "causy/ui/server.py: get_algorithm")])
prop("P18", "Experiment versions: listed, loaded and cleared exactly, never another's",
 "The versions of an experiment are exactly the timestamps of the result files carrying its name followed by a timestamp, newest first, whatever other files (including those of experiments whose name extends this name) lie in the workspace; the latest result is the one with the greatest timestamp. Clearing or removing an experiment deletes exactly these files, and a result that was saved is listed and loads back.",
 ["inputs", "histories"], "all experiment names (also with underscores and digits) and all directory contents",
 "Tests use one or two experiment names without look-alike files.",
 [W], [("versions", W + ": _load_experiment_versions, _load_latest_experiment_result, _load_experiment_result, _save_experiment_result, _clear_experiment, remove_experiment, clear_experiment")])
prop("P19", "An unchanged experiment is skipped, a changed one is always re-executed",
 "An experiment is reported as not needing execution only if a stored result exists whose variables, algorithm and input data (with loader options) are all equal to the current ones, and it is then skipped unless execution is forced; any change to one of them leads to re-execution. Execution runs the configured pipeline with the resolved variables on the configured data and stores hashes that describe exactly these.",
 ["histories", "configurations"], "all sequences of edits to variables, pipeline and data between executions",
 "Tests change one thing once.",
 [W, GU, DL], [("re-execution check", W + ": _experiment_needs_reexecution, _execute_experiment, execute"), ("hashes", GU + ": hash_dictionary; " + DL + ": FileDataLoader.hash, AbstractDataLoader._hash_options")])
prop("P20", "Data is loaded completely and identically from every input format",
 "Loading a data set creates exactly one node per column, named after it and holding all of its values in row order, and gives the same nodes and values whether the data comes as rows, as columns, or from a JSON or JSON-lines file. Afterwards the fully connected start graph has an undirected edge between every two different nodes and nothing else.",
 ["inputs"], "all data sets with numeric columns",
 "Tests load fixed two or three column data.",
 [GM, DL], [("loading", GM + ": create_graph_from_data, __create_graph_from_dict, __create_graph_from_list, _create_from_data_loader, create_all_possible_edges; " + DL + ": JSONDataLoader.load, JSONLDataLoader.load")])
prop("P21", "Generated samples satisfy the structural equations of their edges",
 "For every acyclic set of weighted edges the i.i.d. sample generator produces, for each variable, its own noise plus the weighted sum of the generated values of all its causes, whatever the order in which edges are listed, and returns a graph with exactly these variables and directed edges. Cyclic edge sets are rejected.",
 ["inputs"], "all acyclic edge lists in all orders, all weights, sizes and noise functions",
 "Tests use two or three edges listed in causal order.",
 [SG], [("sampling", SG + ": IIDSampleGenerator.topologic_sort, _generate_data, generate, _generate_shaped_data; AbstractSampleGenerator._find_variables_in_edges, _get_edges_for_node_to")])
prop("P22", "Workspace edits never leave dangling references or invalid variables",
 "Removing a pipeline or a data loader that an experiment still uses is refused and leaves the stored workspace unchanged, removing an unused one removes exactly it, and removing an experiment removes exactly that experiment. Updating a variable of an experiment stores exactly the given value converted to the declared type, and refuses unknown variables and values that do not fit, leaving the workspace unchanged.",
 ["inputs", "histories"], "all workspaces, all names, all variable types and value strings",
 "Tests remove one item from a one-item workspace.",
 [W], [("workspace commands", W + ": remove_pipeline, remove_data_loader, remove_experiment, update_experiment_variable, write_to_workspace, _current_workspace")])
prop("P23", "The web API serves exactly the stored results it is asked for",
 "The workspace API lists every experiment of the workspace with its configuration and all stored versions, newest first. A request for a version of an experiment returns exactly the result stored for that version (algorithm, nodes, edges, history, variables) together with its version number, and a request for the latest one returns the newest stored result. Unknown experiments, versions without a stored result, unknown algorithms and file references that lead out of the workspace are answered with an error, never with the data of something else; algorithms are served as stored. (No claim is made about requests answered while an execution is writing.)",
 ["inputs", "histories"], "all workspaces, all sets of stored versions, all request paths, all algorithm references",
 "Tests query one experiment with one stored version.",
 ["causy/ui/server.py"], [("web API", "causy/ui/server.py: get_experiments, get_experiment, get_latest_experiment, get_algorithm")])
prop("P24", "Generated time series follow their lagged equations",
 "For every set of lagged edges (lag at least one step) the time series generator produces, for each variable and each step after the first, one fresh noise value plus the sum over all edges into the variable of the weight times the value of the cause exactly lag steps earlier (its initial value where that lies before the start). The initial values of a stable process are drawn with the standard deviation of its stationary distribution (unit noise, up to rounding). The returned graph has exactly one node per variable and step, holding exactly that value, and exactly the directed edges from the cause at t - lag to the effect at t for all steps where both exist.",
 ["inputs"], "all sets of lagged edges (several lags between the same variables, self-dependence, any listing order), all sizes, all noise functions",
 "Tests generate a few series of three variables with lag one or one variable with lag two.",
 [SG], [("time series", SG + ": TimeseriesSampleGenerator.__init__, _generate_data, generate, _calculate_initial_values, custom_block_diagonal; AbstractSampleGenerator._find_variables_in_edges, _get_edges_for_node_to")])
prop("P25", "Comparing experiment results reports exactly what differs",
 "The diff of two or more experiments or versions shows one row for every pair of variables that is connected in at least one of the stored results asked for, and in each cell exactly the connection of that pair in that stored result (kind and direction as seen from the label of the row, empty if there is none). A row is marked as equal exactly if all results agree on kind and direction, and the option to show only differences leaves out exactly the rows marked as equal. Names and versions that are not stored are refused; nothing is changed. (No claim is made about the order of rows.)",
 ["inputs"], "all stored results, every kind and direction of connection, edges stored in any order, any number of experiments and versions",
 "The only test compares one experiment with itself and does not look at the table.",
 [W, "causy/interfaces.py", "causy/serialization.py", "causy/edge_types.py"], [("diff", W + ": diff, _edge_representation"), ("equality of edges", "causy/interfaces.py: EdgeInterface.__eq__, is_connection_between_same_nodes"), ("reading results", "causy/serialization.py: deserialize_result; causy/edge_types.py: EDGE_TYPES")])
prop("P26", "The command line runs and saves exactly the asked algorithm, ejected ones too",
 "Executing from the command line loads the given data file, starts from the fully connected graph, runs exactly the pipeline of the given definition file (or the named algorithm if none is given), and writes to the output file a result with the nodes, edges and action history of that run and a reference to what was run, the same as with the Python interface; without a pipeline and a known algorithm nothing is written. An ejected algorithm, loaded again, is the named algorithm with all its steps, options, variables and variable references, so that executing it gives the same result.",
 ["inputs", "configurations"], "all data files, all pipeline definitions, all available algorithms",
 "Tests eject PC and execute one pipeline on fixed data and look only at the existence of the output.",
 ["causy/cli.py"], [("commands", "causy/cli.py: execute, eject")])
prop("P27", "Created pipelines, data loaders and experiments are stored and usable",
 "Creating a pipeline, data loader or experiment (or a workspace with them) from the command line adds exactly one entry, under the given name (or its slug), and leaves every other entry of the stored workspace as it was. The entry is usable as it stands: a preconfigured or ejected pipeline loads as the chosen algorithm with its variable references, a skeleton loads as an empty pipeline of the given name whatever characters it contains, a data loader loads the chosen file or the created module, and an experiment has the chosen pipeline and data loader and the default value of every variable of the pipeline. An existing workspace is overwritten only after confirmation, a dialogue that is not finished stores nothing, and a stored workspace is read back as the same workspace.",
 ["inputs", "histories"], "all answers of the dialogues, all names, all workspaces",
 "No test runs the creating commands; workspaces are only read from fixtures.",
 [W, "causy/workspaces/templates/pipeline.py.tpl", "causy/workspaces/templates/dataloader.py.tpl", "causy/causal_discovery/constraint/algorithms/__init__.py"], [("creating entries", W + ": _create_pipeline, _create_data_loader, _create_experiment, create_pipeline, create_data_loader, create_experiment"), ("new workspaces", W + ": init"), ("storing and reading", W + ": write_to_workspace, _current_workspace"), ("templates", "causy/workspaces/templates")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
