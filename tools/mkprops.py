"""Writes /verif/properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))
G = "cdmir/graph/"
p("C01", "Graph representation stays consistent through every edit history",
  "After any sequence of graph edits (creating a graph from nodes, adding or removing nodes and edges, with or without overwriting, including refused edits), the node collection has no duplicates and adjacency is recorded at both ends of exactly the same pairs, all of whose ends are nodes of the graph. No edit can leave a half-recorded edge or an edge to a node that is not in the graph.",
  ["histories", "inputs"], "every sequence of public edit operations with any hashable nodes, on every graph class",
  "tests build a handful of small graphs; the guarantee is over every history of edits",
  [G+"graph.py", G+"digraph.py", G+"pdag.py"],
  [("both ends of an edge are written/removed together", G+"graph.py Graph.add_edge/remove_edge"),
   ("node removal purges every incident entry", G+"graph.py Graph.remove_node")],
  [("adjacency map", "per node, the mark at the far end of every incident edge", G+"graph.py Graph._adj")],
  ["nodes, edges, is_connected, neighbours, to_numpy of the graph after the edits"])
p("C02", "Each graph edit changes exactly what it names and nothing else",
  "Adding an edge makes exactly that edge present with exactly the given end marks; removing an edge or a node removes exactly that edge, or that node with its incident edges; every other node, edge and mark, and the node order, is left as it was. An edit that names a missing node, or adds an already present edge without overwriting, is refused with an assertion error and leaves the graph unchanged.",
  ["inputs", "histories"], "every well-formed graph and every argument of each edit operation",
  "tests check the touched edge on a few graphs, not that every other pair keeps its edge and marks",
  [G+"graph.py", G+"digraph.py", G+"pdag.py"],
  [("edge insertion/removal", G+"graph.py Graph.add_edge, remove_edge, add_edges"), ("node insertion/removal", G+"graph.py Graph.add_node, add_nodes, remove_node, remove_nodes_from")],
  (), ["the whole graph before and after one edit"])
p("C03", "Graph queries agree with the recorded edges and change nothing",
  "On every well-formed graph, adjacency, end-mark and directedness queries, single edge lookup, neighbour listing, edge listing and the matrix export all describe the same edges: adjacency is symmetric, an edge looked up from either end carries the same marks swapped, the edge listing contains every adjacent pair once in node order, the counts equal the number of listed items, and the matrix holds at row i, column j the mark that the edge between them has at node i's end (0 when not adjacent). No query modifies the graph, and querying a missing node is refused.",
  ["inputs"], "every well-formed graph and every pair of nodes",
  "tests compare one or two hand-written graphs; agreement has to hold on every graph",
  [G+"graph.py"], [("queries", G+"graph.py Graph.is_connected/get_edge/edges/get_neighbours/is_arrow/is_tail/is_circle/is_fully_directed/is_fully_undirected/to_numpy")], (), ["return values of the queries"])
p("C04", "Directed graphs and PDAGs only ever hold edge marks legal for their kind",
  "Whatever edits are attempted, a directed graph only ever contains directed edges (a tail at one end and an arrow at the other) and a partially directed graph only contains tail or arrow ends; an edge with any other mark is refused without changing the graph. In a directed graph the parents and children of a node are exactly the far ends of its incoming and outgoing edges, each listed once, and the degrees are their counts.",
  ["histories", "inputs"], "every history of edits on directed and partially directed graphs; every node",
  "tests try a few illegal edges and a few parents; legality must survive any history",
  [G+"digraph.py", G+"pdag.py", G+"mark.py", G+"edge.py"],
  [("mark checks before insertion", G+"digraph.py DiGraph.add_edge; pdag.py PDAG.add_edge"), ("parent/child listing", G+"digraph.py DiGraph.get_parents/get_children/in_degree/out_degree")], (), ["edges of the graph, parents/children/degree"])
p("C05", "Topological order lists parents first; acyclicity is decided exactly",
  "For every directed graph, the topological order lists no node twice and lists a node only after all of its parents; it lists all nodes exactly when the graph has no directed cycle, and the acyclicity query answers true exactly then. Neither query modifies the graph and both terminate.",
  ["inputs"], "every directed graph", "tests sample two small graphs; the answer must be right for every graph, including ones with cycles",
  [G+"digraph.py"], [("Kahn's algorithm with per-node counters", G+"digraph.py DiGraph.topo_sort, is_acyclic")], (), ["returned order and boolean"])
p("C06", "d-separation answers equal reachability by active trails",
  "For every directed graph, node and conditioning collection (of any iterable kind, including one-shot iterators, and including the default empty one), the reachable set is exactly the set of nodes outside the conditioning set that are reached by an active trail, where an active trail passes a non-collider only outside the conditioning set and a collider only if it or a descendant is in it; the d-separation query is its complement. The query terminates, does not modify the graph, and its answer depends only on the conditioning set.",
  ["inputs"], "every directed graph, source, target and conditioning iterable", "tests compare a few graphs; exactness is over all graphs and conditioning sets",
  [G+"digraph.py", "cdmir/utils/independence/dsep.py"], [("two-phase reachability", G+"digraph.py DiGraph.get_reachable_nodes, is_d_separate"), ("oracle test", "cdmir/utils/independence/dsep.py Dsep.cal_stats")], (), ["reachable nodes, d-separation answer, oracle p-value"])
p("C07", "Orientation rules only re-mark edges their pattern justifies",
  "On every partially directed graph, the orientation rules never add or remove an adjacency or a node; the four propagation rules never change an edge that is already directed; the collider rule directs into the middle node exactly the legs of non-adjacent pairs whose recorded separator omits that node. Each rule reports a change exactly when it made one.",
  ["inputs"], "every partially directed graph and separator record", "tests run whole algorithms on a few graphs; the frame condition must hold on every graph",
  [G+"pdag.py"], [("rules", G+"pdag.py PDAG.rule0..rule4")], (), ["graph before and after a rule"])
p("C08", "Orientation propagation is sound, closed and terminating",
  "On every partially directed graph, every directed acyclic graph that agrees with it (same adjacencies, same directed edges, and no unshielded collider that it does not already show) still agrees with it after any propagation rule or the full propagation, so no edge is given a direction that some consistent acyclic graph lacks. Full propagation terminates and, when it returns, none of its rules has an applicable pattern left.",
  ["inputs"], "every partially directed graph and every consistent acyclic completion of it", "the unsound cases need at least six nodes in a specific arrangement; tests do not reach them",
  [G+"pdag.py"], [("propagation rules", G+"pdag.py PDAG.rule1..rule4, orient_by_meek_rules")], (), ["graph after propagation; set of consistent DAGs"])
p("C09", "The CPDAG of a DAG has its adjacencies and only directions all equivalents share",
  "For every directed acyclic graph, the computed equivalence-class graph has the same nodes in the same order and adjacent pairs exactly those of the input; every edge that takes part in an unshielded collider of the input is directed as in the input; and every edge it directs has that direction in every directed acyclic graph with the same adjacencies and unshielded colliders. The input is not modified.",
  ["inputs"], "every DAG and every DAG equivalent to it", "exhausting equivalence classes is out of reach of tests; known failures start at six nodes",
  [G+"dag2cpdag.py", G+"pdag.py", G+"digraph.py"], [("skeleton by d-separation, then colliders, then propagation", G+"dag2cpdag.py dag2cpdag")], (), ["returned graph"])
p("C10", "Extending a PDAG to a DAG keeps its edges and adds no new collider",
  "For every partially directed graph that has a consistent acyclic extension, the extension returned is a directed acyclic graph with the same nodes in the same order and the same adjacencies, keeps every already directed edge, and contains no unshielded collider that the input did not already show; the input is not modified.",
  ["inputs"], "every extendable partially directed graph", "tests (failing at this commit for display reasons) convert one graph",
  [G+"pdag2dag.py"], [("sink removal", G+"pdag2dag.py pdag2dag, check2")], (), ["returned graph"])
p("C11", "Skeleton search removes exactly the adjacencies its test justifies",
  "For every conditional-independence test whose answer depends only on the pair and conditioning set, the skeleton search drops an adjacency only if some conditioning set of other variables was accepted as independent (p-value at least alpha), and keeps an adjacency only if the test rejects independence for every conditioning set, of size at most the number of other variables, drawn from the final neighbours of either end; the result is an undirected graph on exactly the given variables. Recorded separators are the same in both orders, contain neither endpoint, consist of members of accepted conditioning sets only, and are recorded only for dropped pairs.",
  ["inputs", "configurations"], "every deterministic test, alpha and variable list; plain and fast search", "tests use one data set and one graph; soundness and completeness are over all test outcomes",
  ["cdmir/discovery/constraint/adjacency_search.py"], [("level-wise removal", "cdmir/discovery/constraint/adjacency_search.py adjacency_search, fast_adjacency_search")], (), ["returned graph and separators; calls made to the test"])
p("C12", "PC keeps the tested skeleton and propagates on a separate copy",
  "After fitting, the PC result records as its skeleton exactly the undirected graph produced by the chosen search with the configured alpha and test, the causal graph has the same nodes and adjacencies as that skeleton and is propagated until no orientation rule applies, and orienting the causal graph never alters the recorded skeleton. Data given as a frame or an array yields the same variable naming to search, test and result.",
  ["inputs", "configurations"], "every data set, test class, alpha and search method", "tests look at one fitted graph, not at independence between recorded results",
  ["cdmir/discovery/constraint/pc.py", "cdmir/utils/adapters.py"], [("fit", "cdmir/discovery/constraint/pc.py PC.fit")], (), ["skeleton, causal_graph, sep_set after fit"])
p("C13", "Independence-test answers do not depend on what was asked before",
  "For every history of queries to a conditional-independence test, a query returns the statistic of the asked pair and conditioning set: two queries share an answer only if they name the same unordered pair and the same conditioning variables, an empty conditioning set is distinguished from variables, and the answer equals that of a fresh test object.",
  ["histories", "inputs"], "every sequence of queries over every variable set", "tests ask each query once; collisions need two related queries in one history",
  ["cdmir/utils/independence/basic_independence.py"], [("result cache", "cdmir/utils/independence/basic_independence.py ConditionalIndependentTest.itest, _get_cache_key")], [("cache", "key to computed statistic", "ConditionalIndependentTest.cache")], ["return value of test/itest"])
p("C14", "Local scores do not depend on what was scored before",
  "For every history of queries to a local score, the value returned for a variable and a parent collection is the score of that variable and that collection, whatever iterable kind carried it and whatever was asked before.",
  ["histories", "inputs"], "every sequence of score queries", "tests ask one query per object; collisions need two queries",
  ["cdmir/utils/local_score/_base.py"], [("result cache", "cdmir/utils/local_score/_base.py BaseLocalScoreFunction._score")], [("cache", "key to computed score", "BaseLocalScoreFunction.cache_dict")], ["return value of the score object"])
p("C15", "Kernel matrices do not depend on what was evaluated before",
  "For every history of evaluations of a kernel object, including changes of its parameters between them, the matrix returned is the kernel of the two data sets given and the parameters in force, never one remembered for other data or parameters.",
  ["histories", "inputs"], "every sequence of kernel evaluations on data of any size", "tests evaluate one small matrix per object; collisions need large or nearly equal data",
  ["cdmir/utils/kernel/_base.py", "cdmir/utils/kernel/gaussian.py", "cdmir/utils/kernel/polynomial.py"], [("result cache", "cdmir/utils/kernel/_base.py BaseKernel.__kernel")], [("cache", "key to kernel matrix", "BaseKernel.cache_dict")], ["returned matrix"])
p("C16", "Graph comparison metrics measure exactly the differing edges",
  "For every two graphs of the same kind over the same node order, equality holds exactly when every pair has the same edge in both; the structural distance counts exactly the unordered pairs whose edges differ, is symmetric, and is zero exactly for equal graphs. Comparing graphs of different kinds or nodes is refused, and comparison modifies neither.",
  ["inputs"], "every two graphs", "tests compare three pairs of graphs",
  ["cdmir/utils/metrics/graph_evaluation.py"], [("metrics", "cdmir/utils/metrics/graph_evaluation.py graph_equal, shd")], (), ["returned boolean / count"])
p("C17", "Equivalence-search operators make exactly the prescribed edit",
  "The insertion operator adds exactly the named arrow and directs the named neighbours into the target; the deletion operator removes exactly the named edge and directs the named neighbours away; every other edge and mark is kept. Subset enumeration yields every subset exactly once with the empty set first, superset marking marks exactly the supersets, and the clique test holds exactly when all named nodes are pairwise adjacent.",
  ["inputs"], "every partially directed graph and operator argument", "tests for these operators are absent or exercise one graph",
  ["cdmir/discovery/score_based/greedy_equivalence_search.py"], [("operators", "greedy_equivalence_search.py Insert, Delete, Combinatorial, find_subset_include, check_clique")], (), ["graph after the operator; returned lists"])
p("C18", "Score-difference bookkeeping equals direct scoring in every history",
  "For every current graph, candidate operator and any history of previously recorded local scores, the score change reported for inserting or deleting an edge equals the difference of the target's local scores with the two parent sets the operator prescribes, and the record only ever holds local scores of the parent sets it names.",
  ["histories", "inputs"], "every sequence of operator evaluations against any local score", "tests run one search; a stale record shows only in some histories",
  ["cdmir/discovery/score_based/greedy_equivalence_search.py"], [("score record", "greedy_equivalence_search.py Insert_changed_score, Delete_changed_score")], (), ["returned change"])
p("C19", "Hill climbing over event graphs never accepts a worse or cyclic structure",
  "Each candidate offered for a current structure differs from it in at most one pair of positions that is cleared or given a single direction, and offering candidates never modifies the current structure; candidates with a directed cycle score minus infinity. The search returns the fit with the highest score among everything it accepted, at least that of the start, and no single-pair change of it scores higher.",
  ["inputs", "histories"], "every starting structure and score function", "tests run one simulated data set",
  ["cdmir/discovery/point_process/SHP.py"], [("search", "SHP.py SHP.one_step_change, one_step_change_iterator, Hill_Climb, check_DAG")], (), ["candidates, returned score"])
p("C20", "Merging overlapping clusters yields the connected groups",
  "For every list of clusters, merging returns pairwise disjoint groups whose union is the union of the clusters, with every non-empty cluster inside exactly one group and clusters that overlap, directly or through others, in the same group, and only those. The input list is not modified.",
  ["inputs"], "every list of clusters", "tests (failing at this commit for import reasons) use one list",
  ["cdmir/discovery/funtional_based/LearningHierarchicalStructure/Overlap_Merge.py"], [("component merging", "Overlap_Merge.py merge_list, bfs, connected_components, graph")], (), ["returned groups"])
p("C21", "Cluster containment helpers implement the set relations they name",
  "For every cluster and cluster list, the containment helpers answer true exactly when some member of the list stands in the named set relation (equal, covered, strictly covered, and each comparison operator), lookup by content returns an index whose cluster has that content exactly when there is one, and extending a list adds exactly the clusters not already present as sets and keeps the rest in order.",
  ["inputs"], "every cluster and list of clusters", "tests do not exercise these helpers alone",
  ["cdmir/discovery/funtional_based/LearningHierarchicalStructure/Utils.py"], [("helpers", "Utils.py GeneralSet*, GeneralDicContains, GetEarlyLearningByDic, ExtendList")], (), ["returned booleans/lists"])
p("C22", "LiNGAM estimates are strictly lower triangular and the graph is their support",
  "Whatever the data, the coefficient matrix produced by the fit has zeros on and above the diagonal, so the graph it describes is acyclic, and the reported graph is one exactly where the coefficients are non-zero; the significance level given at construction is the one used for pruning, which removes exactly the coefficients whose p-value exceeds it and only ever removes.",
  ["inputs", "configurations"], "every data set and significance level", "tests draw one data set with the level that happens to be hard-coded",
  ["cdmir/discovery/funtional_based/lingam_based/ica_lingam.py"], [("pruning", "ica_lingam.py ICA_LINGAM.fit, wald_prune")], (), ["get_coef, get_causal_graph"])
p("C23", "Simulated i.i.d. data are generated parents-first with the options asked for",
  "Each simulated variable is generated from the final values of exactly its parents in the given graph, with the noise kind, the noise scale of that variable and the function family that were asked for, one value per sample; a cyclic graph is refused.",
  ["inputs", "configurations"], "every weighted acyclic graph and option combination", "tests look at output shapes only",
  ["cdmir/datasets/simlulators.py"], [("generation loop", "simlulators.py IIDSimulator.simulate_linear_anm, simulate_nonlinear_anm, simulate_pnl")], (), ["arguments and results of the per-variable generator"])
p("C24", "Random graph generator returns an acyclic graph with the requested weights",
  "For every node count, edge count, weight range and seed (including none), the generated matrix describes a directed acyclic graph, and with a weight range every present edge has a magnitude within that range while absent edges are zero.",
  ["inputs", "configurations"], "every size, edge count, range and seed", "tests sample one size and seed",
  ["cdmir/datasets/utils.py"], [("random orientation", "cdmir/datasets/utils.py erdos_renyi, _random_acyclic_orientation, _random_permutation, _adj2weights")], (), ["returned matrix"])
p("C25", "Tabular input adapter keeps names, order and values aligned",
  "For every array or frame and every optional naming, the adapted method receives the values as an array with one name per column: the given names if any (refused when the count differs), otherwise the frame's column names, otherwise the positions; other input kinds are refused.",
  ["inputs"], "every array/frame and naming", "tests pass one naming form",
  ["cdmir/utils/adapters.py"], [("adapter", "cdmir/utils/adapters.py data_form_converter_for_class_method")], (), ["arguments received by the wrapped method"])
p("C26", "Equivalence search only moves to better-scoring graphs and reports the total",
  "Greedy equivalence search applies an operator only when its score change is positive and the largest among the valid candidates examined, terminates only when no such candidate is left in each phase, and reports the starting score plus the sum of the applied changes for the graph it returns.",
  ["inputs", "histories"], "every local score and data dimension", "tests run single data sets and fail or only check display",
  ["cdmir/discovery/score_based/greedy_equivalence_search.py"], [("search loops", "greedy_equivalence_search.py GES.fit")], (), ["get_score, get_causal_graph"])
p("C27", "Partial-correlation test p-values follow the Fisher-z law",
  "For every non-degenerate data set, pair and conditioning set, the reported p-value is in [0,1], is symmetric in the pair, does not depend on the order of the conditioning variables, and equals the two-sided normal tail of the Fisher-transformed partial correlation.",
  ["inputs"], "every data set and query", "tests compare a few statistics",
  ["cdmir/utils/independence/functional/fisherz.py"], [("statistic", "fisherz.py fisherz_from_corr")], (), ["returned p-value"])
p("C28", "Kernel independence and additive-noise decisions control their error rate",
  "Under independence the kernel-based independence tests reject at about the nominal rate, and additive-noise and one-component models recover the causal direction as the sample grows.",
  ["inputs"], "every data-generating process", "a statistical statement over distributions, not over runs",
  ["cdmir/utils/independence/kernel_based.py", "cdmir/discovery/funtional_based/anm/ANM.py", "cdmir/discovery/funtional_based/one_component/olc.py"], [("tests", "kernel_based.py; ANM.py; olc.py")], (), ["p-values, directions"])
p("C29", "Entropy-based structure learners return acyclic weights at convergence",
  "The differentiable structure learners end with a weight matrix whose thresholded support is acyclic and whose acyclicity penalty is below the requested tolerance.",
  ["inputs", "configurations"], "every data set and hyper-parameter setting", "tests fit one small problem with few iterations",
  ["cdmir/discovery/score_based/entropy_based/entropy_based_discovery/linear_ent.py", "cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear_ent.py"], [("augmented Lagrangian", "linear_ent.py, nonlinear_ent.py")], (), ["returned weight matrix"])
with open("/verif/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), max(len(x["title"]) for x in P))
