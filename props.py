"""Which functions carry each property: the check of a property verifies these functions and, transitively, every contract they rely on."""
G = "cdmir.graph.graph.Graph."
D = "cdmir.graph.digraph.DiGraph."
P = "cdmir.graph.pdag.PDAG."
EDITS = [G + m for m in ("__init__", "init_graph", "add_node", "add_nodes", "add_edge", "add_edges", "remove_edge", "remove_node", "remove_nodes_from")] + [D + "add_edge", P + "add_edge"]
QUERIES = [G + m for m in ("check_missing_node", "check_mark", "nodes", "number_of_nodes", "is_connected", "is_arrow", "is_tail", "is_circle", "is_fully_directed",
                           "is_fully_undirected", "get_edge", "get_neighbours", "edges", "number_of_edges", "to_numpy")]

DISTINCT = "edge end points are distinct nodes (a self-loop is outside the graph classes' domain)"
MARKS = "edge marks are members of the Mark enumeration"
NODES = "nodes are hashable values with a stable equality; two nodes are equal exactly when they are the same node"

RANKED = "a finite directed graph has no directed cycle exactly when some ranking of its nodes increases along every arrow"
ZNODES = "the start node and the members of the conditioning collection are nodes of the graph"
LEAST = "ancestors and active-trail pairs are the least sets closed under their step rules (inductive definitions)"
SEPS = "the separator record has an entry for every two non-adjacent nodes in node order"

A = "cdmir.discovery.constraint.adjacency_search."
CITEST = "the test's answer depends on the unordered pair and the set of conditioning variables alone (its first component is a real number that is compared with alpha)"

CI = "cdmir.utils.independence.basic_independence.ConditionalIndependentTest."
LS = "cdmir.utils.local_score."
SCORES = ["_base.BaseLocalScoreFunction", "bic_score.BICScore", "bdeu_score.BDeuScore", "cross_validated_base.GeneralCVScore", "cross_validated_base.MultiCVScore", "marginal_base.GeneralMarginalScore", "marginal_base.MultiMarginalScore"]
KN = "cdmir.utils.kernel."
KERNELS = ["gaussian.GaussianKernel", "polynomial.PolynomialKernel", "linear.LinearKernel", "_base.BaseKernel"]
STAT = "cal_stats is a function of the pair and the set of conditioning variables (assumed contract of the abstract method)"
CITEST2 = "the statistic of a pair does not depend on the order of the pair, and no conditioning set is the empty one"
ONEKEY = "arbitrary histories follow from one arbitrary earlier query: a query reads and writes the remembered answers under a single key (checked on every path), so what it finds was written by one earlier query with an equal key"

LH = "cdmir.discovery.funtional_based.LearningHierarchicalStructure."

PROPS = {
    "C01": {"targets": EDITS, "assume": [DISTINCT, MARKS, NODES]},
    "C02": {"targets": EDITS, "assume": [DISTINCT, MARKS, NODES, "warnings.warn has no effect on the graph"]},
    "C03": {"targets": QUERIES, "assume": [DISTINCT, MARKS, NODES]},
    "C04": {"targets": EDITS + [D + m for m in ("get_parents", "get_children", "in_degree", "out_degree")], "assume": [DISTINCT, MARKS, NODES]},
    "C05": {"targets": [D + "topo_sort", D + "is_acyclic"], "assume": [DISTINCT, MARKS, NODES, RANKED]},
    "C06": {"targets": [D + "get_reachable_nodes", D + "is_d_separate", "cdmir.utils.independence.dsep.Dsep.cal_stats"], "assume": [DISTINCT, MARKS, NODES, ZNODES, LEAST]},
    "C07": {"targets": [P + m for m in ("rule0", "rule1", "rule2", "rule3", "rule4")], "assume": [DISTINCT, MARKS, NODES, SEPS]},
    "C09": {"targets": ["cdmir.graph.dag2cpdag.dag2cpdag"], "assume": [DISTINCT, MARKS, NODES, RANKED, LEAST, "the input graph is acyclic", "log messages have no effect on the graph"]},
    "C11": {"targets": [A + "adjacency_search", A + "fast_adjacency_search"], "assume": [MARKS, NODES, CITEST, "variable names are distinct (Graph refuses others)", "log messages have no effect"]},
    "C13": {"targets": [CI + "__init__", CI + "itest", CI + "test"], "trusted": [STAT], "assume": [CITEST2, ONEKEY, "names are distinct; the asked variables are known"]},
    "C14": {"targets": [LS + "_base.BaseLocalScoreFunction._score"] + [LS + c + ".__call__" for c in SCORES], "trusted": ["each _score_function is a function of the variable and the set of parents (assumed contract; the data are not changed)"], "assume": [ONEKEY]},
    "C15": {"targets": [KN + c + ".__call__" for c in KERNELS], "trusted": ["the kernel functions and the data-driven widths are functions of their arguments and parameters (assumed contracts); the median width of more than 1000 rows is some value",
            "numeric arrays of equal shape, element type and bytes hold equal values (numpy tobytes)"], "assume": [ONEKEY, "the matrix handed out is not changed in place by its user", "widths, degrees and constants are numbers whose equality is that of the key (no NaN)"]},
    "C12": {"targets": ["cdmir.discovery.constraint.pc.PC.fit", "cdmir.discovery.constraint.pc.PC.__init__", "cdmir.discovery.constraint.pc.PC.set_alpha", "cdmir.utils.adapters.data_form_converter_for_class_method", CI + "__init__"], "trusted": ["a search method of the user's own returns an undirected graph on the given names and a separator entry for every two of them; copy.deepcopy copies (see DESIGN)"], "assume": [MARKS, NODES, CITEST, "variable names are distinct", "a test class keeps the names it is given (ConditionalIndependentTest.__init__ is verified to)"]},
    "C16": {"targets": ["cdmir.utils.metrics.graph_evaluation.graph_equal", "cdmir.utils.metrics.graph_evaluation.shd"], "assume": [MARKS, NODES, "numpy: an element-wise comparison and all() over a matrix mean what they say"]},
    "C20": {"targets": [LH + "Overlap_Merge." + f for f in ("merge_list", "graph", "bfs", "connected_components")], "assume": ["clusters are lists of hashable members", "the least set closed under a relation is taken as an inductive definition: it is closed, and contained in the closed sets the contracts name"]},
    "C21": {"targets": [LH + "Utils." + f for f in ("GeneralSetContains", "GeneralSetCover", "GeneralSetStrictCover", "GeneralSetOperator", "GeneralDicContains", "GetEarlyLearningByDic", "ExtendList")], "assume": ["clusters are collections of hashable members (modelled as lists); no index is the empty text, which stands for 'none'"]},
    "C25": {"targets": ["cdmir.utils.adapters.data_form_converter_for_class_method", CI + "__init__"], "trusted": ["pandas: a frame's .values holds its columns in the order of its .columns; frames and arrays are told apart by isinstance"], "assume": ["the data are two-dimensional; names are a list; a frame has as many column names as value columns"]},
    "C08": {"targets": [P + "orient_by_meek_rules"], "assume": [DISTINCT, MARKS, NODES, RANKED]},
}

NOT_APPLICABLE = {}
