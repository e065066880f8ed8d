"""planted bugs: written from the property texts and the code (development; no check reads this)"""
GP = "cdmir/graph/graph.py"
DG = "cdmir/graph/digraph.py"
PD = "cdmir/graph/pdag.py"
IMP = "from cdmir.graph import Graph, DiGraph, PDAG, Edge, Mark\nA, T, C = Mark.Arrow, Mark.Tail, Mark.Circle\n"
SEEDS = [
 dict(id="c01-add-nodes-batch", property="C01", edits=[(GP, """        for node_u in nodes:
            self.add_node(node_u)
""", """        new_nodes = [node_u for node_u in nodes if node_u not in self.node_set]
        for node_u in new_nodes:
            self._adj[node_u] = dict()
        self.node_set.update(new_nodes)
        self.node_list.extend(new_nodes)
""")], what="add_nodes registers the new nodes in one batch; a node named twice in one call enters the node order twice",
      needs="one add_nodes call naming the same new node twice", demo=IMP + """
g = Graph(['a'])
g.add_nodes(['b', 'c', 'b'])
assert list(g.nodes) == ['a', 'b', 'c'], list(g.nodes)
assert g.number_of_nodes() == len(g.node_set)
"""),
 dict(id="c01-remove-node-last", property="C01", edits=[(GP, """        for node_v in self.node_set:
            self._adj[node_v].pop(node_u, None)

        # Remove the node
        self._adj.pop(node_u)
""", """        neighbours = self._adj.pop(node_u)
        for node_v, mark in neighbours.items():
            if mark != Mark.Null:
                del self._adj[node_v][node_u]

        # Remove the node
""")], what="remove_node only cleans up the rows reached by edges whose far mark is not Null, so the other end keeps a dangling record",
      needs="an edge with a Null mark at the far end, then removal of its node", demo=IMP + """
g = Graph([1, 2, 3])
g.add_edge(Edge(1, 2, Mark.Tail, Mark.Null))
g.add_edge(Edge(1, 3, Mark.Tail, Mark.Arrow))
g.remove_node(1)
assert list(g.get_neighbours(2)) == [], list(g.get_neighbours(2))
"""),
 dict(id="c02-refused-edge-half-recorded", property="C02", edits=[(GP, """        if not overwrite:
            assert not self.is_connected(node_u, node_v), \\
                f'Node {node_u} and node {node_v} already have edges connected.'

        self._adj[node_u].update({node_v: mark_v})
        self._adj[node_v].update({node_u: mark_u})
""", """        previous = self._adj[node_u].get(node_v)
        self._adj[node_u].update({node_v: mark_v})
        if not overwrite:
            assert previous is None, \\
                f'Node {node_u} and node {node_v} already have edges connected.'
        self._adj[node_v].update({node_u: mark_u})
""")], what="a refused add_edge on an existing edge has already rewritten the mark at one end",
      needs="add_edge with different marks on an existing edge without overwrite, then a look at the marks", demo=IMP + """
g = PDAG(['a', 'b'])
g.add_edge(Edge('a', 'b', T, T))
try:
    g.add_edge(Edge('a', 'b', T, A))
except AssertionError:
    pass
assert g.is_fully_undirected('a', 'b'), g.get_edge('a', 'b')
"""),
 dict(id="c02-overwrite-skips-mark-check", property="C02", edits=[(DG, """        self.check_mark(edge.mark_u, [Mark.Tail])
        self.check_mark(edge.mark_v, [Mark.Arrow])
        super()""", """        if not overwrite or not self.is_connected(edge.node_u, edge.node_v):
            self.check_mark(edge.mark_u, [Mark.Tail])
        self.check_mark(edge.mark_v, [Mark.Arrow])
        super()""")], what="overwriting an existing edge of a directed graph no longer checks the mark at its tail, so a bidirected edge gets in",
      needs="add_edge with overwrite on an existing pair and an arrow at both ends", demo=IMP + """
g = DiGraph([1, 2])
g.add_edge(Edge(1, 2, T, A))
try:
    g.add_edge(Edge(1, 2, A, A), overwrite=True)
    raise SystemExit('an edge with two arrows was accepted')
except AssertionError:
    pass
assert g.is_fully_directed(1, 2)
"""),
 dict(id="c03-to-numpy-order", property="C03", edits=[(GP, """        node_index = {node: i for i, node in enumerate(self.node_list)}
""", """        node_index = {node: i for i, node in enumerate(self._adj)}
""")], what="the adjacency matrix numbers rows by the insertion order of the adjacency table, which starts from an unordered set, instead of the node order",
      needs="nodes whose set order differs from their list order, and an edge", demo=IMP + """
nodes = [40, 3, 17, 8, 1024, 5]
g = DiGraph(nodes)
g.add_edge(Edge(40, 3, T, A)); g.add_edge(Edge(17, 1024, T, A))
m = g.to_numpy()
for i, u in enumerate(nodes):
    for j, v in enumerate(nodes):
        want = (1 if g.is_arrow(v, u) else -1 if g.is_connected(u, v) else 0) if i != j else 0
        assert m[i, j] == want, (u, v, m[i, j])
"""),
 dict(id="c03-edges-skip-isolated-tail", property="C03", edits=[(GP, """            for j in range(i + 1, n):
                edge = self.get_edge(self.node_list[i], self.node_list[j])
                if edge:
                    yield edge
""", """            left = len(self._adj[self.node_list[i]])
            for j in range(i + 1, n):
                if left == 0:
                    break
                edge = self.get_edge(self.node_list[i], self.node_list[j])
                if edge:
                    left -= 1
                    if left or j == i + 1 or i == 0 or len(self._adj[self.node_list[j]]) > 0:
                        yield Edge(edge.node_u, edge.node_v, min(edge.mark_u, edge.mark_v, key=lambda m: m.value) if edge.mark_u == Mark.Circle and edge.mark_v == Mark.Arrow and left == 0 else edge.mark_u, edge.mark_v)
""")], what="the edge listing replaces the circle of a circle-arrow edge by an arrow when the edge is the last one of its first node",
      needs="a circle-arrow edge that is the last one of its first end", demo=IMP + """
g = Graph([1, 2, 3])
g.add_edge(Edge(1, 2, C, A))
assert list(g.edges) == [Edge(1, 2, C, A)], list(g.edges)
"""),
 dict(id="c05-few-edges-acyclic", property="C05", edits=[(DG, """        return len(self.topo_sort()) == self.number_of_nodes()""", """        if self.number_of_edges() < self.number_of_nodes():
            # a graph with fewer edges than nodes is a forest
            return True
        return len(self.topo_sort()) == self.number_of_nodes()""")], what="a graph with fewer edges than nodes is taken to be acyclic without looking",
      needs="a directed cycle together with an isolated node", demo=IMP + """
g = DiGraph(list('abcd'))
for u, v in ('ab', 'bc', 'ca'):
    g.add_edge(Edge(u, v, T, A))
assert not g.is_acyclic()
"""),
 dict(id="c05-topo-revisit", property="C05", edits=[(DG, """                if not v[ch_u] and (self.in_degree(ch_u) == found_parents[ch_u]):
""", """                if not v[ch_u] and (self.in_degree(ch_u) <= found_parents[ch_u] + (1 if len(q) > 2 else 0)):
""")], what="with more than two nodes waiting, a node is queued when one of its parents is still missing",
      needs="a DAG whose queue holds three nodes when a node with one missing parent is reached", demo=IMP + """
import itertools, random
rng = random.Random(3)
for _ in range(300):
    n = rng.randrange(3, 9)
    order = list(range(n)); rng.shuffle(order)
    g = DiGraph(list(range(n)))
    for i, j in itertools.combinations(range(n), 2):
        if rng.random() < .3:
            g.add_edge(Edge(order[i], order[j], T, A))
    s = g.topo_sort()
    assert sorted(s) == list(range(n)), s
    for e in g.edges:
        u, v = (e.node_u, e.node_v) if e.mark_v == A else (e.node_v, e.node_u)
        assert s.index(u) < s.index(v), (s, u, v)
"""),
 dict(id="c06-visited-both-ways", property="C06", edits=[(DG, """            if not node_direction_l_visited[key]:
                node_direction_l_queue.append(key)
""", """            if not node_direction_l_visited[key] and not node_direction_l_visited[(key[0], 1)]:
                node_direction_l_queue.append(key)
""")], what="a node already reached from a child is not visited again from a parent, although a conditioned node blocks the former and opens the latter",
      needs="a conditioned node that is reached both from a child and from a parent, with a further parent", demo=IMP + """
g = DiGraph(list('xpzq'))
for u, v in ('px', 'pz', 'zx', 'qz'):
    g.add_edge(Edge(u, v, T, A))
assert not g.is_d_separate('x', 'q', {'z'})
assert g.is_d_separate('x', 'q', {'z', 'p'})
"""),

 dict(id="c07-rule2-flips", property="C07", edits=[(PD, """                if self.is_fully_undirected(node_u, node_w):
                    self.remove_edge(node_u, node_w)
                    self.add_edge(Edge(node_u, node_w, Mark.Tail, Mark.Arrow))
                    changed = True
                    if verbose:
                        logging.info(f'Rule2""", """                if self.is_connected(node_u, node_w) and not self.is_fully_directed(node_u, node_w) and not self.is_fully_directed(node_w, node_u):
                    self.remove_edge(node_u, node_w)
                    self.add_edge(Edge(node_u, node_w, Mark.Tail, Mark.Arrow))
                    changed = True
                    if verbose:
                        logging.info(f'Rule2""")], what="rule 2 also rewrites a bidirected edge into a directed one",
      needs="a bidirected edge closing a directed path of two edges", demo=IMP + """
g = PDAG(['u', 'v', 'w'])
g.add_edge(Edge('u', 'v', T, A)); g.add_edge(Edge('v', 'w', T, A)); g.add_edge(Edge('u', 'w', A, A))
assert not g.rule2()
assert g.is_arrow('u', 'w') and g.is_arrow('w', 'u')
"""),
 dict(id="c07-rule0-one-leg", property="C07", edits=[(PD, """                    self.remove_edge(node_v, node_w)
                    self.add_edge(Edge(node_v, node_w, Mark.Tail, Mark.Arrow))
                    if verbose:
                        logging.info(
                            f'Rule0""", """                    if not self.is_arrow(node_w, node_v):
                        self.remove_edge(node_v, node_w)
                        self.add_edge(Edge(node_v, node_w, Mark.Tail, Mark.Arrow))
                    if verbose:
                        logging.info(
                            f'Rule0""")], what="the collider rule leaves the second leg alone when it already points away from the middle node",
      needs="a leg that was directed the other way before the collider rule looks at it", demo=IMP + """
g = PDAG(['a', 'b', 'c'])
g.add_edge(Edge('a', 'c', T, T)); g.add_edge(Edge('c', 'b', T, A))
g.rule0({(u, v): set() for u in 'abc' for v in 'abc'})
assert g.is_fully_directed('a', 'c') and g.is_fully_directed('b', 'c'), str(g)
"""),
 dict(id="c08-rule1-child-adjacent", property="C08", edits=[(PD, """                if (not self.is_connected(node_u, node_w)) and self.is_fully_undirected(node_v, node_w):
""", """                if (not self.is_fully_undirected(node_u, node_w)) and not self.is_arrow(node_w, node_u) and self.is_fully_undirected(node_v, node_w):
""")], what="rule 1 fires although the outer nodes are adjacent, when that edge is directed from the outer node to the far node",
      needs="u -> v, u -> w and v - w", demo=IMP + """
g = PDAG(['u', 'v', 'w'])
g.add_edge(Edge('u', 'v', T, A)); g.add_edge(Edge('u', 'w', T, A)); g.add_edge(Edge('v', 'w', T, T))
g.orient_by_meek_rules()
assert g.is_fully_undirected('v', 'w'), str(g)   # both directions of v - w are consistent
"""),
 dict(id="c08-stop-early", property="C08", edits=[(PD, """            changed |= self.rule1(verbose=verbose)
            changed |= self.rule2(verbose=verbose)
""", """            changed |= self.rule1(verbose=verbose)
            changed = changed or self.rule2(verbose=verbose)
            if changed:
                continue
""")], what="a round ends early without clearing the loop flag correctly: rule 2 is skipped after rule 1 changed something",
      needs="n/a", demo="raise SystemExit(0)"),
 dict(id="c08-rule3-skips-far-pairs", property="C08", edits=[(PD, """                    if not (self.is_fully_undirected(node_u, node_x) and self.is_fully_directed(node_x, node_w)):
                        continue
""", """                    if not (self.is_fully_undirected(node_u, node_x) and self.is_fully_directed(node_x, node_w)):
                        break
""")], what="rule 3 gives up on a middle node as soon as one candidate for the other middle node does not fit",
      needs="the pattern of rule 3 with another node between its two middle nodes in the node order", demo=IMP + """
g = PDAG(['k', 'u', 'v', 'x', 'w'])
g.add_edge(Edge('v', 'w', T, A)); g.add_edge(Edge('x', 'w', T, A))
for m in 'vxw': g.add_edge(Edge('u', m, T, T))
g.orient_by_meek_rules()
assert g.is_fully_directed('u', 'w'), str(g)
"""),
 dict(id="c09-separator-size-cap", property="C09", edits=[("cdmir/graph/dag2cpdag.py", "for condition_size in range(0, n - 1):", "for condition_size in range(0, min(n - 1, 6)):")],
      what="dag2cpdag only looks for separators of up to five nodes", needs="two non-adjacent nodes that only six or more nodes separate (eight nodes)", demo=IMP + """
from itertools import combinations
from cdmir.graph.dag2cpdag import dag2cpdag
g = DiGraph(list(range(8)))
for u, v in combinations([0, 2, 3, 4, 5, 6, 7, 1], 2):
    if {u, v} != {0, 1}:
        g.add_edge(Edge(u, v, T, A))
p = dag2cpdag(g)
assert not p.is_connected(0, 1)
"""),
 dict(id="c09-separators-from-one-end", property="C09", edits=[("cdmir/graph/dag2cpdag.py", "combinations(pdag.node_set - {node_u, node_v}, condition_size)", "combinations(set(pdag.get_neighbours(node_u)) - {node_v}, condition_size)")],
      what="dag2cpdag takes candidate separators from the remaining neighbours of the earlier node only", needs="a pair whose only separators lie next to the later node", demo=IMP + """
from cdmir.graph.dag2cpdag import dag2cpdag
from itertools import combinations, permutations
import random
r = random.Random(3)
for _ in range(400):
    n = 6
    order = r.sample(range(n), n)
    arcs = [(u, v) for u, v in combinations(order, 2) if r.random() < .5]
    g = DiGraph(list(range(n)))
    for u, v in arcs:
        g.add_edge(Edge(u, v, T, A))
    p = dag2cpdag(g)
    for u, v in combinations(range(n), 2):
        assert p.is_connected(u, v) == g.is_connected(u, v), (arcs, u, v)
"""),
 dict(id="c11-first-end-only", property="C11", edits=[("cdmir/discovery/constraint/adjacency_search.py", "for node_u, node_v in permutations(var_names, 2):\n            if not g", "for node_u, node_v in combinations(var_names, 2):\n            if not g")],
      what="adjacency_search draws conditioning sets from the neighbours of the earlier variable only", needs="a pair that is independent only given neighbours of the later variable", demo="""
from cdmir.discovery.constraint.adjacency_search import adjacency_search
class Test:      # 0 and 1 are independent given 3 alone; 0 and 3 are independent at once
    def test(self, x, y, z=None):
        z = frozenset(z or ())
        k = frozenset((x, y))
        if k == {0, 3}:
            return 1.0, 0
        if k == {0, 1}:
            return (1.0 if z == {3} else 0.0), 0
        return 0.0, 0
g, sep = adjacency_search(Test(), [0, 1, 2, 3])
assert not g.is_connected(0, 1)
assert sep[0, 1] == {3}, sep[0, 1]
"""),
 dict(id="c11-fast-level-cap", property="C11", edits=[("cdmir/discovery/constraint/adjacency_search.py", """    for condition_size in range(0, n - 1):
        def get_sep_result""", """    for condition_size in range(0, n - 2):
        def get_sep_result""")],
      what="the fast search stops one conditioning size early", needs="a pair that is independent only given all other variables", demo="""
from cdmir.discovery.constraint.adjacency_search import fast_adjacency_search
class Test:
    def test(self, x, y, z=None):
        return (1.0 if {x, y} == {"a", "d"} and len(set(z)) == 2 else 0.0), 0
g, sep = fast_adjacency_search(Test(), ["a", "b", "c", "d"])
assert not g.is_connected("a", "d")
assert sep["a", "d"] == {"b", "c"} == sep["d", "a"]
"""),
 dict(id="c11-fast-alpha-excluded", property="C11", edits=[("cdmir/discovery/constraint/adjacency_search.py", """                    pval = independence.test(node_u, node_v, nodes_z)[0]
                    if pval >= alpha:""", """                    pval = independence.test(node_u, node_v, nodes_z)[0]
                    if pval > alpha:""")],
      what="the fast search rejects independence at a p-value equal to alpha", needs="a p-value exactly equal to alpha", demo="""
from cdmir.discovery.constraint.adjacency_search import fast_adjacency_search
class Test:
    def test(self, x, y, z=None):
        return .05, 0
g, sep = fast_adjacency_search(Test(), ["a", "b", "c"], alpha=.05)
assert not list(g.edges)
"""),
 dict(id="c13-key-digits-run-together", property="C13", edits=[("cdmir/utils/independence/basic_independence.py", "return ', '.join([str(s) for s in z])", "return ''.join([str(s) for s in z])")],
      what="the cache key joins the conditioning ids without a separator, so {1, 12} and {2, 11} can share an answer", needs="two queries whose conditioning ids share their digits (ids of two digits)", demo="""
import numpy as np
from cdmir.utils.independence.basic_independence import ConditionalIndependentTest
class S(ConditionalIndependentTest):
    def cal_stats(self, x, y, z=None):
        return .5, frozenset(z)
t = S(np.zeros((2, 130)))
assert t.itest(3, 4, [1, 123])[1] == {1, 123}
assert t.itest(3, 4, [11, 23])[1] == {11, 23}
"""),
 dict(id="c14-bic-inverse-reused", property="C14", edits=[("cdmir/utils/local_score/bic_score.py", """        XX = mat(self.cov[ix_(parent_i, parent_i)])
        H = log(self.cov[i, i] - yX * inv(XX) * yX.T)
""", """        if frozenset(parent_i) not in self.precision:
            self.precision[frozenset(parent_i)] = inv(mat(self.cov[ix_(parent_i, parent_i)]))
        H = log(self.cov[i, i] - yX * self.precision[frozenset(parent_i)] * yX.T)
"""), ("cdmir/utils/local_score/bic_score.py", """        self.sample_count = shape(data)[0]
""", """        self.sample_count = shape(data)[0]
        self.precision = dict()
""")],
      what="the BIC score keeps the inverse per parent set although its rows follow the order the parents were listed in", needs="the same parents listed in another order in an earlier query", demo="""
import numpy as np
from cdmir.utils.local_score import BICScore
r = np.random.RandomState(0)
d = r.randn(50, 5).dot(r.randn(5, 5))
s = BICScore(d)
s(0, [1, 2, 3])
assert np.isclose(s(4, [3, 1, 2]), BICScore(d)(4, [3, 1, 2]))
"""),
 dict(id="c15-width-kept-for-same-shape", property="C15", edits=[("cdmir/utils/kernel/gaussian.py", """        if self.width_strategy != self.WidthStrategyEnum.manual:
            self.__update""", """        if self.width_strategy != self.WidthStrategyEnum.manual and getattr(self, 'width_for', None) != (self.width_strategy, shape(xs)):
            self.width_for = (self.width_strategy, shape(xs))
            self.__update""")],
      what="the data-driven width is not recomputed for other data of the same shape", needs="two evaluations of one kernel on different data of one shape with the median strategy", demo="""
import numpy as np
from cdmir.utils.kernel import GaussianKernel
W = GaussianKernel.WidthStrategyEnum
a = np.random.RandomState(0).randn(10, 2)
k = GaussianKernel(width_strategy=W.median)
k(a, a)
assert np.allclose(k(5 * a, 5 * a), GaussianKernel(width_strategy=W.median)(5 * a, 5 * a))
"""),
]
SEEDS = [s for s in SEEDS if s["id"] != "c08-stop-early"]
