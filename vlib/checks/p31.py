""" P31: decision tree generators and graph helpers. """
import itertools
import warnings

import networkx as nx
from hypothesis import strategies as st

from engine import Sub, expect
from dessia_common.generation import DecisionTreeGenerator, RegularDecisionTreeGenerator
from dessia_common.graph import explore_tree_from_leaves, get_longest_path, get_paths_from_to

warnings.simplefilter("ignore")


class Model:
    """ What is generated. """

    def __init__(self, vector):
        self.vector = tuple(vector)


class Endless(Exception):
    """ Too many nodes are visited. """


class Regular(RegularDecisionTreeGenerator):
    """ Forbids some vectors and some models. """

    def __init__(self, numbers, vectors, models, name=""):
        self.vectors = vectors
        self.models = models
        self.visited = []
        super().__init__(numbers, name=name)

    def is_vector_valid(self, vector):
        self.visited.append(tuple(vector))
        if len(self.visited) > 2000:
            raise Endless("the generation does not end")
        return tuple(vector) not in self.vectors

    def model_from_vector(self, vector):
        return Model(vector)

    def is_model_valid(self, model):
        return model.vector not in self.models


class Free(DecisionTreeGenerator):
    """ The number of possibilities depends on the node. """

    def __init__(self, numbers, vectors, models, name=""):
        self.numbers = numbers
        self.vectors = vectors
        self.models = models
        self.visited = []
        super().__init__(name=name)

    def is_vector_valid(self, vector):
        self.visited.append(tuple(vector))
        if len(self.visited) > 2000:
            raise Endless("the generation does not end")
        return tuple(vector) not in self.vectors

    def model_from_vector(self, vector):
        return Model(vector)

    def is_model_valid(self, model):
        return model.vector not in self.models

    def number_possibilities_from_model(self, model):
        return self.numbers.get(model.vector, 0)


@st.composite
def regulars(draw):
    numbers = draw(st.lists(st.integers(1, 4), min_size=1, max_size=4))
    nodes = [v for d in range(1, len(numbers) + 1) for v in itertools.product(*(range(n) for n in numbers[:d]))]
    forbidden = draw(st.lists(st.sampled_from(nodes), max_size=6))
    return numbers, forbidden[::2], forbidden[1::2], draw(st.booleans()), draw(st.booleans())


def judge_regular(case, ctx):
    numbers, vectors, models, ordered, unique = case
    generator = Regular(numbers, set(vectors), set(models))

    def allowed(node):
        return (not ordered or sorted(node) == list(node)) and (not unique or len(set(node)) == len(node))

    def valid(node):
        return node not in vectors and node not in models
    expected = [v for v in itertools.product(*(range(n) for n in numbers))
                if all(allowed(v[:d]) and valid(v[:d]) for d in range(1, len(v) + 1))]
    found = [m.vector for m in generator.generate(sorted_nodes=ordered, unique_nodes=unique)]
    expect(found == expected, lambda: f"{numbers}, without {vectors} {models}, sorted {ordered}, unique {unique}: {found}, "
                                      f"expected {expected}")
    expect(len(set(generator.visited)) == len(generator.visited), "a node is visited twice")
    for node in generator.visited:
        expect(all(valid(node[:d]) for d in range(1, len(node))), lambda: f"{node}, below a node that is not valid, is visited")
    if len(expected) > 1 and len(expected) < len(list(itertools.product(*(range(n) for n in numbers)))):
        ctx.hit("some are not valid", f"sorted {ordered} unique {unique}")


@st.composite
def trees(draw):
    numbers, nodes, level = {}, [()], [()]
    for _ in range(draw(st.integers(0, 4))):
        below = []
        for node in level:
            if len(nodes) < 30:
                numbers[node] = draw(st.integers(0, 3))
                below += [node + (i,) for i in range(numbers[node])]
        nodes += below
        level = below
    forbidden = draw(st.lists(st.sampled_from(nodes), max_size=5))
    return numbers, forbidden[::2], forbidden[1::2]


def judge_free(case, ctx):
    numbers, vectors, models = case
    generator = Free(numbers, set(vectors), set(models))
    expected = []

    def explore(node):
        if node in vectors or node in models:
            return
        if not numbers.get(node, 0):
            expected.append(node)
        for i in range(numbers.get(node, 0)):
            explore(node + (i,))
    explore(())
    found = [m.vector for m in generator.generate()]
    expect(found == expected, lambda: f"{numbers} without {vectors} {models}: {found}, expected {expected}")
    expect(len(set(generator.visited)) == len(generator.visited), "a node is visited twice")
    if len(expected) > 1:
        ctx.hit("all valid" if not vectors + models else "some are not valid")


# --- Graphs ----------------------------------------------------------------------------------------------------------

@st.composite
def digraphs(draw):
    size = draw(st.integers(1, 7))
    order = draw(st.permutations(range(size)))
    edges = draw(st.lists(st.tuples(st.integers(0, size - 1), st.integers(0, size - 1)), max_size=12, unique=True))
    if draw(st.integers(0, 4)):
        edges = [(min(e), max(e)) for e in edges if e[0] != e[1]]
    return list(order), [(order[a], order[b]) for a, b in edges]


def judge_graph(case, ctx):
    nodes, edges = case
    graph = nx.DiGraph()
    graph.add_nodes_from(nodes)
    graph.add_edges_from(edges)
    after = {n: [b for a, b in graph.edges if a == n] for n in nodes}

    def cyclic(node, path):
        return any(n in path or cyclic(n, path | {n}) for n in after[node])
    loops = any(cyclic(n, {n}) for n in nodes)
    try:
        order = explore_tree_from_leaves(graph)
    except NotImplementedError:
        expect(loops, "a graph without cycle is refused")
        ctx.hit("cycle")
        return
    expect(not loops, "a graph with a cycle is not refused")
    expect(sorted(order) == sorted(nodes), lambda: f"nodes {order}")
    place = {n: i for i, n in enumerate(order)}
    expect(all(place[b] < place[a] for a, b in edges), lambda: f"{order} does not go from leaves to top: {edges}")

    def longest(node, end):
        if node == end:
            return 1
        lengths = [longest(n, end) for n in after[node]]
        lengths = [n for n in lengths if n]
        return 1 + max(lengths) if lengths else 0

    def judge_path(path, start, end):
        expect(path[0] == start and path[-1] == end and all(p in graph.edges for p in zip(path, path[1:])),
               lambda: f"{path} is not a path from {start} to {end}")
        expect(len(path) == longest(start, end), lambda: f"{path} is not the longest from {start} to {end}: {edges}")
    pairs = [(a, b) for a in nodes for b in nodes if a != b and longest(a, b)]
    for start, end in pairs:
        judge_path(get_longest_path(graph, start, end), start, end)
    half = len(nodes) // 2
    paths = get_paths_from_to(graph, nodes[:half], nodes[half:])
    expect([(p[0], p[-1]) for p in paths] == [p for p in pairs if p[0] in nodes[:half] and p[1] in nodes[half:]],
           lambda: f"paths {paths}")
    for path in paths:
        judge_path(path, path[0], path[-1])
    if len(pairs) > 2:
        ctx.hit("paths")


QUICK = 4
SUBS = [
    Sub("regular trees", regulars(), judge_regular, quick=600, thorough=20000, shards=2,
        rule="some leaves are generated and some are not"),
    Sub("trees", trees(), judge_free, quick=800, thorough=20000, shards=2, rule="two leaves or more"),
    Sub("graphs", digraphs(), judge_graph, quick=500, thorough=10000, shards=2, rule="a cycle or three pairs of linked nodes"),
]
