from hv import strat as st

from .. import gen
from ..build import build_graph
from ..core import ensure, expect_raises, sut
from ..model import M
from ..util import graph_labels

EXAMPLES = {"quick": 8000, "thorough": 80000}
RULE = (
    "random trees, forests and DAGs (also with same-frame siblings), nodes created and attached in random "
    "order with arbitrary previous ids, optionally with a given node order; every node is used as a start; "
    "non-trivial: at least 4 nodes and some node with two children or two parents"
)
ASSUMPTIONS = ["the order among siblings with equal frames is left open"]


@st.composite
def strategy(draw, tier):
    g = draw(gen.graphs(max_nodes=14 if tier == "thorough" else 10, unique=draw(gen.weighted((True, 2), (False, 1))),
                        names=gen.NAMES[: draw(st.integers(1, 8))]))
    n = len(g["frames"])
    return {
        "graph": g,
        "order": draw(st.booleans()) and draw(st.permutations(range(n))) or None,
        "scale": draw(st.integers(1, 3)),
        "nids": draw(st.sampled_from(["keep", "enumerated", "shuffled"])),
        "perm": draw(st.permutations(range(n))),
        "attrs": draw(st.sampled_from(["name", "type", "line", ["name"], ["name", "type"], ["line", "file", "name"], ["nope"]])),
        "tupleattrs": draw(st.booleans()),
    }


def check(spec, case):
    m = M.of(spec["graph"])
    graph_labels(m, case)
    with sut("building the graph"):
        graph, nodes = build_graph(spec["graph"], enumerate_=False)
    idx = {id(x): i for i, x in enumerate(nodes)}
    if spec["nids"] == "enumerated":
        graph.enumerate_traverse()
    elif spec["nids"] == "shuffled":
        for i, x in enumerate(nodes):
            x._hatchet_nid = spec["perm"][i] * 2 - 3
            x._depth = 5

    case.nt(m.n >= 4 and any(len(m.children[i]) > 1 or len(m.parents[i]) > 1 for i in range(m.n)))
    dup = any(
        len({m.frames[c] for c in lst}) < len(lst) for lst in [m.roots] + m.children
    )
    case.label("same-frame siblings" if dup else "unique siblings")

    def dfs(starts, order, key):
        seen, out = set(), []

        def go(i):
            if i in seen:
                return
            seen.add(i)
            if order == "pre":
                out.append(i)
            for c in sorted(m.children[i], key=key):
                go(c)
            if order == "post":
                out.append(i)

        for r in sorted(starts, key=key):
            go(r)
        return out

    def verify(seq, starts, order, what, key=lambda i: m.frames[i], exact=not dup):
        ensure(all(id(x) in idx for x in seq), "%s: yielded something that is not a node", what)
        s = [idx[id(x)] for x in seq]
        reach = set()
        for r in starts:
            reach |= m.desc(r)
        ensure(len(s) == len(set(s)), "%s: visits a node twice: %r", what, [str(x) for x in seq])
        ensure(set(s) == reach, "%s: visits %d of %d reachable nodes", what, len(s), len(reach))
        pos = {i: k for k, i in enumerate(s)}
        for i in reach:
            ps = [p for p in m.parents[i] if p in reach]
            if order == "post":
                ensure(all(pos[p] > pos[i] for p in ps), "%s: a parent of %s comes before it", what, nodes[i])
            elif i not in starts:
                ensure(any(pos[p] < pos[i] for p in ps), "%s: all parents of %s come after it", what, nodes[i])
        if exact:
            want = dfs(starts, order, key)
            ensure(s == want, "%s: order is %r, expected %r", what,
                   [str(nodes[i]) for i in s], [str(nodes[i]) for i in want])
        else:
            for lst in [list(starts)] + [m.children[i] for i in reach]:
                own = [c for c in lst if not (set(m.parents[c]) & reach) or len(m.parents[c]) == 1]
                got = [m.frames[c] for c in sorted(own, key=pos.get)]
                ensure(got == sorted(got), "%s: siblings out of frame order: %r", what, got)
        return s

    attrs = spec["attrs"]
    at = tuple(attrs) if spec["tupleattrs"] and isinstance(attrs, list) else attrs

    def val(i):
        d = dict(m.frames[i])
        return tuple(d.get(a) for a in attrs) if isinstance(attrs, list) else d.get(attrs)

    for order in ("pre", "post"):
        with sut("Graph.traverse(%s)" % order):
            visited = {}
            seq = list(graph.traverse(order=order, visited=visited))
            vals = list(graph.traverse(order=order, attrs=at))
            dflt = list(graph.traverse()) if order == "pre" else seq
        s = verify(seq, m.roots, order, "Graph.traverse(%s)" % order)
        ensure([id(x) for x in dflt] == [id(x) for x in seq], "the default order is not pre-order")
        ensure(vals == [val(i) for i in s], "Graph.traverse(%s, attrs=%r): %r", order, at, vals)
        want = {id(nodes[i]): max(1, len(m.parents[i])) for i in range(m.n)}
        ensure(visited == want, "Graph.traverse(%s): visited counts %r", order, list(visited.values()))
        for i in range(m.n):
            with sut("Node.traverse(%s)" % order):
                seq = list(nodes[i].traverse(order=order))
                vals = list(nodes[i].traverse(order=order, attrs=at))
                seen = {id(nodes[k]): 1 for k in m.desc(i) if k != i and k % 2}
                part = list(nodes[i].traverse(order=order, visited=seen))
            s = verify(seq, [i], order, "Node.traverse(%s)" % order)
            ensure(vals == [val(k) for k in s], "Node.traverse(%s, attrs=%r)", order, at)
            ensure(not any(idx[id(x)] % 2 and idx[id(x)] != i for x in part),
                   "Node.traverse visits nodes that were marked as visited")
    for bad in ("in", "", None, "PRE"):
        expect_raises("Graph.traverse(order=%r)" % bad, ValueError, lambda: list(graph.traverse(order=bad)))
        expect_raises("Node.traverse(order=%r)" % bad, ValueError, lambda: list(nodes[0].traverse(order=bad)))

    # paths
    for i in range(m.n):
        chains = [[i]]
        done = []
        while chains:
            c = chains.pop()
            if not m.parents[c[0]]:
                done.append(tuple(c))
            for p in m.parents[c[0]]:
                chains.append([p] + c)
        with sut("Node.paths()"):
            got = nodes[i].paths()
        ensure(all(isinstance(p, tuple) for p in got), "paths() holds non-tuples")
        g = [tuple(idx[id(x)] for x in p) for p in got]
        ensure(sorted(g) == sorted(done), "paths() of %s are %r, expected %r", nodes[i], g, done)
        if len(done) == 1:
            with sut("Node.path()"):
                p = nodes[i].path()
            ensure(tuple(idx[id(x)] for x in p) == done[0], "path() of %s is %r", nodes[i], p)
        else:
            from hatchet.node import MultiplePathError

            expect_raises("path() of a node with %d paths" % len(done), MultiplePathError, nodes[i].path)

    with sut("len and is_tree"):
        ensure(len(graph) == m.n, "len(graph) is %d, expected %d", len(graph), m.n)
        ensure(bool(graph.is_tree()) == m.is_tree(), "is_tree() is %r", graph.is_tree())

    # enumeration
    def numbered(seq, what):
        for k, i in enumerate(seq):
            ensure(nodes[i]._hatchet_nid == k, "%s: node number %d of the traversal has id %r", what, k, nodes[i]._hatchet_nid)
        if m.is_forest():
            for i in range(m.n):
                ensure(nodes[i]._depth == m.depth(i), "%s: depth of %s is %r, expected %d", what, nodes[i], nodes[i]._depth, m.depth(i))

    with sut("enumerate_traverse"):
        graph.enumerate_traverse()
        seq = [idx[id(x)] for x in graph.traverse()]
    numbered(seq, "enumerate_traverse")
    if spec["order"]:
        case.label("node order")
        for i, x in enumerate(nodes):
            x._hatchet_nid = spec["order"][i] * spec["scale"]
            x._depth = -1
        graph.node_ordering = True
        key = lambda i: spec["order"][i]  # noqa: E731
        for order in ("pre", "post"):
            with sut("Graph.node_order_traverse(%s)" % order):
                visited = {}
                seq = list(graph.node_order_traverse(order=order, visited=visited))
                vals = list(graph.node_order_traverse(order=order, attrs=at))
            s = verify(seq, m.roots, order, "Graph.node_order_traverse(%s)" % order, key=key, exact=True)
            ensure(vals == [val(i) for i in s], "node_order_traverse(attrs=%r)", at)
            ensure(visited == {id(nodes[i]): max(1, len(m.parents[i])) for i in range(m.n)}, "node_order_traverse: visited counts")
            for i in range(m.n):
                with sut("Node.node_order_traverse(%s)" % order):
                    seq = list(nodes[i].node_order_traverse(order=order))
                verify(seq, [i], order, "Node.node_order_traverse(%s)" % order, key=key, exact=True)
        for bad in ("in", None):
            expect_raises("node_order_traverse(order=%r)" % bad, ValueError, lambda: list(graph.node_order_traverse(order=bad)))
        want = dfs(m.roots, "pre", key)
        with sut("enumerate_traverse with node order"):
            graph.enumerate_traverse()
        numbered(want, "enumerate_traverse with node order")
