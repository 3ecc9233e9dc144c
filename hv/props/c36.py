from hv import strat as st

from .. import gen
from ..build import Frame, Graph, GraphFrame, Node
from ..core import ensure, expect_raises, sut
from ..model import check_links
from ..rd import usable

EXAMPLES = {"quick": 12000, "thorough": 60000}
RULE = (
    "nested lists and tuples spelling trees, forests and DAGs of 1-10 nodes: names and Node objects as leaves and as "
    "heads, shared nodes whose children are given at any of their occurrences (or spread over several), equal names; "
    "malformed lists; non-trivial: a shared node or equally named siblings"
)
ASSUMPTIONS = ["a node is listed once below each parent", "lists are acyclic and not empty"]
NAMES = ["a", "b", "c", "é", "", "x y", "tuple"]
BAD = {"int": 5, "none": None, "dict": {"a": 1}, "float": 1.5}


@st.composite
def strategy(draw, tier):
    n = draw(st.integers(1, 14 if tier == "thorough" else 10))
    dag = draw(gen.weighted((True, 2), (False, 1)))
    forest = draw(gen.weighted((False, 2), (True, 1)))
    names = NAMES[: draw(st.integers(1, len(NAMES)))]
    parents = [[]]
    for i in range(1, n):
        ps = [draw(st.integers(0, i - 1))]
        if forest and draw(gen.weighted((True, 1), (False, 3))):
            ps = []
        elif dag and draw(gen.weighted((True, 1), (False, 2))):
            q = draw(st.integers(0, i - 1))
            ps += [] if q in ps else [q]
        parents.append(ps)
    return {
        "names": [gen.pick(draw, names) for _ in range(n)], "parents": parents,
        "obj": [draw(gen.weighted((False, 2), (True, 1))) for _ in range(n)],
        "tuple": [draw(gen.weighted((False, 3), (True, 1))) for _ in range(n)],
        "wrap": [draw(st.booleans()) for _ in range(n)],
        # the occurrence of the parent at which a child is listed
        "at": [draw(st.integers(0, 3)) for _ in range(n)],
        "bad": draw(gen.weighted((None, 6), ("leaf", 1), ("head", 1), ("root", 1))), "kind": draw(st.sampled_from(sorted(BAD))),
        "where": draw(st.integers(0, n - 1)),
    }


def check(spec, case):
    names, parents = spec["names"], spec["parents"]
    n = len(names)
    kids = [[j for j in range(n) if i in parents[j]] for i in range(n)]
    roots = [i for i in range(n) if not parents[i]]
    shared = [len(p) > 1 for p in parents]
    obj = {i: Node(Frame(name=names[i])) for i in range(n) if spec["obj"][i] or shared[i]}
    times = {i: 0 for i in range(n)}
    listed = {i: [] for i in range(n)}  # children in the order in which they are listed
    bad = spec["bad"] and BAD[spec["kind"]]

    def spell(i):
        """One occurrence of node i."""
        t = times[i]
        times[i] += 1
        total = max(1, len(parents[i]))
        mine = [c for c in kids[i] if spec["at"][c] % total == t]
        head = obj.get(i, names[i])
        if spec["bad"] == "head" and i == spec["where"] and t == 0:
            head = bad
        if not mine and parents[i] and not (spec["bad"] and i == spec["where"]) and not spec["wrap"][i]:
            return head
        out = [head]
        for c in mine:
            out.append(spell(c))
            listed[i].append(c)
        if spec["bad"] == "leaf" and i == spec["where"] and t == 0:
            out.append(bad)
        return tuple(out) if spec["tuple"][i] else out

    args = [spell(r) for r in roots]
    if spec["bad"]:
        case.label("bad " + spec["bad"])
        if spec["bad"] == "root":
            args.insert(spec["where"] % (len(args) + 1), "abc" if spec["kind"] == "none" else bad)
        expect_raises("from_lists(*%.200r)" % (args,), ValueError, lambda: Graph.from_lists(*args))
        return
    twins = any(len({names[c] for c in ks}) < len(ks) for ks in kids)
    case.nt(any(shared) or twins)
    case.label(*["shared node"] * any(shared), *["equal siblings"] * twins, *["forest"] * (len(roots) > 1))
    with sut("GraphFrame.from_lists"):
        gf = GraphFrame.from_lists(*args)
    check_links(gf.graph, "from_lists")
    seen = {}

    def walk(node, i):
        ensure(node.frame == Frame(name=names[i]), "node %d is %r, expected name %r", i, node.frame, names[i])
        if i in obj:
            ensure(node is obj[i], "node %d is not the given Node", i)
        if i in seen:
            ensure(seen[i] is node, "node %d is there twice", i)
            return
        seen[i] = node
        ensure(len(node.children) == len(kids[i]), "node %d has children %r, expected %r", i, node.children, [names[c] for c in listed[i]])
        ensure(len(node.parents) == len(parents[i]), "node %d has parents %r, expected %r", i, node.parents, [names[p] for p in parents[i]])
        for child, c in zip(node.children, listed[i]):
            ensure(any(p is node for p in child.parents), "node %d is not a parent of its child %r", i, child)
            walk(child, c)

    ensure(len(gf.graph.roots) == len(roots), "roots are %r, expected %r", gf.graph.roots, [names[r] for r in roots])
    for node, r in zip(gf.graph.roots, roots):
        walk(node, r)
    ensure(len({id(v) for v in seen.values()}) == n, "distinct nodes are merged")
    ensure(len(gf.graph) == n and len(gf.dataframe) == n, "%d nodes and %d rows, expected %d", len(gf.graph), len(gf.dataframe), n)
    desc = {}
    for i in reversed(range(n)):
        desc[i] = {i}.union(*[desc[c] for c in kids[i]])
    rows = {id(node): row for node, row in zip(gf.dataframe.index, gf.dataframe.to_dict("records"))}
    for i, node in seen.items():
        row = rows.get(id(node))
        ensure(row == {"time": 1.0, "name": names[i], "time (inc)": float(len(desc[i]))}, "row of node %d is %r, expected %d nodes below",
               i, row, len(desc[i]))
    ensure(gf.exc_metrics == ["time"] and gf.inc_metrics == ["time (inc)"], "metrics are %r, %r", gf.exc_metrics, gf.inc_metrics)
    usable(gf, "from_lists")
