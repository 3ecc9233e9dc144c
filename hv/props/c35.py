from hv import strat as st

from .. import gen
from ..build import build_graph
from ..core import Discard, ensure, sut
from ..model import M, Gr, check_distinct_siblings, check_links, compare_graph, graph_nodes, node_fkey
from ..util import graph_labels

EXAMPLES = {"quick": 19200, "thorough": 90000}
RULE = (
    "random enumerated trees, forests and DAGs over few names, so that same-frame siblings and roots occur at "
    "several levels; oracle: least equivalence merging same-frame roots and same-frame children of merged "
    "parents; non-trivial: some nodes are merged below merged parents, or 3 or more into one"
)
ASSUMPTIONS = ["graphs whose merge would close a cycle are excluded (counted)"]


@st.composite
def strategy(draw, tier):
    return {
        "graph": draw(gen.graphs(max_nodes=14 if tier == "thorough" else 10, unique=False,
                                 names=gen.NAMES[: draw(gen.weighted((1, 2), (2, 4), (3, 3), (5, 1)))],
                                 styles=("plain", "plain", "plain", "notype", "mixed"),
                                 shapes=("tree", "forest", "forest", "dag", "dag"))),
        "mode": draw(st.sampled_from(["normalize", "normalize", "find+merge"])),
    }


def check(spec, case):
    m = M.of(spec["graph"])
    graph_labels(m, case)
    gr = Gr(dict(enumerate(m.frames)), {(p, i) for i in range(m.n) for p in m.parents[i]}, m.roots)
    merged, rep = gr.merged()
    if not merged.acyclic():
        raise Discard("merge would close a cycle")
    classes = {}
    for i in range(m.n):
        classes.setdefault(rep[i], set()).add(i)
    big = [c for c in classes.values() if len(c) > 1]
    cascade = any(len({p for x in c for p in m.parents[x]}) > 1 for c in big)
    case.label("no duplicates" if not big else "cascade" if cascade else "merge")
    case.nt(cascade or any(len(c) > 2 for c in big))
    with sut("building the graph"):
        graph, nodes = build_graph(spec["graph"])
        before = {id(n): (sorted(id(c) for c in n.children), sorted(id(p) for p in n.parents), n._hatchet_nid) for n in nodes}
        roots = sorted(id(r) for r in graph.roots)
    with sut("normalize"):
        if spec["mode"] == "normalize":
            mapping = graph.normalize()
        else:
            mapping = graph.find_merges()
            ensure({id(n): (sorted(id(c) for c in n.children), sorted(id(p) for p in n.parents), n._hatchet_nid)
                    for n in nodes} == before, "find_merges changed the graph")
            graph.merge_nodes(mapping)
    check_links(graph, "normalized graph")
    check_distinct_siblings(graph, "normalized graph")
    paths = merged.paths()
    compare_graph(graph, [paths[k] for k in merged.frame], "normalized graph")
    live = {id(n): n for n in graph_nodes(graph)}
    ensure(set(live) <= set(before), "normalize created new nodes")
    survivors = {}
    for i, n in enumerate(nodes):
        ensure(node_fkey(n) == m.frames[i], "normalize changed a frame")
        if id(n) in live:
            ensure(rep[i] not in survivors, "two same-call-path nodes %s survive", n)
            survivors[rep[i]] = n
    for i, n in enumerate(nodes):
        target = mapping.get(n, n)
        ensure(id(target) in live, "%s is mapped to %s, which is not in the graph", n, target)
        ensure(target is survivors[rep[i]], "%s is mapped to another call path's node", n)
    for k in mapping:
        ensure(id(k) in before, "the mapping holds a node that is not in the graph")
    if not big:
        ensure(sorted(id(r) for r in graph.roots) == roots
               and {id(n): (sorted(id(c) for c in n.children), sorted(id(p) for p in n.parents), n._hatchet_nid)
                    for n in nodes} == before, "a graph without duplicates is changed")
        ensure(all(a is b for a, b in mapping.items()), "a graph without duplicates gives merges %r", mapping)
    with sut("normalize again"):
        again = graph.normalize()
    ensure(all(a is b for a, b in again.items()), "normalizing twice merges again: %r", again)
