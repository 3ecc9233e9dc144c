from hv import strat as st

from .. import gen
from ..build import build_gf, build_graph, row_name, snap
from ..core import Discard, ensure, is_missing, sut
from ..model import (M, Gr, check_distinct_siblings, check_links, compare_graph, graph_nodes, node_fkey,
                     canon_graph, paths_to_rows)
from ..util import check_rows, rowmap

EXAMPLES = {"quick": 6400, "thorough": 60000}
RULE = (
    "pairs of related random graphs (edits of one graph: nodes dropped, added, renamed, edges added and "
    "removed) or unrelated ones; oracle: the quotient of the disjoint union by 'same call path'; half of the "
    "cases unify GraphFrames over them; non-trivial: both sides have a call path the other lacks and some "
    "non-root call path is common"
)
ASSUMPTIONS = [
    "siblings have distinct frames on each side",
    "pairs whose merge would close a cycle are excluded (counted)",
    "where the sides share nodes differently, merging them may add call paths; then the quotient itself is the oracle",
]


@st.composite
def strategy(draw, tier):
    n = 12 if tier == "thorough" else 8
    if draw(st.booleans()):
        a, b = draw(gen.graph_pairs(n))
        return {"kind": "graph", "a": a, "b": b}
    a, b = draw(gen.gframe_pairs(n, kinds=gen.ANY_INDEX, same_index=draw(st.booleans())))
    if a["levels"] and draw(gen.weighted((True, 1), (False, 5))):
        # the right has no rank/thread levels
        b = draw(gen.gframes(graph=b["graph"], exc=a["exc"], inc=a["inc"], text=a["text"], kinds=[()]))
    return {"kind": "gf", "a": a, "b": b}


def pushout(ma, mb):
    frame, edges, roots = {}, set(), set()
    for s, m in (("s", ma), ("o", mb)):
        for i in range(m.n):
            frame[(s, i)] = m.frames[i]
            for p in m.parents[i]:
                edges.add(((s, p), (s, i)))
        roots |= {(s, r) for r in m.roots}
    return Gr(frame, edges, roots).merged()


def check(spec, case):
    gspec = [spec["a"], spec["b"]] if spec["kind"] == "graph" else [spec["a"]["graph"], spec["b"]["graph"]]
    ma, mb = M.of(gspec[0]), M.of(gspec[1])
    merged, rep = pushout(ma, mb)
    if not merged.acyclic():
        raise Discard("merge would close a cycle")
    paths = merged.paths()
    pa, pb = ma.all_paths(), mb.all_paths()
    allp = set().union(*paths.values())
    compatible = allp == pa | pb and len({rep[("s", i)] for i in range(ma.n)}) == ma.n and len(
        {rep[("o", i)] for i in range(mb.n)}) == mb.n
    dag = not (ma.is_forest() and mb.is_forest())
    case.label("dag" if dag else "forest", "compatible" if compatible else "conflicting sharing", spec["kind"])
    case.nt(bool(pa - pb) and bool(pb - pa) and any(len(p) > 1 for p in pa & pb))

    def verify_union(u, lookup, na, nb, old):
        check_links(u, "union")
        check_distinct_siblings(u, "union")
        compare_graph(u, [paths[k] for k in merged.frame], "union")
        if compatible:
            got = set().union(*canon_graph(u).values())
            ensure(got == pa | pb, "union has other call paths than its sides")
        canon = canon_graph(u)
        live = {id(x) for x in graph_nodes(u)}
        ensure(not live & old, "union reuses nodes of its operands")
        for s, nodes in (("s", na), ("o", nb)):
            for i, x in enumerate(nodes):
                y = lookup(x)
                ensure(y is not None and id(y) in live, "%s is mapped to %r, not a node of the union", x, y)
                ensure(node_fkey(y) == node_fkey(x), "%s is mapped to %s", x, y)
                ensure(canon[id(y)] == paths[rep[(s, i)]], "%s is mapped to a node with other call paths", x)
        seq = [x._hatchet_nid for x in u.traverse()]
        ensure(seq == list(range(len(seq))), "union is not enumerated: %r", seq)
        ensure({id(x.frame) for x in graph_nodes(u)}.isdisjoint({id(x.frame) for x in na + nb}), "union shares frame objects")

    if spec["kind"] == "graph":
        with sut("building graphs"):
            ga, na = build_graph(gspec[0])
            gb, nb = build_graph(gspec[1])

        def picture(g, nodes):
            return ([id(r) for r in g.roots], [(n._hatchet_nid, n._depth, node_fkey(n), [id(c) for c in n.children],
                                                [id(p) for p in n.parents]) for n in nodes])

        before = picture(ga, na), picture(gb, nb)
        mapping = {}
        with sut("Graph.union"):
            u = ga.union(gb, mapping)
            u2 = ga.union(gb)
            u3 = gb.union(ga)
        ensure((picture(ga, na), picture(gb, nb)) == before, "union changed an operand")
        verify_union(u, lambda x: mapping.get(id(x)), na, nb, {id(x) for x in na + nb})
        for v, what in ((u2, "union without a mapping"), (u3, "union the other way round")):
            compare_graph(v, [paths[k] for k in merged.frame], what)
        ensure(u == u2 and u == u3, "unions of the same graphs differ")
        with sut("Graph.union of a graph with itself"):
            w = ga.union(ga)
        compare_graph(w, [ma.paths(i) for i in range(ma.n)], "union of a graph with itself")
        return

    gfa, na = build_gf(spec["a"])
    gfb, nb = build_gf(spec["b"])
    sa, sb = snap(gfa), snap(gfb)
    ga, gb = gfa.graph, gfb.graph
    vals = [rowmap(spec["a"]), rowmap(spec["b"])]
    if not compatible:
        # several rows may then belong to one node
        keys = [[(rep[(s, i)], t) for i, t in v] for s, v in zip("so", vals)]
        if any(len(set(k)) < len(k) for k in keys):
            raise Discard("rows of different nodes fall together (conflicting sharing)")
    with sut("unify"):
        r = gfa.unify(gfb)
    ensure(r is None or r is gfa, "unify returned %r", r)
    ensure(gfa.graph is gfb.graph, "unified GraphFrames have different graphs")
    ensure(gfa.graph is not ga and gfa.graph is not gb, "unify kept an operand's graph")
    u = gfa.graph
    check_links(u, "unified graph")
    check_distinct_siblings(u, "unified graph")
    compare_graph(u, [paths[k] for k in merged.frame], "unified graph")
    for g, s, nodes, x in ((ga, sa, na, "a"), (gb, sb, nb, "b")):
        for n in nodes:
            b = s["nodes"][id(n)]
            ensure(b == (n._hatchet_nid, n._depth, node_fkey(n), [id(c) for c in n.children], [id(p) for p in n.parents]),
                   "unify changed the old graph's node %s", n)
    rows = [paths_to_rows(gfa, "left after unify"), paths_to_rows(gfb, "right after unify")]
    live = {id(n) for n in graph_nodes(u)}
    for gf, what in ((gfa, "left"), (gfb, "right")):
        ensure(all(id(n) in live for n in gf.dataframe.index.get_level_values("node")),
               "%s: rows refer to copies of the graph's nodes", what)
    cols = spec["a"]["exc"] + spec["a"]["inc"] + spec["a"]["text"]
    want = []
    for s, sp, v in (("s", spec["a"], vals[0]), ("o", spec["b"], vals[1])):
        want.append({(paths[rep[(s, i)]], t): dict({c: x[c] for c in cols}, name=row_name(sp["graph"]["frames"][i]))
                     for (i, t), x in v.items()})
    check_rows(rows[1], want[1], "right after unify")
    extra = {k: v for k, v in rows[0].items() if k not in want[0]}
    check_rows({k: v for k, v in rows[0].items() if k in want[0]}, want[0], "left after unify")
    own = {k[0] for k in want[0]}
    added = {k: v for k, v in want[1].items() if k[0] not in own}
    metrics = spec["a"]["exc"] + spec["a"]["inc"]
    same_levels = spec["a"]["levels"] == spec["b"]["levels"]
    if same_levels:
        ensure(set(extra) == set(added), "left after unify: rows for call paths only on the right differ")
    else:
        # the added rows cannot be labelled with levels the right does not have
        case.label("different index levels")
        ensure({k[0] for k in extra} == {k[0] for k in added},
               "left after unify: call paths only on the right differ")
    for k, v in extra.items() if same_levels else []:
        ensure(all(is_missing(v[c]) for c in metrics), "left after unify: made-up values for a call path it lacks")
        ensure(all(v[c] == added[k][c] for c in spec["a"]["text"] + ["name"]), "left after unify: other text columns")
    for gf, s, sp in ((gfa, sa, spec["a"]), (gfb, sb, spec["b"])):
        ensure(list(gf.dataframe.index.names) == s["index_names"], "unify changed the index names")
        ensure(gf.exc_metrics == s["exc"] and gf.inc_metrics == s["inc"] and gf.default_metric == s["default"]
               and gf.metadata == s["metadata"], "unify changed metric lists or metadata")
    with sut("unify again"):
        gfa.unify(gfb)
    ensure(gfa.graph is u and gfb.graph is u, "unifying unified GraphFrames changes their graph")
