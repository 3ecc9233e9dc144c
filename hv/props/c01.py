from hv import strat as st

from .. import gen
from ..build import assert_unchanged, build_gf, snap
from ..core import Discard, ensure, sut
from ..model import M, check_distinct_siblings, check_links, compare_graph, node_fkey, paths_to_rows
from ..util import OneOf, check_rows, derived_inc, graph_labels, rowmap, squash_model, sum_min1

EXAMPLES = {"quick": 6000, "thorough": 40000}
RULE = (
    "random tree/forest/DAG GraphFrames (single and multi index, NaN and integer metrics, sparse "
    "rank rows) and a random non-empty subset of rows kept by filter or direct construction; "
    "non-trivial: at least one removed node has a kept descendant or kept nodes get merged"
)
ASSUMPTIONS = [
    "cases where merging same-frame siblings of a DAG would close a cycle are excluded (counted)",
]


@st.composite
def strategy(draw, tier):
    big = tier == "thorough"
    names = gen.NAMES[: draw(gen.weighted((2, 3), (3, 3), (5, 1), (10, 1)))]
    # some larger graphs with many shared nodes, most of them removed
    tangled = draw(gen.weighted((False, 5), (True, 1)))
    more = {"min_nodes": 6, "shapes": ("dag",)} if tangled else {}
    spec = draw(gen.gframes(max_nodes=12 if big or tangled else 9, **more, kinds=gen.ANY_INDEX, sparse=draw(st.booleans()), names=names,
                            unique=draw(gen.weighted((True, 2), (False, 1)))))
    n = len(spec["graph"]["frames"])
    if draw(gen.weighted((True, 1), (False, 4))):
        spec["graph"]["node_order"] = draw(st.permutations(range(n)))
    dens = draw(gen.weighted(("half", 3), ("few", 6 if tangled else 2), ("most", 2)))
    w = {"half": [True, False], "few": [True, False, False, False], "most": [True, True, True, False]}[dens]
    keep = [draw(st.sampled_from(w)) for _ in range(n)]
    spec["keep_rows"] = []
    perrow = bool(spec["levels"]) and draw(st.booleans())
    for k, (i, idx, _) in enumerate(spec["rows"]):
        if keep[i] and (not perrow or draw(gen.weighted((True, 3), (False, 1)))):
            spec["keep_rows"].append(k)
    if not spec["keep_rows"]:
        spec["keep_rows"] = [draw(st.integers(0, len(spec["rows"]) - 1))]
    spec["mode"] = draw(st.sampled_from(["filter_squash", "filter_then_squash", "direct"]))
    spec["update"] = draw(st.booleans())
    return spec


def check(spec, case):
    m = M.of(spec["graph"])
    kept_rows = {(spec["rows"][k][0], tuple(spec["rows"][k][1])) for k in spec["keep_rows"]}
    kept = {i for i, _ in kept_rows}
    gr = squash_model(m, kept)
    merged, rep = gr.merged()
    graph_labels(m, case)
    if not merged.acyclic():
        raise Discard("merge would close a cycle")
    ismerge = len(merged.frame) < len(gr.frame)
    if ismerge:
        case.label("merge")
    bypass = any((u, v) in gr.edges and v not in m.children[u] for u, v in gr.edges) or any(
        r not in m.roots for r in gr.roots
    )
    if bypass:
        case.label("bypass")
    if any(len(m.parents[v]) > 1 for v in range(m.n) if v not in kept):
        case.label("removed shared node")
    if spec["levels"]:
        case.label("multiindex")
    case.nt(bypass or ismerge)

    gf, nodes = build_gf(spec)
    nid = {nodes[i]._hatchet_nid: i for i in range(m.n)}
    lv = spec["levels"]

    def pred(row):
        return (nid[row["node"]._hatchet_nid], tuple(int(row[x]) for x in lv)) in kept_rows

    update = spec["update"]
    before = snap(gf)
    if spec["mode"] == "filter_squash":
        with sut("filter(squash=True)"):
            out = gf.filter(pred, squash=True, update_inc_cols=update, num_procs=1)
        assert_unchanged(before, gf, "filter+squash")
    else:
        if spec["mode"] == "filter_then_squash":
            with sut("filter(squash=False)"):
                mid = gf.filter(pred, squash=False, num_procs=1)
        else:
            from hatchet import GraphFrame

            mask = [
                (nid[(t[0] if lv else t)._hatchet_nid], tuple(int(x) for x in (t[1:] if lv else ())))
                in kept_rows
                for t in gf.dataframe.index
            ]
            mid = GraphFrame(
                gf.graph, gf.dataframe[mask].copy(), list(gf.exc_metrics), list(gf.inc_metrics),
                gf.default_metric, gf.metadata,
            )
        msnap = snap(mid)
        with sut("squash"):
            out = mid.squash(update_inc_cols=update)
        assert_unchanged(msnap, mid, "squash")
        assert_unchanged(before, gf, "squash of a filtered frame")

    with sut("inspecting the squashed graph"):
        ensure(out.graph is not gf.graph, "squash returned the source graph")
        check_links(out.graph, "squashed graph")
        check_distinct_siblings(out.graph, "squashed graph")
        if "node_order" in spec["graph"]:
            ensure(out.graph.node_ordering, "squash forgot that the nodes have a recorded order")
            if m.is_forest() and not ismerge:
                case.label("recorded order")
                order = [node_fkey(n) for n in out.graph.node_order_traverse()]
                want = [node_fkey(n) for n in gf.graph.node_order_traverse() if nid[n._hatchet_nid] in kept]
                ensure(order == want, "squash reordered the nodes to %r, recorded order is %r", order, want)
        paths = merged.paths()
        compare_graph(out.graph, [paths[k] for k in merged.frame], "squashed graph")
        rows = paths_to_rows(out, "squashed GraphFrame")
    exp = {}
    vals = rowmap(spec)
    skip = set(derived_inc(spec["exc"])) if update else set()
    for (i, idx) in kept_rows:
        exp.setdefault((paths[rep[i]], idx), []).append(vals[(i, idx)])
    want = {}
    for key, parts in exp.items():
        d = {}
        for c in spec["exc"] + spec["inc"]:
            if c not in skip:
                d[c] = sum_min1([p[c] for p in parts])
        for c in spec["text"]:
            d[c] = OneOf(sorted({p[c] for p in parts}))
        want[key] = d
    check_rows(rows, want, "squashed GraphFrame")
    for c in spec["exc"]:
        tot = sum_min1([vals[r][c] for r in kept_rows])
        got = sum_min1([v[c] for v in rows.values()])
        ensure(
            tot == got or abs(tot - got) < 1e-6 * max(1, abs(tot)) or (tot != tot and got != got),
            "squash does not conserve the total of %r: %r -> %r", c, tot, got,
        )
    ensure(sorted(out.exc_metrics) == sorted(spec["exc"]), "squash changed exc_metrics to %r", out.exc_metrics)
    ensure(set(spec["inc"]) <= set(out.inc_metrics), "squash lost inclusive metrics: %r", out.inc_metrics)
    ensure(out.default_metric == gf.default_metric, "squash lost the default metric")
