import operator

from hv import strat as st

from .. import gen
from ..build import assert_unchanged, build_gf, row_name, snap
from ..core import ensure, sut
from ..model import M, check_links, graph_nodes, paths_to_rows
from ..util import check_rows, graph_labels, rowmap
from .c09 import pushout

EXAMPLES = {"quick": 4800, "thorough": 50000}
RULE = (
    "random GraphFrames (graphs of all shapes, 0-2 extra index levels, optionally a given node order), one to "
    "three non-mutating operations out of all that return or export something, then edits of the result by "
    "the in-place operations and (for copies) by hand; every operand is compared with a full snapshot taken "
    "before; non-trivial: at least two operations or a deep copy that is edited"
)
ASSUMPTIONS = ["edits by hand of shallow results (other than documented copies' lists and metadata) are out of scope"]

KINDS = [
    "filter", "filter_squash", "query", "query_squash", "squash", "copy", "deepcopy", "deepcopy", "add", "sub",
    "mul", "div", "op", "groupby", "tree", "dot", "flamegraph", "literal", "dict", "json", "graphcopy", "union",
    "engine", "show", "len",
]


@st.composite
def strategy(draw, tier):
    a, b = draw(gen.gframe_pairs(8 if tier == "thorough" else 6, nan=draw(st.booleans()),
                                 names=gen.NAMES[: draw(st.integers(2, 6))]))
    n = len(a["graph"]["frames"])
    if draw(gen.weighted((False, 3), (True, 1))):
        a["graph"]["node_order"] = draw(st.permutations(range(n)))
    return {
        "a": a,
        "b": b,
        "ops": [
            {"op": gen.pick(draw, KINDS), "k": draw(st.integers(0, 7)), "update": draw(st.booleans())}
            for _ in range(draw(st.integers(1, 3)))
        ],
        "edit": draw(st.integers(0, 3)),
        "side": draw(st.sampled_from(["source", "copy"])),
    }


def edit_everything(gf, k):
    """Change whatever a user can change of a GraphFrame, in place."""
    from hatchet.node import Node
    from hatchet.frame import Frame

    df = gf.dataframe
    for c in df.columns:
        df[c].values[:] = 9999 if df[c].dtype != object else "changed"
    df.iloc[0, 0] = 4321
    df["added"] = 1
    df.drop(df.index[-1], inplace=True)
    df.index.names = ["renamed"] + list(df.index.names[1:])
    gf.exc_metrics.append("added")
    gf.inc_metrics.insert(0, "added2")
    gf.metadata["extra"] = 1
    gf.metadata["nested"]["k"].append(3)
    gf.metadata["nested"]["z"] = 3
    gf.default_metric = "added"
    nodes = graph_nodes(gf.graph)
    x = Node(Frame(name="new"), nodes[k % len(nodes)])
    nodes[k % len(nodes)].add_child(x)
    gf.graph.roots.append(Node(Frame(name="newroot")))
    nodes[-1].frame.attrs["name"] = "changed"
    nodes[-1].frame.attrs["more"] = 3
    for n in nodes:
        n._hatchet_nid += 100
        n._depth += 7
    if nodes[0].children:
        nodes[0].children.pop()


def check(spec, case):
    m = M.of(spec["a"]["graph"])
    mb = M.of(spec["b"]["graph"])
    graph_labels(m, case)
    with sut("building"):
        gfa, na = build_gf(spec["a"])
        gfb, nb = build_gf(spec["b"])
        if "node_order" in spec["a"]["graph"]:
            case.label("node order")
    merged, rep = pushout(m, mb)
    conflict = not merged.acyclic() or any(
        len({rep[(s, i)] for i in range(q.n)}) < q.n for s, q in (("s", m), ("o", mb)))
    lv = spec["a"]["levels"]
    idx0 = tuple(gfa.dataframe.index[0][1:]) if lv else ()
    at = dict(zip(lv, idx0))
    dense = len({(r[0], tuple(r[1])) for r in spec["a"]["rows"] if tuple(r[1]) == idx0}) == m.n
    metric = spec["a"]["exc"][0]
    vals = rowmap(spec["a"])
    before_a, before_b = snap(gfa), snap(gfb)
    made = []
    for o in spec["ops"]:
        op, k, upd = o["op"], o["k"], o["update"]
        what = op
        cut = [v[metric] for v in vals.values() if v[metric] == v[metric]]
        limit = sorted(cut)[k % len(cut)] if cut else 0

        def pred(row):
            return not row[metric] < limit

        query = [["*", {"name": row_name(spec["a"]["graph"]["frames"][k % m.n])}], "*"]
        r = None
        with sut(what):
            if op in ("filter", "filter_squash"):
                if not cut:
                    continue
                r = gfa.filter(pred, squash=op == "filter_squash", update_inc_cols=upd, num_procs=1)
            elif op in ("query", "query_squash"):
                r = gfa.filter([("*", {"name": ".*"})] if k % 2 else ["*"], squash=op == "query_squash",
                               update_inc_cols=upd, multi_index_mode="any" if lv else "off")
            elif op == "engine":
                from hatchet.query import ObjectQuery

                q = ObjectQuery([("*", {"name": query[0][1]["name"].replace("(", ".")}), "*"], "any" if lv else "off")
                gfa.query_engine.apply(q, gfa.graph, gfa.dataframe)
                assert_unchanged(before_a, gfa, "QueryEngine.apply")
            elif op == "squash":
                r = gfa.squash(update_inc_cols=upd)
            elif op == "copy":
                r = gfa.copy()
            elif op == "deepcopy":
                r = gfa.deepcopy()
            elif op in ("add", "sub", "mul", "div", "op"):
                if conflict:
                    continue
                if op == "op":
                    op = ["add", "sub", "mul", "truediv"][k % 4]
                    r = getattr(operator, op)(gfa, gfb if k < 4 else gfa.copy())
                else:
                    r = getattr(gfa, op)(gfb if k % 3 else gfa if k == 3 else gfa.copy())
            elif op == "groupby":
                if lv or "module" not in spec["a"]["text"]:
                    continue
                r = gfa.groupby_aggregate(["module"][0], {c: "sum" for c in spec["a"]["exc"] + spec["a"]["inc"]})
            elif op == "tree":
                if dense:
                    gfa.tree(metric_column=metric, precision=k, expand_name=upd, **at)
            elif op == "dot":
                if dense:
                    gfa.to_dot(metric=metric, threshold=limit if upd else 0.0, **at)
            elif op == "flamegraph":
                if dense and m.is_forest() and len(cut) == len(vals):
                    gfa.to_flamegraph(metric=metric, **at)
            elif op == "literal":
                if dense:
                    gfa.to_literal(cat_columns=spec["a"]["text"] if upd else [], **at)
            elif op == "dict":
                gfa.to_dict()
            elif op == "json":
                gfa.to_json()
            elif op == "graphcopy":
                gfa.graph.copy()
            elif op == "union":
                gfa.graph.union(gfb.graph)
                if not conflict and merged.acyclic():
                    gfb.graph.union(gfa.graph)
            elif op == "show":
                gfa.show_metric_columns().append("x")
            elif op == "len":
                len(gfa.graph), gfa.graph.is_tree(), list(gfa.graph.traverse(order="post")), gfa.graph == gfb.graph
        case.label(what)
        assert_unchanged(before_a, gfa, what)
        assert_unchanged(before_b, gfb, what + " (right operand)")
        if r is not None:
            ensure(r is not gfa and r is not gfb, "%s returned its operand", what)
            ensure(r.dataframe is not gfa.dataframe, "%s returned the operand's dataframe", what)
            made.append((what, r))
    case.nt(len(made) >= 2)

    # in-place operations on the results must not reach the operands
    for what, r in made:
        if what == "deepcopy":
            continue
        with sut("in-place operations on the result of " + what):
            full = len(r.dataframe) == len({x._hatchet_nid for x in graph_nodes(r.graph)}) * max(1, len(r.dataframe.index.droplevel("node").unique()) if lv and r.dataframe.index.nlevels > 1 else 1)
            if spec["edit"] == 0:
                if set(r.inc_metrics) <= set(r.dataframe.columns) and full:
                    r.generate_exclusive_columns()
            elif spec["edit"] == 1:
                r.dataframe["added"] = 5
                r.dataframe = r.dataframe.assign(more=1)
                r.default_metric = "added"
            elif spec["edit"] == 2:
                r.drop_index_levels()
            if what == "copy":
                r.exc_metrics.append("zz")
                r.inc_metrics.append("zz (inc)")
                r.metadata["zz"] = 1
                r.dataframe["zz"] = 2
        if what == "copy":
            case.label("copy edited")
            assert_unchanged(before_a, gfa, "editing lists, metadata and columns of a copy")
        assert_unchanged(before_a, gfa, "changing the result of %s in place" % what)
        assert_unchanged(before_b, gfb, "changing the result of %s in place" % what)

    deep = [r for w, r in made if w == "deepcopy"]
    if deep:
        case.nt()
        case.label("deepcopy " + spec["side"] + " edited")
        d = deep[0]
        check_links(d.graph, "deep copy")
        src = [(n._hatchet_nid, n._depth, str(n)) for n in sorted(na, key=lambda n: n._hatchet_nid)]
        got = [(n._hatchet_nid, n._depth, str(n)) for n in sorted(graph_nodes(d.graph), key=lambda n: n._hatchet_nid)]
        ensure(src == got, "deep copy numbers its nodes differently: %.300r, source %.300r", got, src)
        check_rows(paths_to_rows(d, "deep copy"),
                   {(m.paths(i), t): dict(x, name=row_name(spec["a"]["graph"]["frames"][i])) for (i, t), x in vals.items()},
                   "deep copy")
        ensure([x._hatchet_nid for x in d.dataframe.index.get_level_values("node")]
               == [x._hatchet_nid for x in gfa.dataframe.index.get_level_values("node")], "deep copy orders rows differently")
        ensure(list(d.dataframe.columns) == before_a["columns"], "deep copy has columns %r", list(d.dataframe.columns))
        ensure({c: str(t) for c, t in d.dataframe.dtypes.items()} == before_a["dtypes"], "deep copy has other column types")
        ensure(list(d.dataframe.index.names) == before_a["index_names"], "deep copy has another index")
        ensure((d.exc_metrics, d.inc_metrics, d.default_metric, d.metadata, d.graph.node_ordering)
               == (before_a["exc"], before_a["inc"], before_a["default"], before_a["metadata"], before_a["ordering"]),
               "deep copy has other metrics, metadata or ordering")
        mine = {id(n) for n in graph_nodes(d.graph)}
        ensure(not mine & {id(n) for n in na}, "deep copy shares nodes with its source")
        ensure(all(id(n) in mine for n in d.dataframe.index.get_level_values("node")), "deep copy's rows refer to other nodes")
        before_d = snap(d)
        if spec["side"] == "copy":
            with sut("editing the deep copy"):
                edit_everything(d, spec["edit"])
            assert_unchanged(before_a, gfa, "editing its deep copy")
        else:
            with sut("editing the source"):
                edit_everything(gfa, spec["edit"])
            assert_unchanged(before_d, d, "editing the deep copy's source")
