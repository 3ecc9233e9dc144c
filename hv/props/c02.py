import pandas as pd

from hv import strat as st

from .. import gen
from ..build import build_gf
from ..core import Discard, ensure, sut
from ..model import M, check_links, compare_graph, paths_to_rows
from ..util import check_rows, derived_inc, gr_desc, graph_labels, rowmap, squash_model, sum_min1

EXAMPLES = {"quick": 4800, "thorough": 40000}
RULE = (
    "random trees/forests/DAGs with NaN/negative/integer exclusive metrics, dense and sparse "
    "rank/thread rows, also metrics named by tuples; inclusive metrics recomputed directly, by squash of a random filter, and by "
    "from_lists; non-trivial: some node has at least two distinct descendants with different values"
)
ASSUMPTIONS = ["source graphs have distinct-frame siblings, as every reader's normalized graph has"]


@st.composite
def strategy(draw, tier):
    big = tier == "thorough"
    mode = draw(gen.weighted(("update", 4), ("squash", 3), ("lists", 1), ("twice", 1)))
    if mode == "lists":
        g = draw(gen.graphs(max_nodes=12 if big else 9, styles=("plain",), shuffle=False))
        return {"mode": mode, "graph": g}
    spec = draw(gen.gframes(max_nodes=12 if big else 9, kinds=gen.ANY_INDEX, sparse=draw(st.booleans())))
    spec["mode"] = mode
    spec["tuples"] = mode in ("update", "twice") and draw(gen.weighted((True, 1), (False, 4)))
    n = len(spec["graph"]["frames"])
    spec["keep"] = [draw(gen.weighted((True, 2), (False, 1))) for _ in range(n)]
    if not any(spec["keep"]):
        spec["keep"][draw(st.integers(0, n - 1))] = True
    return spec


def check_lists(spec, case):
    from hatchet import GraphFrame
    from hatchet.frame import Frame
    from hatchet.node import Node

    m = M.of(spec["graph"])
    graph_labels(m, case)
    case.label("from_lists")
    shared = {i: Node(Frame(name=dict(m.frames[i])["name"])) for i in range(m.n) if len(m.parents[i]) > 1}
    done = set()

    def lst(i):
        if i in shared:
            if i in done:
                return shared[i]
            done.add(i)
            return [shared[i]] + [lst(c) for c in m.children[i]]
        name = dict(m.frames[i])["name"]
        if not m.children[i] and i % 2:
            return name
        return [name] + [lst(c) for c in m.children[i]]

    args = []
    for r in m.roots:
        x = lst(r)
        args.append(x if isinstance(x, list) else [x])
    with sut("from_lists"):
        gf = GraphFrame.from_lists(*args)
    m2 = M([{"name": dict(f)["name"]} for f in m.frames], m.parents)
    with sut("inspecting from_lists result"):
        check_links(gf.graph, "from_lists")
        compare_graph(gf.graph, [m2.paths(i) for i in range(m.n)], "from_lists")
        rows = paths_to_rows(gf, "from_lists")
    exp = {
        (m2.paths(i), ()): {
            "name": dict(m.frames[i])["name"],
            "time": 1.0,
            "time (inc)": float(len(m.desc(i))),
        }
        for i in range(m.n)
    }
    check_rows(rows, exp, "from_lists")
    ensure(gf.exc_metrics == ["time"] and gf.inc_metrics == ["time (inc)"], "from_lists metrics %r %r", gf.exc_metrics, gf.inc_metrics)
    case.nt(not m.is_tree() or m.n > 3)


def check(spec, case):
    if spec["mode"] == "lists":
        return check_lists(spec, case)
    m = M.of(spec["graph"])
    graph_labels(m, case)
    case.label(spec["mode"])
    if spec["levels"]:
        case.label("multiindex")
    vals = rowmap(spec)
    if len(vals) < m.n * max(1, len({t for _, t in vals})):
        case.label("sparse rows")
    exc = spec["exc"]
    if spec["mode"] == "squash":
        kept = {i for i in range(m.n) if spec["keep"][i]}
        gr = squash_model(m, kept)
        merged, rep = gr.merged()
        if not merged.acyclic():
            raise Discard("merge would close a cycle")
        paths = merged.paths()
        desc = gr_desc(merged.edges, merged.frame)
        cells = {}
        for (i, t), v in vals.items():
            if i in kept:
                cells.setdefault((rep[i], t), []).append(v)
        base = {
            k: {c: sum_min1([p[c] for p in parts]) for c in exc} for k, parts in cells.items()
        }
        pathof = paths
    else:
        desc = {i: m.desc(i) for i in range(m.n)}
        base = {k: {c: v[c] for c in exc} for k, v in vals.items()}
        pathof = {i: m.paths(i) for i in range(m.n)}
    exp = {}
    inc = derived_inc(exc)
    for (i, t), v in base.items():
        d = dict(v)
        for c, ic in zip(exc, inc):
            parts = [base[(k, t)][c] for k in desc[i] if (k, t) in base]
            d[ic] = sum_min1(parts)
            if len({float(x) for x in parts if x == x}) > 1 and len(parts) > 2:
                case.nt()
        exp[(pathof[i], t)] = d

    gf, nodes = build_gf(spec)
    tuples = spec.get("tuples")
    if tuples:
        # metrics named by tuples, in a dataframe with multi-level columns
        case.label("multi-level columns")
        group = {c: "meta" if c in ("name", "type") else "run 1" for c in gf.dataframe.columns}
        gf.dataframe.columns = pd.MultiIndex.from_tuples([(group[c], c) for c in gf.dataframe.columns])
        gf.exc_metrics = [(group[c], c) for c in gf.exc_metrics]
        gf.inc_metrics = [(group[c], c) for c in gf.inc_metrics]
    with sut("recomputing inclusive metrics (%s)" % spec["mode"]):
        if spec["mode"] == "squash":
            keepn = {nodes[i]._hatchet_nid for i in range(m.n) if spec["keep"][i]}
            out = gf.filter(lambda r: r["node"]._hatchet_nid in keepn, num_procs=1)
        else:
            gf.update_inclusive_columns()
            if spec["mode"] == "twice":
                gf.update_inclusive_columns()
            out = gf
    if tuples:
        for c in list(gf.exc_metrics) + list(gf.inc_metrics):
            ensure(isinstance(c, tuple) and len(c) == 2 and c[0] == "run 1", "metric %r after updating metrics named (run 1, ...)", c)
        gf.exc_metrics = [c for _, c in gf.exc_metrics]
        gf.inc_metrics = [c for _, c in gf.inc_metrics]
        for g, c in gf.dataframe.columns:
            ensure(g == group.get(c, "run 1"), "column %r appeared", (g, c))
        gf.dataframe.columns = [c for _, c in gf.dataframe.columns]
    with sut("inspecting the result"):
        rows = paths_to_rows(out)
    check_rows(rows, exp, spec["mode"])
    ensure(set(inc) | set(spec["inc"]) == set(out.inc_metrics), "inclusive metrics registered as %r, expected %r", out.inc_metrics, sorted(set(inc) | set(spec["inc"])))
    ensure(len(set(out.inc_metrics)) == len(out.inc_metrics), "duplicate inclusive metrics %r", out.inc_metrics)
    ensure(sorted(out.exc_metrics) == sorted(exc), "exclusive metrics became %r", out.exc_metrics)
    if spec["mode"] != "squash":
        # all other columns as given
        for (i, t), v in vals.items():
            for c in spec["inc"] + spec["text"]:
                if c not in inc:
                    g = rows[(pathof[i], t)][c]
                    ensure(g == v[c] or (g != g and v[c] != v[c]), "column %r changed: %r -> %r", c, v[c], g)
