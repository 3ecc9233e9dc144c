from hv import strat as st

from .. import gen
from ..build import assert_unchanged, build_gf, row_name, snap
from ..core import ensure, expect_raises, sut
from ..model import M, paths_to_rows
from ..util import check_rows, graph_labels, rowmap

EXAMPLES = {"quick": 3200, "thorough": 24000}
CASE_LIMIT_S = 40
RULE = (
    "random GraphFrames (single/multi index, sparse; a few chains of 60-150 nodes) and row predicates over metrics, names, ids and "
    "index levels, filtered with 1..rows+3 worker processes or the default; "
    "non-trivial: the predicate accepts some rows and rejects others"
)


@st.composite
def strategy(draw, tier):
    kind = draw(gen.weighted(("filter", 12), ("invalid", 1)))
    if draw(gen.weighted((False, 80), (True, 1))):
        # a deep call path
        n = draw(st.integers(60, 150))
        return {
            "graph": {"frames": [{"name": "f%d" % (k % 7), "type": "function"} for k in range(n)], "parents": [[k - 1] if k else [] for k in range(n)]},
            "levels": [], "exc": ["time"], "inc": [], "text": [], "rows": [[k, [], {"time": float(k % 5)}] for k in range(n)],
            "pred": draw(st.sampled_from([["ge", "time", 2.0], ["nid", "", n // 2], ["all", "", 0], ["name", "f3", 0]])),
            "procs": draw(st.integers(1, 4)),
        }
    spec = draw(gen.gframes(max_nodes=8, kinds=gen.ANY_INDEX, sparse=draw(st.booleans())))
    if kind == "invalid":
        spec["arg"] = draw(st.sampled_from([None, 5, 2.5, {"name": "x"}, ["tuple"], True]))
        spec["pred"] = None
        return spec
    preds = ["ge", "lt", "name", "mask", "mask", "nid", "all", "none", "isna"]
    if spec["levels"]:
        preds += ["level", "level"]
    p = draw(st.sampled_from(preds))
    cols = spec["exc"] + spec["inc"]
    if p in ("ge", "lt"):
        pr = [p, gen.pick(draw, cols), draw(st.sampled_from(gen.ATOMS))]
    elif p == "isna":
        pr = [p, gen.pick(draw, cols), 0]
    elif p == "name":
        k = draw(st.integers(0, len(spec["graph"]["frames"]) - 1))
        pr = [p, row_name(spec["graph"]["frames"][k]), 0]
    elif p == "mask":
        pr = [p, [draw(st.booleans()) for _ in spec["rows"]], 0]
    elif p == "nid":
        pr = [p, "", draw(st.integers(0, len(spec["graph"]["frames"]) - 1))]
    elif p == "level":
        pr = [p, gen.pick(draw, spec["levels"]), draw(st.integers(0, 3))]
    else:
        pr = [p, "", 0]
    spec["pred"] = pr
    par = draw(gen.weighted((0, 9), (1, 2), (2, 1)))
    spec["procs"] = 1 if par == 0 else (draw(st.integers(2, len(spec["rows"]) + 3)) if par == 1 else None)
    return spec


def check(spec, case):
    m = M.of(spec["graph"])
    gf, nodes = build_gf(spec)
    before = snap(gf)
    if spec["pred"] is None:
        from hatchet.graphframe import InvalidFilter

        case.label("invalid argument")
        arg = ("tuple",) if spec["arg"] == ["tuple"] else spec["arg"]
        expect_raises("filter(%r)" % (arg,), InvalidFilter, lambda: gf.filter(arg, num_procs=1))
        assert_unchanged(before, gf, "rejected filter")
        return
    idx_of = {nodes[i]._hatchet_nid: i for i in range(m.n)}
    kind, a, b = spec["pred"]
    vals = rowmap(spec)
    lv = spec["levels"]
    mask = {}
    if kind == "mask":
        mask = {(r[0], tuple(r[1])): a[k] for k, r in enumerate(spec["rows"])}

    def model(i, t):
        v = vals[(i, t)]
        if kind == "ge":
            return v[a] >= b
        if kind == "lt":
            return v[a] < b
        if kind == "isna":
            return v[a] != v[a]
        if kind == "name":
            return row_name(dict(m.frames[i])) == a
        if kind == "mask":
            return mask[(i, t)]
        if kind == "nid":
            return nodes[i]._hatchet_nid <= b
        if kind == "level":
            return t[lv.index(a)] == b
        return kind == "all"

    def pred(row):
        if kind == "ge":
            return row[a] >= b
        if kind == "lt":
            return row[a] < b
        if kind == "isna":
            return row[a] != row[a]
        if kind == "name":
            return row["name"] == a
        if kind == "mask":
            return mask[(idx_of[row["node"]._hatchet_nid], tuple(int(row[x]) for x in lv))]
        if kind == "nid":
            return row["node"]._hatchet_nid <= b
        if kind == "level":
            return row[a] == b
        return kind == "all"

    want = {k for k in vals if model(*k)}
    kw = {} if spec["procs"] is None else {"num_procs": spec["procs"]}
    if spec["procs"] != 1:
        case.label("parallel")
        if spec["procs"] and spec["procs"] > len(vals):
            case.label("more workers than rows")
    graph_labels(m, case)
    if lv:
        case.label("multiindex")
    case.nt(0 < len(want) < len(vals))
    if not want:
        from hatchet.graphframe import EmptyFilter

        case.label("empty result")
        expect_raises("filter accepting nothing", EmptyFilter, lambda: gf.filter(pred, squash=False, **kw))
        assert_unchanged(before, gf, "empty filter")
        return
    with sut("filter"):
        out = gf.filter(pred, squash=False, **kw)
    assert_unchanged(before, gf, "filter")
    with sut("inspecting the filtered GraphFrame"):
        ensure(out.graph is gf.graph, "filter without squash changed the graph object")
        ensure(list(out.dataframe.index.names) == ["node"] + lv, "index names %r", out.dataframe.index.names)
        ensure(set(out.dataframe.columns) == set(gf.dataframe.columns), "columns %r", list(out.dataframe.columns))
        at = [[tuple(x._hatchet_nid if hasattr(x, "_hatchet_nid") else x for x in (t if isinstance(t, tuple) else (t,))) for t in g.dataframe.index]
              for g in (gf, out)]
        ensure(at[1] == [t for t in at[0] if t in set(at[1])], "the filtered rows are in the order %.300r, originally %.300r", at[1], at[0])
        rows = paths_to_rows(out, "filtered GraphFrame")
        for c in spec["exc"] + spec["inc"]:
            ensure(
                out.dataframe[c].dtype == gf.dataframe[c].dtype,
                "column %r changed type from %s to %s", c, gf.dataframe[c].dtype, out.dataframe[c].dtype,
            )
    exp = {}
    for i, t in want:
        d = dict(vals[(i, t)])
        d["name"] = row_name(dict(m.frames[i]))
        exp[(m.paths(i), t)] = d
    check_rows(rows, exp, "filtered GraphFrame")
    ensure(out.exc_metrics == spec["exc"] and out.inc_metrics == spec["inc"], "metric lists %r %r", out.exc_metrics, out.inc_metrics)
    ensure(out.default_metric == gf.default_metric, "default metric %r", out.default_metric)
    ensure(out.metadata == gf.metadata, "metadata %r", out.metadata)
