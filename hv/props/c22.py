from hv import strat as st

from .. import gen
from ..build import assert_unchanged, build_gf, row_name, snap
from ..core import ensure, sut
from ..model import M, check_links, graph_nodes
from ..util import OneOf, check_rows, graph_labels
from .c20 import REAL, apply

EXAMPLES = {"quick": 6000, "thorough": 60000}
RULE = (
    "GraphFrames over trees, forests and DAGs with 0-2 extra index levels; grouped by a text or integer column, the name "
    "or a function, so that groups may be scattered over the graph, contain several roots or call each other in turn; all "
    "or some metrics aggregated with the same or different functions; non-trivial: fewer groups than nodes and at least "
    "two groups"
)
ASSUMPTIONS = ["every row has a group, the same for all rows of a node"]


@st.composite
def strategy(draw, tier):
    spec = draw(gen.gframes(max_nodes=14 if tier == "thorough" else 10, kinds=gen.ANY_INDEX, sparse=draw(st.booleans()), text=[], inf=draw(gen.weighted((True, 1), (False, 6)))))
    n = len(spec["graph"]["frames"])
    k = draw(st.integers(1, 5))
    groups = [draw(st.integers(0, k - 1)) for _ in range(n)]
    by = draw(gen.weighted(("text", 4), ("list", 2), ("name", 2), ("int", 1), ("func", 2)))
    if by == "int":
        labels = [10 * (k - g) for g in range(k)]
    else:
        labels = [["b", "a", "libz.so", "main", "unknown"][g] for g in range(k)]
    funcs = ["np.mean", "np.max", "np.min", "np.sum", "mean", "sum", "own", "len"]
    cols = spec["exc"] + spec["inc"]
    part = [c for c in cols if draw(gen.weighted((True, 4), (False, 1)))] or cols[:1]
    agg = {c: draw(st.sampled_from(funcs)) for c in part}
    if draw(gen.weighted((True, 1), (False, 5))):
        agg = draw(st.sampled_from(["np.max", "sum"]))
    return {"gf": spec, "groups": groups, "labels": labels, "by": by, "agg": agg}


def check(spec, case):
    s = spec["gf"]
    m = M.of(s["graph"])
    graph_labels(m, case)
    case.label("by " + spec["by"])
    if s["levels"]:
        case.label("multiindex")
    by = spec["by"]
    label = {i: spec["labels"][spec["groups"][i]] for i in range(m.n)}
    if by == "name":
        label = {i: row_name(s["graph"]["frames"][i]) for i in range(m.n)}
    if by in ("text", "list", "int"):
        s = dict(s, rows=[[i, t, dict(v, grp=label[i])] for i, t, v in s["rows"]])
    gf, nodes = build_gf(s)
    num = {id(n): i for i, n in enumerate(nodes)}

    def func(idx):
        return label[num[id(idx[0] if isinstance(idx, tuple) else idx)]]

    arg = {"text": "grp", "list": ["grp"], "int": ["grp"], "name": ["name"], "func": func}[by]
    agg = spec["agg"]
    cols = s["exc"] + s["inc"]
    if isinstance(agg, dict):
        agg_arg = {c: REAL.get(f, f) for c, f in agg.items()}
    else:
        agg_arg = REAL.get(agg, agg)
        if agg == "np.max":
            agg_arg = "max"
        agg = {c: agg for c in cols}
    before = snap(gf)
    what = "groupby_aggregate(%s, %r)" % (by, spec["agg"])
    with sut(what):
        out = gf.groupby_aggregate(arg, agg_arg)
    assert_unchanged(before, gf, what)

    members = {}
    for i in range(m.n):
        members.setdefault(label[i], []).append(i)
    case.nt(1 < len(members) < m.n)
    with sut("inspecting the result"):
        check_links(out.graph, what)
        gnodes = graph_nodes(out.graph)
        df = out.dataframe
        names = {id(n): n.frame.attrs["name"] for n in gnodes}
    ensure(sorted(map(str, names.values())) == sorted(map(str, members)), "%s: nodes are %r, expected one for each of %r", what, sorted(map(str, names.values())), sorted(map(str, members)))
    edges = {(names[id(n)], names[id(c)]) for n in gnodes for c in n.children}
    nedges = sum(len(n.children) for n in gnodes)
    want = {(label[p], label[c]) for c in range(m.n) for p in m.parents[c] if label[p] != label[c]}
    ensure(edges == want and nedges == len(want), "%s: edges are %r, expected %r", what, sorted(map(str, edges)), sorted(map(str, want)))
    roots = [names[id(r)] for r in out.graph.roots]
    wroots = {label[r] for r in m.roots}
    ensure(len(roots) == len(set(roots)) and set(roots) == wroots, "%s: roots are %r, expected %r", what, roots, sorted(map(str, wroots)))
    if any(r in {b for _, b in want} for r in wroots):
        case.label("root group is called")
    ids = sorted(n._hatchet_nid for n in gnodes)
    ensure(ids == list(range(len(gnodes))), "%s: node ids are %r", what, ids)

    ensure(list(df.index.names) == ["node"], "%s: index levels are %r", what, list(df.index.names))
    ensure(not df.columns.duplicated().any(), "%s: duplicate columns %r", what, list(df.columns))
    got = {}
    for n, r in zip(df.index, df.to_dict("records")):
        ensure(id(n) in names, "%s: row for a node that is not in the graph", what)
        ensure((names[id(n)], ()) not in got, "%s: two rows for group %r", what, names[id(n)])
        got[(names[id(n)], ())] = r
        with sut("looking up a node's row"):
            ensure(df.loc[n, "name"] == names[id(n)], "%s: row of %r is named %r", what, names[id(n)], df.loc[n, "name"])
    exp = {}
    for g, mem in members.items():
        exp[(g, ())] = {
            c: OneOf(apply(f, [v[c] for i, _, v in s["rows"] if i in mem])) for c, f in agg.items()
        }
        exp[(g, ())]["name"] = g
    check_rows(got, exp, what)
    for have, was, kind in ((out.exc_metrics, s["exc"], "exclusive"), (out.inc_metrics, s["inc"], "inclusive")):
        ensure(sorted(have) == sorted(c for c in was if c in agg), "%s: %s metrics are %r", what, kind, have)
    kept = [gf.default_metric] if gf.default_metric in agg else out.exc_metrics + out.inc_metrics
    ensure(out.default_metric in kept, "%s: default metric is %r, of %r", what, out.default_metric, kept)
    if by != "int":
        with sut("rendering the result"):
            text = out.tree(render_header=False)
        ensure(len(text.split("\n")) > len(members), "rendering has %d lines", len(text.split("\n")))
    # the result does not share its metrics with the source
    with sut("changing the result"):
        out.exc_metrics.append("more")
        out.dataframe["name"] = "changed"
    assert_unchanged(before, gf, "changing the result of " + what)
