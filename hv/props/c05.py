from hv import strat as st

from .. import gen
from ..build import assert_unchanged, build_gf, row_name, snap
from ..conds import aim, frames_with_attrs, holds, num_cond, obj_value, text_cond
from ..core import ensure, expect_raises, sut
from ..model import M
from ..qmodel import match_nodes
from ..util import graph_labels, rowmap

EXAMPLES = {"quick": 6400, "thorough": 60000}
RULE = (
    "random graphs with numeric (incl. nan, inf) and text columns and random object-dialect queries of "
    "1-3 elements whose dictionaries hold 0-3 conditions (single or in lists) on columns, depth and "
    "node_id, against a per-condition reference meaning combined by the reference path matcher; plus "
    "ill-typed conditions; non-trivial: a dictionary condition accepts some and rejects some nodes"
)
ASSUMPTIONS = ["text columns hold no missing values (an absent text fits no condition type)"]


@st.composite
def strategy(draw, tier):
    spec = draw(frames_with_attrs(tier == "thorough"))
    el = []
    for i in range(draw(gen.weighted((1, 5), (2, 3), (3, 1)))):
        conds = []
        for _ in range(draw(gen.weighted((0, 1), (1, 5), (2, 3), (3, 1)))):
            k = draw(gen.weighted(("num", 5), ("text", 4), ("missing", 1)))
            if k == "num":
                c = draw(num_cond(["x", "x", "k", "depth", "node_id"]))
            elif k == "text":
                c = draw(text_cond(["module", "name"], ["re"]))
            else:
                c = ["num", "missing", "==", 1]
            conds.append(c)
        aim(draw, conds, spec)
        el.append([draw(gen.weighted((".", 5), ("*", 2), ("+", 1), (2, 1))), conds])
    spec["query"] = el
    spec["style"] = draw(st.integers(0, 11))
    spec["bad"] = draw(gen.weighted((None, 8), ("numtext", 1), ("textnum", 1), ("depth", 1), ("node_id", 1), ("list", 1)))
    return spec


def to_dict(conds, style):
    d = {}
    for k, c in enumerate(conds):
        v = obj_value(c, style + k)
        d.setdefault(c[1], []).append(v)
    for a in list(d):
        if len(d[a]) == 1 and style % 3:
            d[a] = d[a][0]
        elif style % 2:
            d[a] = tuple(d[a])
    return d


def node_sets(spec, m, nodes, query, mode=None):
    """For each element, the nodes whose rows satisfy all its conditions."""
    rows = {}
    for (i, t), v in sorted(rowmap(spec).items()):
        rows.setdefault(i, []).append(v)
    out = []
    for w, conds in query:
        s = set()
        for i in range(m.n):
            if all(cond_node(c, i, rows, spec, m, nodes, mode) for c in conds):
                s.add(i)
        out.append((w, s))
    return out


def cond_node(c, i, rows, spec, m, nodes, mode):
    leaf = not m.children[i]
    if c[0] == "leaf":
        return holds(c, None, leaf)
    a = c[1]
    if a == "depth":
        d = m.depth(i) if m.is_forest() else nodes[i]._depth
        return holds(c, d, leaf)
    if a == "node_id":
        return holds(c, nodes[i]._hatchet_nid, leaf)
    if a == "missing":
        return False
    vals = [row_name(spec["graph"]["frames"][i]) if a == "name" else r[a] for r in rows[i]]
    res = [holds(c, v, leaf) for v in vals]
    return any(res) if mode in (None, "any") else all(res)


def check(spec, case):
    from hatchet.graphframe import EmptyFilter
    from hatchet.query import InvalidQueryFilter, ObjectQuery, QueryEngine

    m = M.of(spec["graph"])
    graph_labels(m, case)
    gf, nodes = build_gf(spec)
    idx_of = {nodes[i]._hatchet_nid: i for i in range(m.n)}
    style = spec["style"]
    sets = node_sets(spec, m, nodes, spec["query"])
    want = match_nodes(m, sets)
    for _, conds in spec["query"]:
        for c in conds:
            case.label("%s %s" % (c[0], c[1] if c[0] == "num" and c[1] in ("depth", "node_id", "missing") else c[2]))
    case.nt(any(conds and 0 < len(s) < m.n for (_, conds), (_, s) in zip(spec["query"], sets)))
    lst = []
    for k, (w, conds) in enumerate(spec["query"]):
        d = to_dict(conds, style)
        if w == "." and (style + k) % 2:
            lst.append(d)
        elif not conds and style % 3 == 0:
            lst.append(w)
        else:
            lst.append((w, d))
    before = snap(gf)
    with sut("object query %r" % (lst,)):
        res = QueryEngine().apply(ObjectQuery(lst), gf.graph, gf.dataframe)
    got = {idx_of.get(x._hatchet_nid) for x in res}
    ensure(got == want, "object query %r selects nodes %r, expected %r", lst, sorted(got), sorted(want))
    if not want:
        expect_raises("filter(%r) matching nothing" % (lst,), EmptyFilter, lambda: gf.filter(lst, squash=False))
    else:
        with sut("filter(%r)" % (lst,)):
            out = gf.filter(lst, squash=False)
        got = {idx_of.get(x._hatchet_nid) for x in out.dataframe.index}
        ensure(got == want, "filter(%r) keeps nodes %r, expected %r", lst, sorted(got), sorted(want))
    bad = spec["bad"]
    if bad:
        case.label("ill-typed")
        cond = {
            "numtext": {["x", "k"][style % 2]: ["hello", "5", "=< 3"][style % 3]},
            "textnum": {"module": [5, 2.5][style % 2]},
            "depth": {"depth": ["deep", "1"][style % 2]},
            "node_id": {"node_id": ["first", "0"][style % 2]},
            "list": {"x": [["hello"], (5, "x")][0]},
        }[bad]
        q = [[cond], [("*", cond)], [("+", cond), "*"]][style % 3]
        expect_raises("filter(%r) with an ill-typed condition" % (q,), InvalidQueryFilter, lambda: gf.filter(q, squash=False))
    assert_unchanged(before, gf, "object query")
