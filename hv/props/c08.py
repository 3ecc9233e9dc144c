from hv import strat as st

from .. import gen
from ..build import assert_unchanged, build_gf, row_name, snap
from ..conds import aim, frames_with_attrs, num_cond, text_cond
from ..core import ensure, expect_raises, same, sut
from ..model import M
from ..qmodel import match_nodes
from ..strq import element_sets, queries, render
from ..util import graph_labels, rowmap
from .c05 import cond_node, node_sets, to_dict

EXAMPLES = {"quick": 5600, "thorough": 50000}
RULE = (
    "random graphs with rank and/or thread levels (several rows per node, numeric incl. nan and inf, text and "
    "possibly-None columns) and random object- and string-dialect queries in 'any' and 'all' mode over every "
    "kind of condition, and callable predicates checked to receive all rows of the node; non-trivial: 'any' "
    "and 'all' select different nodes"
)
ASSUMPTIONS = ["text columns used in text conditions hold no missing values", "conditions on different query nodes are only combined with AND"]


@st.composite
def strategy(draw, tier):
    spec = draw(frames_with_attrs(tier == "thorough", kinds=[["rank"], ["rank"], ["thread"], ["rank", "thread"], ["epoch"]], none=True))
    # keep at least two index tuples most of the time
    spec["api"] = draw(gen.weighted(("object", 4), ("string", 5), ("callable", 1)))
    if spec["api"] == "object":
        el = []
        for i in range(draw(gen.weighted((1, 5), (2, 2)))):
            conds = []
            for _ in range(draw(gen.weighted((1, 6), (2, 2)))):
                k = draw(gen.weighted(("num", 5), ("text", 4), ("missing", 1)))
                if k == "num":
                    c = draw(num_cond(["x", "x", "k", "depth", "node_id"]))
                elif k == "text":
                    c = draw(text_cond(["module", "module", "name"], ["re"]))
                else:
                    c = ["num", "missing", "==", 1]
                conds.append(c)
            aim(draw, conds, spec)
            el.append([draw(gen.weighted((".", 5), ("*", 2), ("+", 1))), conds])
        spec["query"] = el
        spec["style"] = draw(st.integers(0, 11))
        spec["bad"] = draw(gen.weighted((None, 6), ("numtext", 1), ("textnum", 1), ("depth", 1), ("node_id", 1)))
    elif spec["api"] == "string":
        spec["query"] = draw(queries())
        aim(draw, [c for g in spec["query"]["conds"].values() for _, _, c in g], spec)
        spec["braces"] = draw(gen.weighted((False, 3), (True, 1)))
    return spec


def check(spec, case):
    from hatchet.graphframe import EmptyFilter
    from hatchet.query import InvalidQueryFilter, ObjectQuery, Query, QueryEngine, StringQuery, parse_string_dialect

    m = M.of(spec["graph"])
    graph_labels(m, case)
    case.label(spec["api"], "levels %d" % len(spec["levels"]))
    gf, nodes = build_gf(spec)
    idx_of = {nodes[i]._hatchet_nid: i for i in range(m.n)}
    rows = {}
    for (i, t), v in sorted(rowmap(spec).items()):
        rows.setdefault(i, []).append((t, v))
    before = snap(gf)
    if spec["api"] == "callable":
        seen = {}

        def pred(df):
            got = []
            for label, x, mod, nm in zip(df.index, df["x"], df["module"], df["name"]):
                ensure(label[0]._hatchet_nid in idx_of, "predicate got an unknown node")
                got.append((idx_of[label[0]._hatchet_nid], tuple(label[1:]), x, mod, nm))
            i = got[0][0]
            seen[i] = got
            return i % 2 == 0

        with sut("applying a callable query"):
            res = QueryEngine().apply(Query().match("*", pred), gf.graph, gf.dataframe)
        for i in range(m.n):
            exp = [(i, t, v["x"], v["module"], row_name(spec["graph"]["frames"][i])) for t, v in rows[i]]
            ensure(i in seen, "predicate was not asked about node %d", i)
            got = sorted(seen[i], key=lambda r: r[1])
            ensure(
                len(got) == len(exp) and all(a[0] == b[0] and a[1] == b[1] and same(a[2], b[2]) and a[3:] == b[3:] for a, b in zip(got, exp)),
                "predicate for node %d received rows %r, expected %r", i, got, exp,
            )
        case.nt(any(len(r) > 1 for r in rows.values()))
        got = {idx_of.get(x._hatchet_nid) for x in res}
        want = match_nodes(m, [("*", {i for i in range(m.n) if i % 2 == 0})])
        ensure(got == want, "callable query selects %r, expected %r", got, want)
        assert_unchanged(before, gf, "callable query")
        return
    wants = {}
    for mode in ("any", "all"):
        if spec["api"] == "object":
            sets = node_sets(spec, m, nodes, spec["query"], mode)
            for _, conds in spec["query"]:
                for c in conds:
                    case.label("%s %s" % (c[0], c[1] if c[0] == "num" and c[1] in ("depth", "node_id", "missing") else c[2]))
            q = [(w, to_dict(c, spec["style"])) for w, c in spec["query"]]

            def make():
                return ObjectQuery(q, multi_index_mode=mode)
            what = "object query %r in '%s' mode" % (q, mode)
        else:
            r = {i: [v for _, v in rs] for i, rs in rows.items()}
            sets = element_sets(spec["query"], m.n, lambda c, i: cond_node(c, i, r, spec, m, nodes, mode))
            if all(w == 0 for w, _ in sets):
                return
            for g in spec["query"]["conds"].values():
                for _, neg, c in g:
                    case.label(" ".join([c[0]] + [str(x) for x in c[2:4 if c[0] == "is" else 3]]))
            q = render(spec["query"])
            if spec["braces"]:
                q = "{%s}" % q

            def make():
                if not spec["braces"] and len(q) % 2:
                    return StringQuery(q, multi_index_mode=mode)
                return parse_string_dialect(q, multi_index_mode=mode)
            what = "string query %r in '%s' mode" % (q, mode)
        want = wants[mode] = match_nodes(m, sets)
        with sut(what):
            res = QueryEngine().apply(make(), gf.graph, gf.dataframe)
        got = {idx_of.get(x._hatchet_nid) for x in res}
        ensure(got == want, "%s selects nodes %r, expected %r", what, sorted(got), sorted(want))
        if not want:
            expect_raises("filter by %s matching nothing" % what, EmptyFilter, lambda: gf.filter(q, squash=False, multi_index_mode=mode))
        else:
            with sut("filter by " + what):
                out = gf.filter(q, squash=False, multi_index_mode=mode)
            got = [(idx_of.get(t[0]._hatchet_nid), tuple(t[1:])) for t in out.dataframe.index]
            exp = sorted((i, t) for i in want for t, _ in rows[i])
            ensure(sorted(got) == exp, "filter by %s keeps rows %r, expected %r", what, sorted(got), exp)
    case.nt(wants["any"] != wants["all"])
    bad = spec.get("bad")
    if bad:
        case.label("ill-typed")
        style = spec["style"]
        cond = {
            "numtext": {["x", "k"][style % 2]: ["hello", "5", "=< 3"][style % 3]},
            "textnum": {"module": [5, 2.5][style % 2]},
            "depth": {"depth": ["deep", "1"][style % 2]},
            "node_id": {"node_id": ["first", "0"][style % 2]},
        }[bad]
        q = [[cond], [("*", cond)], [("+", cond), "*"]][style % 3]
        for mode in ("any", "all"):
            what = "filter(%r) with an ill-typed condition in '%s' mode" % (q, mode)
            expect_raises(what, InvalidQueryFilter, lambda: gf.filter(q, squash=False, multi_index_mode=mode))
    assert_unchanged(before, gf, "multi-index query")
