from hv import strat as st

from .. import gen
from ..build import assert_unchanged, build_gf, snap
from ..conds import aim, frames_with_attrs, str_lit
from ..core import ensure, expect_raises, sut
from ..model import M
from ..qmodel import match_nodes
from ..strq import element_sets, queries, render
from ..util import graph_labels, rowmap
from .c05 import cond_node

EXAMPLES = {"quick": 12800, "thorough": 60000}
RULE = (
    "random graphs with numeric (incl. nan, inf), text and possibly-None columns and random string-dialect "
    "queries (1-3 path nodes, all wildcards, named and unnamed, 0-3 conditions per node joined by AND/OR "
    "with NOT, every condition kind, both quote styles), against the reference meaning; plus texts that are "
    "not valid queries and ill-typed conditions; non-trivial: some query node accepts some and rejects some nodes"
)
ASSUMPTIONS = [
    "text columns used in text conditions hold no missing values",
    "conditions on different query nodes are only combined with AND",
    "every attribute named by a condition is a column of the dataframe, or it is the only condition",
]
INVALID = [
    "(p)->(q)", "MATCH", "MATCH (p", "MATCH p", "match (p)", "MATCH (p)->", "MATCH (p)(q)", "MATCH ()",
    'MATCH ("?", p)', 'MATCH ("**")', 'MATCH (p) WHERE', 'MATCH (p) WHERE p."x" = ', 'MATCH (p) WHERE p."x"',
    'MATCH (p) WHERE z."x" = 1', 'MATCH (p) WHERE p.x = 1', 'MATCH (p) WHERE p."x" == 1', 'MATCH (p) WHERE p."x" = foo',
    'MATCH (p) WHERE p."x" = 1 AND', 'MATCH (p) WHERE p."x" = 1 NAND p."k" = 2', 'MATCH (p) WHERE "x" = 1',
    'MATCH (p) WHERE p."x" = 1 trailing', 'MATCH (p) WHERE p."name" STARTS "f"', 'MATCH (p) WHERE p."x" <> 1',
    'MATCH (p) WHERE p."x" = 1 p."k" = 2', 'MATCH (-1, p)', 'MATCH (p)-(q)', 'MATCH (p)->(q) WHERE NOT',
    'MATCH (p) WHERE p IS NOT', 'MATCH (p) WHERE p."x" IS NULL', "", "foo", 'MATCH (p,".")', 'MATCH ("*",)',
    '{MATCH (p)} NAND {MATCH (q)}', '{MATCH (p)} {MATCH (q)}', '{MATCH (p)} AND', '{MATCH (p)} AND {MATCH (q)', '{foo}',
    '{MATCH (p)} XOR MATCH (q)', 'MATCH (p) WHERE {p."x" = 1} NAND {p."k" = 2}', 'MATCH (p) WHERE {p."x" = 1} AND {MATCH (q)}',
    'MATCH (p) WHERE NOT NOT p."x" = 1', 'MATCH (1.5, p)', 'MATCH (p) WHERE p."x" < "a"',
]


@st.composite
def strategy(draw, tier):
    spec = draw(frames_with_attrs(tier == "thorough", none=True))
    spec["queries"] = [draw(queries()) for _ in range(draw(st.integers(1, 2)))]
    for q in spec["queries"]:
        aim(draw, [c for g in q["conds"].values() for _, _, c in g], spec)
    spec["invalid"] = draw(gen.weighted((None, 6), (1, 1)))
    if spec["invalid"]:
        spec["invalid"] = draw(st.sampled_from(INVALID))
    spec["bad"] = draw(gen.weighted((None, 8), ("x", 1), ("module", 1), ("missing", 1)))
    spec["api"] = draw(st.sampled_from(["StringQuery", "parse_string_dialect"]))
    return spec


def check(spec, case):
    from hatchet.graphframe import EmptyFilter
    from hatchet.query import InvalidQueryFilter, QueryEngine, StringQuery, parse_string_dialect

    m = M.of(spec["graph"])
    graph_labels(m, case)
    gf, nodes = build_gf(spec)
    idx_of = {nodes[i]._hatchet_nid: i for i in range(m.n)}
    rows = {}
    for (i, t), v in sorted(rowmap(spec).items()):
        rows.setdefault(i, []).append(v)
    make = StringQuery if spec["api"] == "StringQuery" else parse_string_dialect
    before = snap(gf)
    for q in spec["queries"]:
        text = render(q)
        sets = element_sets(q, m.n, lambda c, i: cond_node(c, i, rows, spec, m, nodes, None))
        if all(w == 0 for w, _ in sets):
            continue
        want = match_nodes(m, sets)
        for g in q["conds"].values():
            for op, neg, c in g:
                case.label(" ".join([c[0]] + [str(x) for x in c[2:3]]))
                if neg:
                    case.label("NOT")
            if any(op == "OR" for op, _, _ in g[1:]):
                case.label("OR")
            if len(g) > 1:
                case.label("several conditions")
        if not q["conds"]:
            case.label("no WHERE")
        case.nt(any(0 < len(s) < m.n for _, s in sets))
        with sut("string query %r" % text):
            res = QueryEngine().apply(make(text), gf.graph, gf.dataframe)
        got = {idx_of.get(x._hatchet_nid) for x in res}
        ensure(got == want, "string query %r selects nodes %r, expected %r", text, sorted(got), sorted(want))
        if not want:
            expect_raises("filter(%r) matching nothing" % text, EmptyFilter, lambda: gf.filter(text, squash=False))
        else:
            with sut("filter(%r)" % text):
                out = gf.filter(text, squash=False)
            got = {idx_of.get(x._hatchet_nid) for x in out.dataframe.index}
            ensure(got == want, "filter(%r) keeps nodes %r, expected %r", text, sorted(got), sorted(want))
    if spec["invalid"] is not None:
        case.label("invalid text")
        expect_raises("creating a query from %r" % spec["invalid"], Exception, lambda: make(spec["invalid"]))
    bad = spec["bad"]
    if bad in ("x", "module"):
        case.label("ill-typed")
        text = "MATCH (p) WHERE p.%s = %s" % (str_lit(bad), '"a"' if bad == "x" else "1")
        expect_raises("filter(%r) with an ill-typed condition" % text, InvalidQueryFilter, lambda: gf.filter(text, squash=False))
    elif bad:
        case.label("unknown attribute")
        text = 'MATCH (p) WHERE p."no such" = 1'
        expect_raises("filter(%r) on an unknown attribute" % text, EmptyFilter, lambda: gf.filter(text, squash=False))
    assert_unchanged(before, gf, "string query")
