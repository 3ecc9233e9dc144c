from hv import strat as st

from .. import gen
from ..build import assert_unchanged, build_gf, snap
from ..core import Discard, ensure, expect_raises, sut
from ..model import M, paths_to_rows
from ..qmodel import expand, match_nodes
from ..util import graph_labels, rowmap

EXAMPLES = {"quick": 6400, "thorough": 60000}
RULE = (
    "random trees/forests/DAGs with random tag sets per node and one to three random queries of 1-6 "
    "elements with wildcards . * + and counts 0-3 and overlapping predicates, as callables (one Query per query, "
    "or one started anew) and in the object dialect; non-trivial: some but not all nodes match and the query has a * or + element"
)


@st.composite
def strategy(draw, tier):
    big = tier == "thorough"
    spec = draw(gen.gframes(
        min_nodes=2, max_nodes=12 if big else 9, exc=["time"], inc=[], text=[], nan=False,
        kinds=[[], [], [], ["rank"]], styles=("plain",),
    ))
    n = len(spec["graph"]["frames"])
    spec["tags"] = ["".join(t for t in "abc" if draw(st.booleans())) for _ in range(n)]
    qs = []
    for _ in range(draw(gen.weighted((1, 4), (2, 1), (3, 1)))):
        q = []
        for k in range(draw(st.integers(1, 6 if big else 5))):
            # a count of zero is not accepted as the first element
            w = draw(gen.weighted((".", 4), ("*", 5), ("+", 2), (0, 1), (1, 1), (2, 1), (3, 1)))
            if k == 0 and w == 0:
                w = 1
            q.append([w, draw(gen.weighted(("a", 3), ("b", 2), ("c", 1), ("", 3)))])
        qs.append(q)
    spec["queries"] = qs
    spec["api"] = draw(st.sampled_from(["callable", "callable", "object", "list"]))
    if spec["levels"]:
        spec["api"] = "callable"
    spec["again"] = spec["api"] == "callable" and draw(st.booleans())
    return spec


def check(spec, case):
    from hatchet.graphframe import EmptyFilter
    from hatchet.query import ObjectQuery, Query, QueryEngine

    m = M.of(spec["graph"])
    graph_labels(m, case)
    case.label(spec["api"])
    if spec["levels"]:
        case.label("multiindex")
    gf, nodes = build_gf(spec)
    tag = {nodes[i]._hatchet_nid: spec["tags"][i] for i in range(m.n)}
    gf.dataframe["tags"] = [
        tag[(t[0] if spec["levels"] else t)._hatchet_nid] for t in gf.dataframe.index
    ]
    idx_of = {nodes[i]._hatchet_nid: i for i in range(m.n)}
    engine = QueryEngine()
    # match() starts a query anew
    one = Query() if spec.get("again") else None
    for q in spec["queries"]:
        model = [(w, {i for i in range(m.n) if t in spec["tags"][i]}) for w, t in q]
        toks = expand(model)
        if not toks:
            continue
        want = match_nodes(m, model)
        stars = sum(1 for s, _ in toks if s)
        if stars >= 2 and any(a[0] and b[0] for a, b in zip(toks, toks[1:])):
            case.label("adjacent stars")
        if toks[0][0]:
            case.label("leading star")
        case.nt(0 < len(want) < m.n and stars > 0)
        if not want:
            case.label("no match")

        def pred(t):
            if t == "":
                return lambda row: True
            if spec["levels"]:
                return lambda df: bool(df["tags"].str.contains(t).all())
            return lambda row: t in row["tags"]

        with sut("building the query"):
            if spec["api"] == "callable":
                qo = Query() if one is None else one
                for k, (w, t) in enumerate(q):
                    f = qo.match if k == 0 else (qo.rel if k % 2 else qo.relation)
                    if t == "" and k % 2:
                        f(w)
                    else:
                        f(w, pred(t))
            else:
                lst = []
                for k, (w, t) in enumerate(q):
                    cond = {} if t == "" else {"tags": "[a-c]*%s[a-c]*" % t}
                    if t == "" and k % 2 and w != 0:
                        lst.append(w)
                    elif w == "." and k % 3 == 0:
                        lst.append(cond)
                    else:
                        lst.append((w, cond))
                qo = ObjectQuery(lst) if spec["api"] == "object" else lst
        if not (len(qo) if spec["api"] != "list" else True):
            continue
        before = snap(gf)
        if spec["api"] != "list":
            with sut("QueryEngine.apply"):
                res = engine.apply(qo, gf.graph, gf.dataframe)
            ids = [idx_of.get(x._hatchet_nid) for x in res]
            ensure(len(set(ids)) == len(ids), "query result lists a node twice")
            ensure(
                set(ids) == want,
                "query %r selects %r, expected %r", q, sorted(ids), sorted(want),
            )
        if not want:
            expect_raises("filter by query %r matching nothing" % q, EmptyFilter, lambda: gf.filter(qo, squash=False))
        else:
            with sut("filter by query %r" % q):
                out = gf.filter(qo, squash=False)
                got = set(paths_to_rows(out))
            exp = {(m.paths(i), t) for (i, t) in rowmap(spec) if i in want}
            ensure(
                got == exp,
                "filter by query %r keeps the wrong nodes: %d rows, expected %d (nodes %r)",
                q, len(got), len(exp), sorted(want),
            )
        assert_unchanged(before, gf, "query")
