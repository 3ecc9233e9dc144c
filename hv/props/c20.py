import math

import numpy as np

from hv import strat as st

from .. import gen
from ..build import assert_unchanged, build_gf, snap
from ..core import ensure, is_missing, sut
from ..model import M
from ..util import OneOf, check_rows, graph_labels

EXAMPLES = {"quick": 12000, "thorough": 60000}
RULE = (
    "GraphFrames over trees, forests and DAGs with 0-2 extra index levels, dense and sparse rows in any order, missing "
    "values, integer, text and missing-text columns; random aggregation function (default, numpy, name, own function); "
    "non-trivial: some node has two rows whose metric values differ"
)
ASSUMPTIONS = ["'first row' is the first in the dataframe's order", "aggregations ignore missing values, as pandas' do"]

FUNCS = ["default", "np.mean", "np.max", "np.min", "np.sum", "mean", "sum", "median", "own", "len"]


def own(x):
    return x.max() - x.min()


REAL = {"np.mean": np.mean, "np.max": np.max, "np.min": np.min, "np.sum": np.sum, "own": own, "len": len}


@st.composite
def strategy(draw, tier):
    spec = draw(gen.gframes(max_nodes=12 if tier == "thorough" else 8, kinds=gen.ANY_INDEX, sparse=draw(st.booleans()), inf=draw(gen.weighted((True, 1), (False, 5)))))
    if draw(st.booleans()):
        spec["text"] = spec["text"] + ["note"]
        for r in spec["rows"]:
            r[2]["note"] = gen.pick(draw, [None, "x", "y"])
    if draw(st.booleans()):
        spec["text"] = spec["text"] + ["extra"]
        for r in spec["rows"]:
            r[2]["extra"] = draw(st.integers(0, 5))
    if draw(st.booleans()):
        order = draw(st.permutations(range(len(spec["rows"]))))
        spec["rows"] = [spec["rows"][i] for i in order]
        spec["unsorted"] = True
    return {"gf": spec, "f": draw(st.sampled_from(FUNCS)), "shared": draw(st.booleans())}


def apply(f, vals):
    """Acceptable results of aggregating vals."""
    xs = [float(v) for v in vals if not is_missing(v)]
    nan = float("nan")
    if f == "len":
        return [float(len(vals))]
    if not xs:
        return [nan, 0.0] if f in ("np.sum", "sum") else [nan]
    if any(math.isinf(x) for x in xs):
        with np.errstate(all="ignore"):
            a = np.array(xs)
            s = float(a.sum())
            r = {"np.mean": s / len(xs), "np.max": max(xs), "np.min": min(xs), "np.sum": s, "median": float(np.median(a))}
            r["own"] = float(np.float64(max(xs)) - np.float64(min(xs)))
    else:
        s = math.fsum(xs)
        r = {"np.mean": s / len(xs), "np.max": max(xs), "np.min": min(xs), "np.sum": s, "median": float(np.median(xs)), "own": max(xs) - min(xs)}
    r["mean"] = r["default"] = r["np.mean"]
    r["sum"] = r["np.sum"]
    return [r[f]]


def check(spec, case):
    s = spec["gf"]
    m = M.of(s["graph"])
    graph_labels(m, case)
    gf, nodes = build_gf(s, sort=not s.get("unsorted"))
    other = None
    if spec["shared"]:
        with sut("copying"):
            other = gf.copy()
        before = snap(other)
    df_order = [(t if isinstance(t, tuple) else (t,)) for t in gf.dataframe.index]
    num = {id(n): i for i, n in enumerate(nodes)}
    keyed = {(i, tuple(t)): v for i, t, v in s["rows"]}
    rows = [(num[id(t[0])], keyed[(num[id(t[0])], tuple(t[1:]))]) for t in df_order]
    f = spec["f"]
    metrics = s["exc"] + s["inc"]
    lists = (list(gf.exc_metrics), list(gf.inc_metrics), gf.default_metric)
    struct = [(id(n), n._hatchet_nid, n._depth, [id(c) for c in n.children], [id(p) for p in n.parents]) for n in nodes]
    columns = list(gf.dataframe.columns)
    if s["levels"]:
        case.label("multiindex")
    case.label(f)

    with sut("drop_index_levels(%s)" % f):
        gf.drop_index_levels() if f == "default" else gf.drop_index_levels(REAL.get(f, f))

    exp = {}
    for i in range(m.n):
        mine = [v for k, v in rows if k == i]
        d = {c: OneOf(apply(f, [v[c] for v in mine])) for c in metrics}
        for c in s["text"]:
            d[c] = mine[0][c]
        fr = s["graph"]["frames"][i]
        d["name"] = fr.get("name") or "%s:%s:%s" % (fr.get("type"), fr.get("file"), fr.get("line"))
        exp[i] = d
        if any(len({str(v[c]) for v in mine}) > 1 for c in metrics):
            case.nt()
    df = gf.dataframe
    ensure(list(df.index.names) == ["node"], "index levels are %r", list(df.index.names))
    ensure(set(df.columns) == set(columns) and len(df.columns) == len(columns), "columns became %r, were %r", list(df.columns), columns)
    got = {}
    for n, r in zip(df.index, df.to_dict("records")):
        ensure(id(n) in num, "unknown node %r in the index", n)
        ensure(num[id(n)] not in got, "two rows for one node")
        got[num[id(n)]] = r
    check_rows({(k, ()): v for k, v in got.items()}, {(k, ()): v for k, v in exp.items()}, "drop_index_levels(%s)" % f)
    ensure(lists == (list(gf.exc_metrics), list(gf.inc_metrics), gf.default_metric), "metrics changed")
    now = [(id(n), n._hatchet_nid, n._depth, [id(c) for c in n.children], [id(p) for p in n.parents]) for n in nodes]
    ensure(struct == now, "the graph changed")
    if other is not None:
        assert_unchanged(before, other, "drop_index_levels on a copy's source")
    with sut("using the result"):
        gf.tree()
        gf.dataframe.loc[nodes[0]]
