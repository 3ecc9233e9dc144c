import math

from hv import strat as st

from .. import gen
from ..build import assert_unchanged, build_gf, snap
from ..core import ensure, expect_raises, is_missing, sut
from ..model import M
from ..util import check_rows, graph_labels, rowmap, sum_min1

EXAMPLES = {"quick": 4800, "thorough": 50000}
RULE = (
    "GraphFrames over trees, forests and DAGs (dense or sparse rows, 0-2 extra index levels, missing values, for minima and maxima also infinite ones); "
    "1-3 columns aggregated in place, into new, existing, permuted or shifted columns, with sums, products, minima, maxima "
    "and own functions; non-trivial: some node has at least two descendants with different values"
)
ASSUMPTIONS = [
    "functions are associative and commutative, ignore missing values and return a single value unchanged",
    "every node has a row; subtree_sum is used for trees and forests with a row for each node at every index only",
]


def fmax(x):
    return x.max()


def fmin(x):
    return x.min()


def fprod(x):
    return x.prod(min_count=1)


def fabs(x):
    # the value of largest size, positive if tied
    x = x.dropna()
    return max(x, key=lambda v: (abs(v), v)) if len(x) else float("nan")


FUNCS = {"default": None, "max": fmax, "min": fmin, "prod": fprod, "abs": fabs}


def apply(f, vals):
    xs = [float(v) for v in vals if not is_missing(v)]
    if not xs:
        return float("nan")
    if f == "default":
        return sum_min1(xs)
    if f == "prod":
        r = 1.0
        for x in xs:
            r *= x
        return r
    return {"max": max, "min": min, "abs": lambda v: max(v, key=lambda u: (abs(u), u))}[f](xs)


@st.composite
def strategy(draw, tier):
    method = draw(st.sampled_from(["subgraph_sum", "subgraph_sum", "subtree_sum"]))
    tree = method == "subtree_sum"
    f = draw(st.sampled_from(sorted(FUNCS)))
    spec = draw(gen.gframes(
        max_nodes=11 if tier == "thorough" else 8, kinds=gen.ANY_INDEX,
        shapes=("tree", "forest") if tree else ("tree", "forest", "dag", "dag"),
        sparse=not tree and draw(st.booleans()),
        inf=f in ("max", "min", "abs") and draw(gen.weighted((True, 1), (False, 3))),
        exc=["a", "b", "c"][: draw(st.integers(1, 3))], inc=draw(st.sampled_from([[], ["d"]])),
    ))
    if f == "prod" and len(spec["graph"]["frames"]) > 12:
        # products of so many integers do not fit the columns' type
        f = "default"
    cols = spec["exc"] + spec["inc"]
    columns = [c for c in draw(st.permutations(cols)) if draw(gen.weighted((True, 2), (False, 1)))] or cols[:1]
    k = draw(gen.weighted(("none", 2), ("same", 1), ("new", 3), ("perm", 2), ("shift", 1), ("mix", 1), ("wrong", 1)))
    if k == "none":
        outs = None
    elif k == "same":
        outs = list(columns)
    elif k == "new":
        outs = ["new %s" % c for c in columns]
    elif k == "perm":
        outs = list(draw(st.permutations(columns)))
    elif k == "shift":
        outs = columns[1:] + ["z"]
    elif k == "mix":
        outs = [draw(st.sampled_from(["n%d" % i, c])) for i, c in enumerate(columns)]
    else:
        outs = ["n%d" % i for i in range(len(columns) + draw(st.sampled_from([-1, 1])))]
    return {"gf": spec, "method": method, "columns": columns, "outs": outs, "f": f}


def check(spec, case):
    s = spec["gf"]
    m = M.of(s["graph"])
    graph_labels(m, case)
    case.label(spec["method"])
    if s["levels"]:
        case.label("multiindex")
    gf, nodes = build_gf(s)
    num = {id(n): i for i, n in enumerate(nodes)}
    columns, outs, f = spec["columns"], spec["outs"], spec["f"]
    what = "%s(%r, %r, %s)" % (spec["method"], columns, outs, f)
    fn = getattr(gf, spec["method"])
    args = [list(columns)] + ([list(outs)] if outs is not None else [])
    kw = {} if FUNCS[f] is None else {"function": FUNCS[f]}
    before = snap(gf)
    if outs is not None and len(outs) != len(columns):
        case.label("mismatch")
        expect_raises(what, ValueError, lambda: fn(*args, **kw))
        assert_unchanged(before, gf, "the rejected " + what)
        return
    with sut(what):
        res = fn(*args, **kw)
    ensure(res is None, "%s returned %r", what, res)
    ensure(args[0] == columns and (outs is None or args[1] == outs), "%s changed its arguments", what)
    vals = rowmap(s)
    exp = {}
    for (i, t), v in vals.items():
        d = dict(v)
        for c, o in zip(columns, columns if outs is None else outs):
            parts = [vals[(k, t)][c] for k in m.desc(i) if (k, t) in vals]
            d[o] = apply(f, parts)
            if len({float(x) for x in parts if not is_missing(x)}) > 1 and len(parts) > 2:
                case.nt()
        exp[(i, t)] = d
    got = {}
    for t, r in zip(gf.dataframe.index, gf.dataframe.to_dict("records")):
        t = t if isinstance(t, tuple) else (t,)
        got[(num[id(t[0])], tuple(t[1:]))] = r
    ensure(len(got) == len(gf.dataframe), "duplicate rows")
    check_rows(got, exp, what)
    allowed = set(s["exc"] + s["inc"] + s["text"] + ["name"]) | set(outs or [])
    ensure(set(gf.dataframe.columns) == allowed, "%s: columns are %r", what, list(gf.dataframe.columns))
    ensure((gf.exc_metrics, gf.inc_metrics) == (s["exc"], s["inc"]), "%s changed the metric lists", what)
    if any(math.isinf(float(v[c])) for v in vals.values() for c in columns if not is_missing(v[c])):
        case.label("infinite")
