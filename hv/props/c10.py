import operator

import numpy as np

from hv import strat as st

from .. import gen
from ..build import build_gf, row_name
from ..core import Discard, ensure, is_missing, same, sut
from ..model import M, check_links, compare_graph, graph_nodes, paths_to_rows
from ..util import OneOf, check_rows, rowmap
from .c09 import pushout

EXAMPLES = {"quick": 7200, "thorough": 50000}
RULE = (
    "pairs of GraphFrames over related graphs (as C09) with the same metric columns, 0-2 extra index levels "
    "and float, integer, negative, zero and missing values; each of the four operations as method, operator "
    "and in-place operator; oracle computed per call path and index; non-trivial: common call paths and call "
    "paths only on one side both exist"
)
ASSUMPTIONS = [
    "the operands have the same metric columns, but for one in some cases, and siblings have distinct frames on each side",
    "where a value is missing or the operation is undefined (0/0), the result may be missing or the left value",
    "pairs in which different nodes of one side fall together (conflicting sharing) are excluded (counted)",
    "rows are compared per call path: at an index that only one side has the left value stays",
]

OPS = {
    "add": (operator.add, operator.iadd),
    "sub": (operator.sub, operator.isub),
    "mul": (operator.mul, operator.imul),
    "div": (operator.truediv, operator.itruediv),
}


@st.composite
def strategy(draw, tier):
    a, b = draw(gen.gframe_pairs(10 if tier == "thorough" else 7, kinds=gen.ANY_INDEX, same_index=draw(gen.weighted((True, 4), (False, 1))),
                                 nan=draw(gen.weighted((True, 1), (False, 3)))))
    return {"a": a, "b": b, "op": draw(st.sampled_from(sorted(OPS))),
            "self": draw(gen.weighted((None, 12), ("same", 1), ("copy", 1), ("deepcopy", 1))),
            "lacks": draw(gen.weighted((None, 6), ("left", 1), ("right", 1))),
            # operands that are the result of an earlier operation
            "flags": [draw(gen.weighted((None, 3), ([0, 0, 1], 1), ([2, 1, 0], 1), ([0, 2], 1))) for _ in range(2)]}


UFUNC = {"add": np.add, "sub": np.subtract, "mul": np.multiply, "div": np.divide}


def number(op, x, y):
    if is_missing(x) or is_missing(y):
        return OneOf([x, float("nan")])
    with np.errstate(all="ignore"):
        v = float(UFUNC[op](np.float64(x), np.float64(y)))
    # an undefined result (0/0, 0*inf, ...) counts as missing
    return OneOf([x, v]) if v != v else v


def check(spec, case):
    op = spec["op"]
    sb = spec["a"] if spec["self"] else spec["b"]
    ma, mb = M.of(spec["a"]["graph"]), M.of(sb["graph"])
    merged, rep = pushout(ma, mb)
    if not merged.acyclic():
        raise Discard("merge would close a cycle")
    va, vb = rowmap(spec["a"]), rowmap(sb)
    for s, v in (("s", va), ("o", vb)):
        if len({(rep[(s, i)], t) for i, t in v}) < len(v) or len({rep[(s, i)] for i, _ in v}) < len({i for i, _ in v}):
            raise Discard("different nodes fall together (conflicting sharing)")
    paths = merged.paths()
    pa = {paths[rep[("s", i)]] for i in range(ma.n)}
    pb = {paths[rep[("o", i)]] for i in range(mb.n)}
    case.label(op, "only left" if pa - pb else "", "only right" if pb - pa else "", "dag" if not ma.is_forest() else "forest")
    case.labels.discard("")
    case.nt(bool(pa & pb) and pa != pb)
    if spec["a"]["levels"]:
        case.label("multiindex")
    if any(spec.get("flags", [])) and not spec["self"]:
        case.label("flagged operand")

    # a metric that only one operand has
    metrics_a, metrics_b = spec["a"]["exc"] + spec["a"]["inc"], spec["a"]["exc"] + spec["a"]["inc"]
    lone = sorted(metrics_a)[0] if len(metrics_a) > 1 and not spec["self"] else None
    if lone and spec.get("lacks"):
        case.label("metric not in " + spec["lacks"])
        if spec["lacks"] == "left":
            metrics_a = [c for c in metrics_a if c != lone]
        else:
            metrics_b = [c for c in metrics_b if c != lone]

    def operands():
        ga, gb = pair()
        for gf, have in ((ga, metrics_a), (gb, metrics_b)):
            for c in set(metrics_a) ^ set(metrics_b):
                if c not in have:
                    gf.dataframe = gf.dataframe.drop(columns=[c])
                    gf.exc_metrics = [m for m in gf.exc_metrics if m != c]
                    gf.inc_metrics = [m for m in gf.inc_metrics if m != c]
        return ga, gb

    def pair():
        gfa, _ = build_gf(spec["a"])
        if spec["self"] == "same":
            return gfa, gfa
        if spec["self"] == "copy":
            return gfa, gfa.copy()
        if spec["self"] == "deepcopy":
            return gfa, gfa.deepcopy()
        gfb, _ = build_gf(spec["b"])
        for gf, f in zip((gfa, gfb), spec.get("flags", [None, None])):
            if f:
                gf.dataframe["_missing_node"] = np.resize(f, len(gf.dataframe)).astype(np.short)
        return gfa, gfb

    metrics = [c for c in metrics_a if c in metrics_b]
    others = spec["a"]["text"] + ["name"]
    want = {}
    A = {(paths[rep[("s", i)]], t): dict(x, name=row_name(spec["a"]["graph"]["frames"][i])) for (i, t), x in va.items()}
    B = {(paths[rep[("o", i)]], t): dict(x, name=row_name(sb["graph"]["frames"][i])) for (i, t), x in vb.items()}
    flag = pa != pb
    for k, x in A.items():
        y = B.get(k)
        if y is not None:
            want[k] = {c: number(op, x[c], y[c]) for c in metrics}
        else:
            want[k] = {c: x[c] for c in metrics}
        # the operation is undefined where one side lacks the metric
        want[k].update({c: OneOf([x[c], float("nan")]) for c in metrics_a if c not in metrics_b})
        want[k].update({c: x[c] for c in others})
        if flag:
            want[k]["_missing_node"] = 0 if k[0] in pb else 1
    for k, y in B.items():
        if k[0] not in pa:
            want[k] = {c: float("nan") for c in metrics_a}
            want[k].update({c: y[c] for c in others})
            want[k]["_missing_node"] = 2

    def verify(r, what):
        check_links(r.graph, what)
        compare_graph(r.graph, [paths[k] for k in merged.frame], what)
        got = paths_to_rows(r, what)
        check_rows(got, want, what)
        for c in metrics_b:
            if c not in metrics_a and c in r.dataframe.columns:
                ensure(all(is_missing(v[c]) or (k in B and same(v[c], B[k][c])) for k, v in got.items()),
                       "%s: invents values of a metric that the left operand lacks", what)
                ensure(all(is_missing(v[c]) for k, v in got.items() if k[0] not in pa),
                       "%s: values of %r where the call path is not in the left operand", what, c)
        if not flag:
            ensure("_missing_node" not in r.dataframe.columns
                   or all(v["_missing_node"] == 0 for v in got.values()), "%s: flags missing nodes where none are", what)
        live = {id(n) for n in graph_nodes(r.graph)}
        ensure(all(id(n) in live for n in r.dataframe.index.get_level_values("node")), "%s: rows refer to copies of nodes", what)
        ensure(list(r.dataframe.index.names) == ["node"] + spec["a"]["levels"], "%s: index is %r", what, r.dataframe.index.names)
        ensure(sorted(r.exc_metrics + r.inc_metrics) == sorted(metrics_a),
               "%s: metrics are %r, %r", what, r.exc_metrics, r.inc_metrics)
        return got

    a, b = operands()
    with sut(op):
        r = getattr(a, op)(b)
    ensure(r is not a and r is not b, "%s returned an operand", op)
    verify(r, "%s()" % op)
    rb = paths_to_rows(b, "right operand after %s" % op)
    check_rows(rb, {(mb_paths, t): {c: x[c] for c in metrics_b} for (mb_paths, t), x in
                    {(mb.paths(i), t): x for (i, t), x in vb.items()}.items()}, "right operand after %s" % op)
    check_rows(paths_to_rows(a, "left operand"), {(ma.paths(i), t): {c: x[c] for c in metrics_a} for (i, t), x in va.items()},
               "left operand after %s" % op)

    a, b = operands()
    with sut("operator of " + op):
        r = OPS[op][0](a, b)
    verify(r, "operator %s" % op)

    a, b = operands()
    a0 = a
    with sut("in-place operator of " + op):
        a = OPS[op][1](a, b)
    ensure(a is a0, "in-place %s did not store its result in the left operand", op)
    verify(a, "in-place %s" % op)
    if b is not a:
        check_rows(paths_to_rows(b, "right operand"), {(mb.paths(i), t): {c: x[c] for c in metrics_b} for (i, t), x in vb.items()},
                   "right operand after in-place %s" % op)
