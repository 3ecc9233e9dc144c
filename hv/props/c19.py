import math
import re
import warnings

from hv import strat as st

from .. import gen
from ..build import assert_unchanged, snap
from ..core import ensure, expect_raises, sut
from ..rt import rt_gframes, setup_names

EXAMPLES = {"quick": 12000, "thorough": 60000}
RULE = (
    "GraphFrames over trees and forests (and, for the refusal, DAGs), 0-2 extra index levels, finite, missing and "
    "infinite values; random metric, name column, rank/thread and threshold; every output line is compared with the node's "
    "call path and value; non-trivial: at least three lines with a call path of two or more frames among them"
)
ASSUMPTIONS = [
    "every node has a row at the requested rank and thread",
    "names contain neither semicolons nor newlines, which the folded format cannot express",
]

ODD = ["a b", "f(int, double)", "x 1", "", " lead", "trail ", "é", "operator<", "12", "a:b"]


@st.composite
def strategy(draw, tier):
    shapes = draw(gen.weighted((("tree", "forest"), 6), (("dag",), 1)))
    spec = draw(rt_gframes(tier, shapes=shapes, notes=["x", "y z", "zz"], sparse=False))
    spec.pop("keep", None)
    n = len(spec["graph"]["frames"])
    if draw(gen.weighted((True, 1), (False, 2))):
        spec["names"] = {str(i): gen.pick(draw, ODD) for i in range(n) if draw(st.booleans())}
    cols = spec["exc"] + spec["inc"]
    texts = ["name", "uid"] + [c for c in ("module", "note") if c in spec["rows"][0][2]]
    opts = {}
    if draw(st.booleans()):
        opts["metric"] = gen.pick(draw, cols)
    if draw(gen.weighted((True, 1), (False, 2))):
        opts["name"] = gen.pick(draw, texts)
    if draw(gen.weighted((True, 1), (False, 2))):
        opts["threshold"] = gen.pick(draw, [0, 0.0, 0.1, 0.25, 0.5, 1.0, 1.5])
    at = draw(st.sampled_from(sorted({tuple(r[1]) for r in spec["rows"]})))
    for lv, v in zip(spec["levels"], at):
        if v or draw(st.booleans()):
            opts[lv] = v
    return {"gf": spec, "opts": opts, "wrong": draw(gen.weighted((False, 8), (True, 1)))}


def check(spec, case):
    gf, nodes, data, at = setup_names(spec["gf"], spec["opts"])
    opts = spec["opts"]
    metric = opts.get("metric", gf.default_metric)
    col = [float(r[2][metric]) if r[2][metric] is not None else math.nan for r in spec["gf"]["rows"]]
    some = [v for v in col if not math.isnan(v)]
    thr = opts.get("threshold", 0)
    top = max(some) if some else math.nan
    num = {id(n): k for k, n in enumerate(nodes)}
    before = snap(gf)

    if any(len(n.parents) > 1 for n in nodes):
        case.label("shared node")
        from hatchet.node import MultiplePathError

        expect_raises("to_flamegraph of a graph with several paths to a node", MultiplePathError, lambda: gf.to_flamegraph(**opts))
        assert_unchanged(before, gf, "to_flamegraph")
        return

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with sut("to_flamegraph(%r)" % (opts,)):
            text = gf.to_flamegraph(**opts)
    ensure(isinstance(text, str), "to_flamegraph returned %r", type(text))
    assert_unchanged(before, gf, "to_flamegraph")
    want = []

    def path(k):
        ps = nodes[k].parents
        return (path(num[id(ps[0])]) if ps else []) + [str(data[k][opts.get("name", "name")])]

    for k in data:
        v = data[k][metric]
        v = math.nan if v is None else float(v)
        if thr and not v >= thr * top:
            continue
        want.append((path(k), {0} if not math.isfinite(v) else {math.floor(v), math.ceil(v)} if v % 1 == 0.5 else {round(v)}))
    case.nt(len(want) >= 3 and any(len(p) > 1 for p, _ in want))
    if any(not math.isfinite(v) for v in col):
        case.label("missing/infinite")
    if len(nodes) > len(want):
        case.label("threshold hides")
    ensure(text == "" or text.endswith("\n"), "to_flamegraph: last line is incomplete: %r", text[-60:])
    lines = text.split("\n")[:-1] if text else []
    got = []
    for x in lines:
        m = re.fullmatch(r"(.*) (-?\d+)", x)
        ensure(m is not None, "to_flamegraph: line %r does not end with an integer", x)
        got.append((re.split("; ?", m.group(1)), int(m.group(2))))
    left = list(got)
    # nodes may share names and thus lines; halves may be rounded either way
    for p, vs in sorted(want, key=lambda x: (len(x[1]), max(x[1]))):
        variants = [(q, v) for q, v in left if v in vs and [y.lstrip() for y in q] == [y.lstrip() for y in p]]
        ensure(variants, "to_flamegraph(%r): no line for %s %r in %r", opts, ";".join(p), sorted(vs), text)
        left.remove(min(variants, key=lambda x: x[1]))
    ensure(not left, "to_flamegraph(%r): unexpected lines %r", opts, left)

    if spec["wrong"]:
        expect_raises("to_flamegraph with an unknown metric", KeyError, lambda: gf.to_flamegraph(metric="no such"))
