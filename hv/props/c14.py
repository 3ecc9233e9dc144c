import json

from hv import strat as st

from .. import gen
from ..build import GraphFrame, assert_unchanged, snap
from ..core import ensure, sut
from ..model import check_links
from ..rt import by_nid, compare, prep, rt_gframes

EXAMPLES = {"quick": 12000, "thorough": 60000}
RULE = (
    "GraphFrames over trees, forests and DAGs (also with same-frame siblings, permuted node ids, id gaps left by "
    "squashing and rows in any order), 0-2 extra index levels, float/int/missing/infinite metrics and text with "
    "missing values; to_json -> from_json and json.dumps(to_dict) compared by node id; non-trivial: more than one "
    "root, a shared node, an id gap, a missing value or an extra index level"
)
ASSUMPTIONS = [
    "frame attributes and cell values are JSON-representable",
    "the default metric and the run metadata are not part of the JSON form",
    "the type of a number (int or float) is not compared",
]


@st.composite
def strategy(draw, tier):
    return {"gf": draw(rt_gframes(tier, kinds=gen.ANY_INDEX)), "via": draw(gen.weighted(("json", 2), ("dict", 1))), "twice": draw(gen.weighted((False, 3), (True, 1)))}


def features(want, case):
    nt = 0
    if len(want["roots"]) > 1:
        case.label("forest")
        nt = 1
    if any(len(v[2]) > 1 for v in want["nodes"].values()):
        case.label("shared nodes")
        nt = 1
        if len(want["roots"]) > 1:
            case.label("shared nodes and several roots")
    if sorted(want["nodes"]) != list(range(len(want["nodes"]))):
        case.label("id gaps")
        nt = 1
    if len(want["levels"]) > 1:
        case.label("multiindex")
        nt = 1
    if any(v is None or v != v for r in want["rows"].values() for v in r.values()):
        case.label("missing values")
        nt = 1
    case.nt(bool(nt) and len(want["nodes"]) > 1)


def check(spec, case):
    gf = prep(spec["gf"])
    want = by_nid(gf, "input")
    features(want, case)
    before = snap(gf)
    for turn in range(2 if spec["twice"] else 1):
        if spec["via"] == "json":
            with sut("to_json"):
                text = gf.to_json()
            ensure(isinstance(text, str), "to_json() returned %r", type(text))
        else:
            with sut("to_dict"):
                d = gf.to_dict()
            with sut("json.dumps(to_dict())"):
                text = json.dumps(d)
        tokens = []
        with sut("parsing the JSON text"):
            json.loads(text, parse_constant=tokens.append)
        ensure("NaN" not in tokens, "to_%s: missing values are written as NaN, which JSON does not have", spec["via"])
        if not turn:
            assert_unchanged(before, gf, "to_" + spec["via"])
        with sut("from_json"):
            back = GraphFrame.from_json(text)
        check_links(back.graph, "from_json")
        compare(want, by_nid(back, "from_json"), "from_json")
        with sut("graph comparison"):
            ensure(back.graph == gf.graph, "the graph read back is not equal to the source's")
        gf = back
