import copy
import math

from hv import strat as st

from .. import gen
from ..build import GraphFrame, assert_unchanged, cell, row_name, snap
from ..core import ensure, expect_raises, is_missing, same, sut
from ..model import M, check_links
from ..rt import by_nid, by_uid, compare, prep, rt_gframes

EXAMPLES = {"quick": 6000, "thorough": 60000}
RULE = (
    "import: literals of trees, forests and DAGs (shared nodes marked by id and repeated with or without their "
    "children, ids on all, only the shared or no nodes, frames without name, nodes lacking metrics) compared with the "
    "described graph node by node; the literal is garbled afterwards; export: to_literal -> from_literal of GraphFrames "
    "as in C14; rejection: one required part removed; non-trivial: more than one node and a shared node, several "
    "roots, given ids, lacking metrics or an extra index level"
)
ASSUMPTIONS = [
    "export replaces missing and infinite values by zero (as its code documents) and covers names and metrics only",
    "a node without id is described once",
]

METRICS = ["time", "time (inc)", "cycles", "uid", "peak (inc) x"]


@st.composite
def strategy(draw, tier):
    mode = draw(gen.weighted(("import", 3), ("export", 2), ("reject", 1)))
    if mode == "export":
        gf = draw(rt_gframes(tier))
        return {"mode": mode, "gf": gf, "cats": draw(st.booleans()), "pick": [draw(st.integers(0, 5)), draw(st.integers(0, 5))]}
    g = draw(gen.graphs(1, 12 if tier == "thorough" else 8, unique=draw(gen.weighted((True, 2), (False, 1))),
                        names=gen.NAMES[: draw(gen.weighted((1, 1), (3, 2), (10, 2)))]))
    n = len(g["frames"])
    ids = draw(gen.weighted(("all", 2), ("shared", 2), ("some", 1)))
    num = draw(st.permutations(range(n)))
    gap = draw(gen.weighted((1, 3), (3, 1)))
    return {
        "mode": mode,
        "graph": g,
        "ids": [num[i] * gap if ids == "all" or len(g["parents"][i]) > 1 or (ids == "some" and draw(st.booleans())) else None
                for i in range(n)],
        "metrics": [{m: (i if m == "uid" else draw(gen.value(nan=False))) for m in METRICS
                     if m == "uid" or draw(gen.weighted((True, 6), (False, 1)))} for i in range(n)],
        "again": [draw(st.booleans()) for _ in range(n)],
        "kids": [draw(st.permutations(range(n))) for _ in range(n)] if draw(st.booleans()) else None,
        "attributes": draw(st.booleans()),
        "what": draw(st.sampled_from(["frame", "metrics", "emptyframe", "name"])),
        "where": draw(st.integers(0, n - 1)),
    }


def literal(spec):
    g = spec["graph"]
    m = M.of(g)
    done = set()

    def lit(i):
        f = dict(g["frames"][i])
        d = {"frame": f, "metrics": dict(spec["metrics"][i])}
        if spec["ids"][i] is not None:
            d["metrics"]["_hatchet_nid"] = spec["ids"][i]
        if "name" not in f:
            d["name"] = row_name(f)
        if spec["attributes"]:
            d["attributes"] = {"color": "red"}
        kids = m.children[i]
        if spec["kids"]:
            kids = sorted(kids, key=lambda c: spec["kids"][i][c])
        if kids and (i not in done or (spec["again"][i] and all(spec["ids"][j] is not None for j in m.desc(i)))):
            done.add(i)
            d["children"] = [lit(c) for c in kids]
        elif spec["again"][i]:
            d["children"] = []
        return d

    return [lit(r) for r in m.roots]


def garble(x):
    if isinstance(x, dict):
        for v in x.values():
            garble(v)
        x.clear()
        x["name"] = "garbled"
    elif isinstance(x, list):
        for v in x:
            garble(v)
        del x[:]


def check_import(spec, case):
    g = spec["graph"]
    m = M.of(g)
    lits = literal(spec)
    given = copy.deepcopy(lits)
    with sut("from_literal"):
        gf = GraphFrame.from_literal(lits)
    ensure(lits == given, "from_literal changed the caller's literal")
    garble(lits)
    check_links(gf.graph, "from_literal")
    used = sorted({k for x in spec["metrics"] for k in x})
    want = {
        "nodes": {i: (m.frames[i], sorted(m.children[i]), sorted(m.parents[i])) for i in range(m.n)},
        "roots": m.roots,
        "rows": {(i,): dict({k: spec["metrics"][i].get(k) for k in used}, name=row_name(g["frames"][i])) for i in range(m.n)},
        "levels": ["node"],
        "cols": used + ["name"],
        "exc": sorted(k for k in used if "(inc)" not in k),
        "inc": sorted(k for k in used if "(inc)" in k),
    }
    got = by_uid(gf, "from_literal")
    compare(want, got, "from_literal")
    if all(k is not None for k in spec["ids"]):
        case.label("all ids")
        nids = by_nid(gf, "from_literal")
        ensure({k[0]: int(v["uid"]) for k, v in nids["rows"].items()} == {k: i for i, k in enumerate(spec["ids"])},
               "from_literal: nodes do not have the given ids")
    shared = any(len(p) > 1 for p in m.parents)
    case.label("shared" if shared else "forest")
    if len(m.roots) > 1:
        case.label("several roots")
    lacking = any(len(x) < len(used) for x in spec["metrics"])
    case.nt(m.n > 1 and (shared or lacking or len(m.roots) > 1 or all(k is not None for k in spec["ids"])))


def check_export(spec, case):
    gf = prep(spec["gf"])
    if "uid" not in gf.exc_metrics:
        gf.exc_metrics = gf.exc_metrics + ["uid"]
    # several nodes may have been merged: give each its tag back
    nid = {}
    for x in gf.dataframe.index.get_level_values("node"):
        nid.setdefault(x._hatchet_nid, len(nid))
    gf.dataframe["uid"] = [nid[x._hatchet_nid] for x in gf.dataframe.index.get_level_values("node")]
    full = by_uid(gf, "input")
    levels = spec["gf"]["levels"]
    kw, at = {}, ()
    for lv, k in zip(levels, spec["pick"]):
        # a value that every node has
        rows = {}
        for key in full["rows"]:
            rows.setdefault(key[0], set()).add(key[1:])
    if levels:
        common = sorted(set.intersection(*rows.values()))
        if not common:
            from ..core import Discard
            raise Discard("no rank/thread that every node has")
        at = common[spec["pick"][0] % len(common)]
        kw = dict(zip(levels, at))
        case.label("multiindex")
    cats = ["name", "module", "nothing"] if spec["cats"] else []
    before = snap(gf)
    with sut("to_literal"):
        lits = gf.to_literal(cat_columns=cats, **kw) if cats else gf.to_literal(**kw)
    assert_unchanged(before, gf, "to_literal")

    def attrs(x):
        ensure(set(x["attributes"]) == {c for c in cats if c in full["cols"]}, "to_literal: attributes are %r", x["attributes"])
        row = full["rows"][(int(x["metrics"]["uid"]),) + at]
        for c, v in x["attributes"].items():
            ensure(same(cell(v), row[c]), "to_literal: attribute %s is %r, expected %r", c, v, row[c])
        for y in x.get("children", []):
            attrs(y)

    for x in lits:
        attrs(x)
    with sut("from_literal"):
        back = GraphFrame.from_literal(lits)
    check_links(back.graph, "from_literal(to_literal)")
    metrics = full["exc"] + full["inc"]

    def out(v):
        return 0.0 if is_missing(v) or math.isinf(v) else v

    want = dict(full, levels=["node"], cols=metrics + ["name"],
                rows={(k[0],): dict({c: out(v[c]) for c in metrics}, name=v["name"]) for k, v in full["rows"].items() if k[1:] == at},
                exc=sorted(c for c in metrics if "(inc)" not in c), inc=sorted(c for c in metrics if "(inc)" in c))
    compare(want, by_uid(back, "from_literal(to_literal)"), "from_literal(to_literal)")
    a, b = by_nid(gf, "input"), by_nid(back, "from_literal(to_literal)")
    ensure(a["nodes"] == b["nodes"], "from_literal(to_literal): node ids differ")
    with sut("graph comparison"):
        ensure(back.graph == gf.graph, "the graph read back is not equal to the source's")
    case.label("export")
    case.nt(len(a["nodes"]) > 1 and (len(a["roots"]) > 1 or any(len(v[2]) > 1 for v in a["nodes"].values()) or bool(levels)))


def check_reject(spec, case):
    lits = literal(dict(spec, again=[False] * len(spec["again"])))
    flat = []

    def walk(x):
        flat.append(x)
        for y in x.get("children", []):
            walk(y)

    for x in lits:
        walk(x)
    with sut("from_literal"):
        GraphFrame.from_literal(copy.deepcopy(lits))
    x = flat[spec["where"] % len(flat)]
    x["metrics"].pop("_hatchet_nid", None)  # described here only
    what = spec["what"]
    if what == "emptyframe":
        x["frame"] = {}
    elif what == "name":
        x["frame"].pop("name", None)
        x["frame"]["line"] = 1
        x.pop("name", None)
    else:
        del x[what]
        if what == "metrics":
            x.pop("attributes", None)
    case.label("reject " + what)
    case.nt(len(flat) > 1)
    expect_raises("from_literal of a node without %s" % what, (KeyError, ValueError, TypeError), lambda: GraphFrame.from_literal(lits))


def check(spec, case):
    {"import": check_import, "export": check_export, "reject": check_reject}[spec["mode"]](spec, case)
