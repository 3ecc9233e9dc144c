import io
import json
import os
import re
import stat

from hv import strat as st

from .. import gen
from ..build import GraphFrame
from ..core import ensure, sut
from ..rd import match_forest, metrics, put, read, same_vals, scratch, usable

EXAMPLES = {"quick": 5000, "thorough": 40000}
RULE = (
    "Caliper json-split profiles with 1-10 region or call path nodes (forests, same-label siblings, empty labels), 0-3 "
    "ranks, recorded and unrecorded nodes, columns in any order, nulls, aliases, attributes, node order, source "
    "locations that split nodes into statements, a secondary hierarchy to be summed over, run metadata; given as a "
    "file, text or binary stream, or through a stand-in for cali-query; non-trivial: several nodes and an unrecorded "
    "(node, rank), a null, a split node, a node order or a summed row"
)
ASSUMPTIONS = [
    "one record per node, rank (and source location), unless there is a secondary hierarchy",
    "parents precede their children in the nodes section, as cali-query writes it",
    "records carry a rank (and source location) wherever the column exists; with node order all nodes are recorded, with one number each",
    "metrics are inclusive if their name says '(inc)', as the reader classifies them",
]

LABELS = ["main", "foo", "bar", "a b", "é", ""]
METRICS = ["sum#time.duration", "inclusive#sum#time.duration", "count", "sum#papi.x", "io (inc)", "avg#bytes"]
ALT = {"sum#time.duration": "sum#avg#sum#time.duration", "inclusive#sum#time.duration": "sum#avg#inclusive#sum#time.duration"}
RENAME = {
    "sum#time.duration": "time", "sum#avg#sum#time.duration": "time", "inclusive#sum#time.duration": "time (inc)",
    "sum#avg#inclusive#sum#time.duration": "time (inc)", "module#cali.sampler.pc": "module",
}
FILES = ["/a/x.c", "/b/x.c", "y.h", "<unknown>", "C:/a:7/x.c"]
PATHCOL = {"path": "path", "callpath": "source.function#callpath.address", "both": "source.function#callpath.address"}


@st.composite
def strategy(draw, tier):
    mode = draw(gen.weighted(("path", 3), ("callpath", 3), ("both", 2)))
    n = draw(st.integers(1, 16 if tier == "thorough" else 10))
    labels = LABELS[: draw(st.integers(1, len(LABELS)))]
    forest = draw(gen.weighted((False, 2), (True, 1)))
    nodes = []
    for i in range(n):
        p = draw(st.integers(0, i - 1)) if i and not (forest and draw(gen.weighted((True, 1), (False, 3)))) else None
        nodes.append({"label": gen.pick(draw, labels), "parent": p})
    ranks = draw(gen.weighted((0, 1), (1, 1), (2, 2), (3, 1)))
    mets = sorted(draw(st.lists(st.sampled_from(METRICS), min_size=1, max_size=4, unique=True)))
    mets = [ALT.get(m, m) if draw(gen.weighted((True, 1), (False, 4))) else m for m in mets]
    attrs = draw(st.lists(st.sampled_from(["module#cali.sampler.pc", "kernel"]), max_size=2, unique=True))
    order = draw(gen.weighted((True, 1), (False, 4))) if mode != "both" else False
    sloc = mode != "path" and not order and draw(st.booleans())
    nulls = draw(gen.weighted((True, 1), (False, 2)))
    full = order or draw(gen.weighted((True, 1), (False, 3)))
    rows = []
    for i in range(n):
        for r in range(ranks or 1):
            if not full and not draw(gen.weighted((True, 3), (False, 2))):
                continue
            locs = [None]
            if sloc:
                locs = draw(st.lists(st.sampled_from([[f, ln] for f in range(len(FILES)) for ln in (1, 2)]), min_size=1, max_size=3, unique=True))
            for loc in locs:
                for _ in range(draw(st.integers(1, 2)) if mode == "both" else 1):
                    rows.append({
                        "node": i, "rank": r, "loc": loc, "second": draw(st.integers(0, 2)) - 1,
                        "vals": [None if nulls and mode != "both" and draw(gen.weighted((True, 1), (False, 3)))
                                 else gen.real(draw(st.integers(0, 64)), 8 if draw(st.booleans()) else 1) for _ in mets],
                        "attrs": [None if nulls and draw(gen.weighted((True, 1), (False, 3))) else draw(st.integers(0, 2)) for _ in attrs],
                    })
    if not rows:
        rows = [{"node": 0, "rank": 0, "loc": [0, 1] if sloc else None, "second": 0, "vals": [1.0 for _ in mets], "attrs": [0 for _ in attrs]}]
    ncols = 1 + bool(ranks) + len(mets) + len(attrs) + bool(order) + bool(sloc) + (mode == "both")
    return {
        "mode": mode, "nodes": nodes, "ranks": ranks, "metrics": mets, "attrs": attrs, "sloc": sloc, "rows": rows,
        "order": draw(st.permutations(range(n))) if order else None,
        "cols": draw(st.permutations(range(ncols))), "shuffle": draw(st.permutations(range(len(rows)))) if draw(st.booleans()) else None,
        "null_rows": [draw(st.integers(0, len(rows) + k)) for k in range(draw(gen.weighted((0, 2), (1, 1), (2, 1), (3, 1))))],
        "null_of": draw(st.integers(0, len(rows) - 1)), "meta": draw(st.booleans()), "extra_first": draw(st.booleans()),
        "via": draw(gen.weighted(("file", 3), ("binary", 1), ("text", 1), ("query", 1))),
    }


def document(spec):
    """The json-split document; records refer to nodes by position."""
    mode = spec["mode"]
    extra = []
    extra += [{"column": a, "label": "%s_%d" % (a[:3], k)} for a in spec["attrs"] for k in range(3)]
    extra += [{"column": "sourceloc#cali.sampler.pc", "label": "%s:%d" % (FILES[f], ln)} for f in range(len(FILES)) for ln in (1, 2)]
    extra += [{"column": "path", "label": "second%d" % k} for k in range(2)] if mode == "both" else []
    base = len(extra) if spec["extra_first"] else 0
    ebase = 0 if spec["extra_first"] else len(spec["nodes"])
    own = []
    for v in spec["nodes"]:
        d = {"label": v["label"], "column": PATHCOL[mode]}
        if v["parent"] is not None:
            d["parent"] = base + v["parent"]
        own.append(d)
    at = {(e["column"], e["label"]): ebase + k for k, e in enumerate(extra)}
    cols = [PATHCOL[mode]] + (["mpi.rank"] if spec["ranks"] else []) + spec["metrics"] + spec["attrs"]
    cols += (["Node order"] if spec["order"] else []) + (["sourceloc#cali.sampler.pc"] if spec["sloc"] else [])
    cols += ["path"] if mode == "both" else []
    recs = []
    for r in spec["rows"]:
        d = {PATHCOL[mode]: base + r["node"], "mpi.rank": r["rank"]}
        d.update(zip(spec["metrics"], r["vals"]))
        d.update({a: None if v is None else at[(a, "%s_%d" % (a[:3], v))] for a, v in zip(spec["attrs"], r["attrs"])})
        if spec["order"]:
            d["Node order"] = spec["order"][r["node"]]
        if spec["sloc"]:
            d["sourceloc#cali.sampler.pc"] = at[("sourceloc#cali.sampler.pc", "%s:%d" % (FILES[r["loc"][0]], r["loc"][1]))]
        if mode == "both":
            d["path"] = None if r["second"] < 0 else at[("path", "second%d" % r["second"])]
        recs.append(d)
    if spec["shuffle"]:
        recs = [recs[k] for k in spec["shuffle"]]
    null = spec["null_rows"] if isinstance(spec["null_rows"], list) else [k * 2 for k in range(spec["null_rows"])]
    of = recs[spec.get("null_of", 0)]
    for k, at_row in enumerate(null):  # records of other hierarchies, anywhere, some of them alike
        d = dict(of if k != 1 else recs[0])
        d[PATHCOL[mode]] = None
        recs.insert(at_row, d)
    order = [cols[k] for k in spec["cols"]]
    value = set(spec["metrics"]) | {"mpi.rank", "Node order"}
    doc = {
        "data": [[d[c] for c in order] for d in recs],
        "columns": order,
        "column_metadata": [{"is_value": c in value} for c in order],
        "nodes": (extra + own) if spec["extra_first"] else (own + extra),
    }
    if spec["meta"]:
        doc.update(META)
    return doc


META = {"mpi.world.size": "4", "cluster": "quartz", "é": "", "cali.channel": "hatchet-region-profile"}


def expected(spec):
    """{node: (frame, {rank: values}, children)} with statements split off."""
    mode, nodes = spec["mode"], spec["nodes"]
    mets = [RENAME.get(m, m) for m in spec["metrics"]]
    attrs = [RENAME.get(a, a) for a in spec["attrs"]]
    ranks = range(max(r["rank"] for r in spec["rows"]) + 1) if spec["ranks"] else [None]
    typ = "region" if mode == "path" else "function"
    zero = {m: 0 for m in mets}

    def values(rs):
        out = {}
        for k, m in enumerate(mets):
            vs = [r["vals"][k] for r in rs]
            out[m] = sum(vs) if mode == "both" else vs[0]
        if len(rs) == 1:
            for k, a in enumerate(attrs):
                out[a] = None if rs[0]["attrs"][k] is None else "%s_%d" % (spec["attrs"][k][:3], rs[0]["attrs"][k])
            if mode == "both":
                out["path"] = None if rs[0]["second"] < 0 else "second%d" % rs[0]["second"]
        return out

    def fill(rs):
        out = {}
        for rk in ranks:
            mine = [r for r in rs if rk is None or r["rank"] == rk]
            out[() if rk is None else (rk,)] = values(mine) if mine else zero
        return out

    tree = {}
    for i, v in enumerate(nodes):
        rs = [r for r in spec["rows"] if r["node"] == i]
        locs = sorted({tuple(r["loc"]) for r in rs}) if spec["sloc"] else []
        kids = [("n", j) for j, w in enumerate(nodes) if w["parent"] == i]
        frame = {"type": typ, "name": v["label"] or "UNKNOWN"}
        if len(locs) < 2:
            rows = fill(rs)
            if locs:
                for rk, vals in rows.items():
                    if any(rk == () or (r["rank"],) == rk for r in rs):
                        vals.update({"file": FILES[locs[0][0]], "line": str(locs[0][1])})
        else:
            rows = {k: zero for k in fill([])}
            for f, ln in locs:
                mine = fill([r for r in rs if tuple(r["loc"]) == (f, ln)])
                key = ("s", i, f, ln)
                tree[key] = ({"type": "statement", "file": FILES[f], "line": str(ln)},
                             {k: dict(x, name="%s:%d" % (os.path.basename(FILES[f]), ln)) for k, x in mine.items()}, [])
                kids.append(key)
        tree[("n", i)] = (frame, {k: dict(x, name=frame["name"]) for k, x in rows.items()}, kids)
    return tree, mets


def check(spec, case):
    doc = document(spec)
    tree, mets = expected(spec)
    recorded = {(r["node"], r["rank"]) for r in spec["rows"]}
    case.label(spec["mode"], spec["via"], "%d ranks" % spec["ranks"])
    split = any(k[0] == "s" for k in tree)
    if split:
        case.label("split nodes")
    if spec["order"]:
        case.label("node order")
    case.nt(len(spec["nodes"]) > 1 and (
        split or bool(spec["order"]) or len(recorded) < len(spec["nodes"]) * max(1, spec["ranks"])
        or any(v is None for r in spec["rows"] for v in r["vals"] + r["attrs"]) or len(recorded) < len(spec["rows"])))
    text = json.dumps(doc)
    with scratch() as tmp:
        if spec["via"] == "file":
            d = read("from_caliper", GraphFrame.from_caliper, put(os.path.join(tmp, "x.json"), text))
        elif spec["via"] == "binary":
            d = read("from_caliper", GraphFrame.from_caliper, io.BytesIO(text.encode("utf-8")))
        elif spec["via"] == "text":
            with open(put(os.path.join(tmp, "x.json"), text)) as f:
                d = read("from_caliper", GraphFrame.from_caliper, f)
        else:
            # a stand-in for cali-query that expects the query and file it should get
            put(os.path.join(tmp, "x.cali"), "__rec=attr,id=12,name=a,type=int,prop=default\n")
            put(os.path.join(tmp, "x.cali.json"), text)
            tool = put(os.path.join(tmp, "bin", "cali-query"),
                       '#!/bin/sh\n[ "$1" = -q ] && [ "$2" = "select * format json-split" ] && exec cat "$3.json"\nexit 1\n')
            os.chmod(tool, os.stat(tool).st_mode | stat.S_IXUSR)
            old = os.environ["PATH"]
            os.environ["PATH"] = os.path.dirname(tool) + os.pathsep + old
            try:
                d = read("from_caliper", GraphFrame.from_caliper, os.path.join(tmp, "x.cali"), "select * format json-split")
            finally:
                os.environ["PATH"] = old
    metrics(d, [m for m in mets if "(inc)" not in m], [m for m in mets if "(inc)" in m], "from_caliper")
    ensure(d["gf"].metadata == (META if spec["meta"] else {}), "metadata is %r", d["gf"].metadata)
    ensure(d["levels"] == (["node", "rank"] if spec["ranks"] else ["node"]), "index levels are %r", d["levels"])
    ensure("Node order" not in d["cols"], "the node order is a column")

    unknown = re.compile(r"UNKNOWN \d+$")

    def frame(f):
        return tuple((k, "UNKNOWN" if k == "name" and unknown.match(v) else v) for k, v in f)

    names = [dict(f).get("name") for f, _, _ in d["nodes"].values()]
    names = [x for x in names if isinstance(x, str) and unknown.match(x)]
    ensure(len(set(names)) == len(names), "nodes without a label are named %r", sorted(names))
    roots = [("n", i) for i, v in enumerate(spec["nodes"]) if v["parent"] is None]
    match_forest(d, tree, roots, "from_caliper", frame, lambda c, v: "UNKNOWN" if c == "name" and unknown.match(v) else v)
    if spec["order"]:
        # nodes are numbered and visited parents first, siblings in the recorded order
        exp = []

        def visit(i):
            exp.append(i)
            kids = [j for j, v in enumerate(spec["nodes"]) if v["parent"] == i]
            for j in sorted(kids, key=lambda j: spec["order"][j]):
                visit(j)

        for _, i in sorted(roots, key=lambda k: spec["order"][k[1]]):
            visit(i)
        with sut("traversal in node order"):
            seen = [n._hatchet_nid for n in d["gf"].graph.node_order_traverse()]
        ensure(seen == list(range(len(exp))), "nodes are numbered %r in node order", seen)
        for k, i in enumerate(exp):
            for idx, vals in tree[("n", i)][1].items():
                got = d["rows"][(k,) + idx]
                got = dict(got, name="UNKNOWN" if unknown.match(got["name"]) else got["name"])
                same_vals(got, vals, "from_caliper with node order", "node %d" % k)
    usable(d["gf"], "the profile read", **({"rank": 0} if spec["ranks"] else {}))
