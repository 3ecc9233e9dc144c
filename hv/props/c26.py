import os

from hv import strat as st

from .. import gen
from ..build import GraphFrame
from ..core import Discard, ensure, expect_raises, sut
from ..rd import call, compare_paths, put, read, scratch, usable

EXAMPLES = {"quick": 4000, "thorough": 30000}
RULE = (
    "Caliper .cali files written node by node and record by record: 1-9 regions (forests, repeated paths through "
    "different attributes, labels with escaped characters), GPU kernel and copy records below them, 0-3 ranks, "
    "integer, real and boolean metrics with and without aliases and units, hidden and text attributes, other "
    "channels, records without a region, columns of a node spread over several records, node order, run metadata, "
    "time series with 1-4 intervals; given as a file name or a CaliperReader; non-trivial: several regions and an "
    "unrecorded (region, rank), several records per row, a time series, ranks or a node order"
)
ASSUMPTIONS = [
    "caliperreader's interpretation of the file format",
    "no two records give the same column of the same path and rank (and interval)",
    "displayed column names differ; node order is recorded for every region, with one number each",
    "a time series starts at 0 with at least one record in every interval, and a record carries its interval",
    "metrics are inclusive if their displayed name says '(inc)' or 'inclusive', as the reader classifies them",
]

LABELS = ["main", "foo", "bar", "a b", "x,y=z\\w", "é"]
# attribute -> (type node, type, alias)
METRICS = {
    "sum#time.duration": (5, "double", None),
    "inclusive#sum#time.duration": (5, "double", None),
    "sum#avg#sum#time.duration": (5, "double", "Total time"),
    "avg#inclusive#sum#time.duration": (5, "double", "Avg time/rank (inc)"),
    "max#inclusive#sum#time.duration": (5, "double", "Max time/rank"),
    "sum#avg#inclusive#sum#time.duration": (5, "double", None),
    "count": (2, "uint", None),
    "sum#papi.x": (1, "int", "papi"),
    "io": (5, "double", "io (inc)"),
    "flag": (6, "bool", None),
    "own": (0, "usr", None),
}
RENAME = {
    "sum#time.duration": "time", "sum#avg#sum#time.duration": "time", "inclusive#sum#time.duration": "time (inc)",
    "sum#avg#inclusive#sum#time.duration": "time (inc)",
}
META = [
    ("mpi.world.size", "4", 4), ("ratio", "0.5", 0.5), ("cluster", "quartz", "quartz"), ("l", "[a, b,c]", ["a", "b", "c"]),
    ("t", "(x, y)", ["x", "y"]), ("neg", "-3", -3), ("e", "a=b,c\\d", "a=b,c\\d"),
]


@st.composite
def strategy(draw, tier):
    n = draw(st.integers(1, 14 if tier == "thorough" else 9))
    labels = LABELS[: draw(st.integers(1, len(LABELS)))]
    forest = draw(gen.weighted((False, 2), (True, 1)))
    nodes = []
    for i in range(n):
        p = draw(st.integers(0, i - 1)) if i and not (forest and draw(gen.weighted((True, 1), (False, 3)))) else None
        nodes.append({"label": gen.pick(draw, labels), "parent": p, "attr": draw(gen.weighted((0, 3), (1, 1), (2, 1))), "gpu": None})
    if draw(gen.weighted((True, 1), (False, 3))):
        for _ in range(draw(st.integers(1, 4))):
            nodes.append({"label": draw(gen.weighted(("memcpy", 1), ("kern<int, 2>", 1), ("kern2", 1))),
                          "parent": draw(st.integers(0, n - 1)), "attr": 0, "gpu": True})
    ranks = draw(gen.weighted((0, 2), (1, 1), (2, 2), (3, 1)))
    mets = sorted(draw(st.lists(st.sampled_from(sorted(METRICS)), min_size=1, max_size=5, unique=True)))
    if "sum#time.duration" in mets and "sum#avg#sum#time.duration" in mets:
        mets.remove("sum#avg#sum#time.duration")
    if "inclusive#sum#time.duration" in mets and "sum#avg#inclusive#sum#time.duration" in mets:
        mets.remove("inclusive#sum#time.duration")
    if mets == ["own"]:
        mets = ["count", "own"]
    series = draw(gen.weighted((0, 4), (1, 1), (2, 1), (3, 1), (4, 1)))
    order = not series and not ranks and draw(gen.weighted((True, 1), (False, 4)))
    if order:
        for i, v in enumerate(nodes):
            while any(w["parent"] == v["parent"] and w["label"] == v["label"] for w in nodes[:i]):
                v["label"] += "'"

    def path(i):
        return (path(nodes[i]["parent"]) if nodes[i]["parent"] is not None else ()) + (nodes[i]["label"],)

    alike = {}
    for i in range(len(nodes)):
        alike.setdefault(path(i), []).append(i)
    seen = set()
    full = order or draw(gen.weighted((True, 1), (False, 3)))
    split = draw(gen.weighted((False, 2), (True, 1)))
    rows = []
    for it in [None] + list(range(series)) if series else [None]:
        for i in range(len(nodes)):
            if series and it is None and draw(st.booleans()):
                continue
            for r in range(ranks or 1):
                if not full and not draw(gen.weighted((True, 3), (False, 2))):
                    continue
                if (path(i), r, it or 0) in seen:
                    continue
                seen.add((path(i), r, it or 0))
                vals = [gen.real(draw(st.integers(0, 64)), 8 if draw(st.booleans()) else 1) if not draw(gen.weighted((True, 1), (False, 4))) else None
                        for _ in mets]
                parts = [vals]
                if split and draw(st.booleans()):
                    keep = [draw(st.booleans()) for _ in mets]
                    parts = [[v if k else None for v, k in zip(vals, keep)], [None if k else v for v, k in zip(vals, keep)]]
                text = draw(gen.weighted((None, 2), (0, 1), (1, 1), (2, 1)))
                for k, p in enumerate(parts):
                    rows.append({"node": gen.pick(draw, alike[path(i)]), "rank": r, "it": it, "vals": p, "text": None if k else text,
                                 "chan": draw(gen.weighted((0, 1), (1, 1)))})
    for it in range(series) if series else [None]:
        if not any(r["it"] == it for r in rows):
            i = draw(st.integers(0, len(nodes) - 1))
            gone = [r for r in rows if it == 0 and path(r["node"]) == path(i)]
            rows = [r for r in rows if r not in gone]
            rows += [{"node": i, "rank": 0, "it": it, "vals": [1.0 for _ in mets], "text": None, "chan": 1}]
    return {
        "nodes": nodes, "ranks": ranks, "metrics": mets, "aliases": [draw(st.booleans()) for _ in mets],
        "units": draw(st.booleans()), "series": series, "steps": draw(gen.weighted((1, 2), (20, 1))), "rows": rows,
        "order": draw(st.permutations(range(len(nodes)))) if order else None,
        "shuffle": draw(st.permutations(range(len(rows)))) if draw(st.booleans()) else None,
        "chan": draw(gen.weighted((False, 2), (True, 1))), "others": draw(st.integers(0, 2)), "hidden": draw(st.booleans()),
        "native": draw(gen.weighted((False, 2), (True, 1))), "strings": draw(gen.weighted(("none", 2), ("one", 1), ("list", 1))),
        "level": draw(gen.weighted(("loop.start_iteration", 2), ("iter", 1))),
        "meta": sorted(draw(st.lists(st.integers(0, len(META) - 1), max_size=4, unique=True))), "env": draw(gen.weighted((False, 2), (True, 1))),
        "via": draw(gen.weighted(("file", 2), ("reader", 1))), "lazy": draw(st.booleans()),
        "badext": draw(gen.weighted((False, 15), (True, 1))),
    }


def esc(s):
    return "".join("\\" + c if c in ",=\\" else c for c in s)


class Writer:
    """The lines of a .cali file."""

    def __init__(self, unit):
        self.lines = []
        self.next = 12
        self.attrs = {}
        self.nodes = {}
        self.unit = unit
        text = self.node(10, "64", 3)
        self.alias = self.node(8, "attribute.alias", text)
        self.units = self.node(8, "attribute.unit", text)

    def node(self, attr, data, parent=None):
        key = (attr, data, parent)
        if key not in self.nodes:
            line = "__rec=node,id=%d,attr=%d,data=%s" % (self.next, attr, esc(data))
            self.lines.append(line + (",parent=%d" % parent if parent is not None else ""))
            self.nodes[key] = self.next
            self.next += 1
        return self.nodes[key]

    def attr(self, name, typ, prop, alias=None):
        if name not in self.attrs:
            p = typ
            if self.unit and typ == 5:
                p = self.node(self.units, "sec", p)
            if alias:
                p = self.node(self.alias, alias, p)
            self.attrs[name] = self.node(8, name, self.node(10, "%d" % prop, p))
        return self.attrs[name]

    def rec(self, kind, refs, vals):
        line = "__rec=" + kind
        if refs:
            line += ",ref=" + "=".join(map(str, refs))
        if vals:
            line += ",attr=" + "=".join(str(a) for a, _ in vals) + ",data=" + "=".join(esc(v) for _, v in vals)
        self.lines.append(line)


REGIONS = ["function", "region", "loop"]


def number(typ, x):
    """The value recorded: negative integers and unsigned ones beyond the signed range, too."""
    if typ == "int":
        return -int(x) if int(x) % 3 == 1 else int(x)
    if typ == "uint":
        return 2**63 + int(x) if int(x) % 16 == 15 else int(x)
    return int(x) % 2 if typ == "bool" else x


def document(spec):
    w = Writer(spec["units"])
    nodes = spec["nodes"]

    def met(k):
        m = spec["metrics"][k]
        return w.attr(m, METRICS[m][0], 65, METRICS[m][2] if spec["aliases"][k] else None)

    def region(i):
        v = nodes[i]
        up = region(v["parent"]) if v["parent"] is not None else None
        if v["gpu"]:
            return up
        return w.node(w.attr(REGIONS[v["attr"]], 3, 268), v["label"], up)

    if not spec["lazy"]:
        for k in range(len(spec["metrics"])):
            met(k)
        for i in range(len(nodes)):
            region(i)
    rows = spec["rows"]
    if spec["shuffle"]:
        rows = [rows[k] for k in spec["shuffle"]]
    if spec["series"]:
        rows = sorted(rows, key=lambda r: -1 if r["it"] is None else r["it"])
    chan = {c: None for c in ("regionprofile", "other")}
    if spec["chan"]:
        chan = {c: w.node(w.attr("spot.channel", 3, 64), c) for c in chan}
    for pos, r in enumerate(rows):
        v = nodes[r["node"]]
        refs = [region(r["node"])]
        if spec["chan"] and r["chan"]:
            refs.insert(r["chan"] % 2, chan["regionprofile"])
        if v["gpu"]:
            refs.append(w.node(w.attr("cupti.activity.kind", 3, 76), "memcpy" if v["label"] == "memcpy" else "kernel"))
            if v["label"] != "memcpy":
                refs.append(w.node(w.attr("cupti.kernel.name", 3, 76), v["label"]))
        if r["text"] is not None:
            a = w.attr("module", 3, 76)
            if pos % 2:
                refs.append(w.node(a, "mod%d" % r["text"]))
            else:
                refs[refs.index(region(r["node"]))] = w.node(a, "mod%d" % r["text"], region(r["node"]))
        if pos % 3 == 0:
            # text that is never asked for
            refs.append(w.node(w.attr("mod" if pos % 2 else "odul", 3, 76), "m"))
        vals = []
        for k, x in enumerate(r["vals"]):
            if x is not None:
                typ = METRICS[spec["metrics"][k]][1]
                x = number(typ, x)
                vals.append((met(k), repr(x) if typ == "double" else ["false", "true"][x] if typ == "bool" else "%d" % x))
        if spec["ranks"]:
            vals.append((w.attr("mpi.rank", 1, 77), "%d" % r["rank"]))
        if spec["order"]:
            vals.append((w.attr("min#min#aggregate.slot", 2, 65, "Node order"), "%d" % spec["order"][r["node"]]))
        if spec["hidden"]:
            vals.append((w.attr("count#h", 2, 193), "7"))
        if spec["series"]:
            vals.append((w.attr("timeseries.snapshot", 2, 85), "%d" % (0 if r["it"] is None else r["it"] + 1)))
            if r["it"] is not None:
                vals.append((w.attr(spec["level"], 1, 85), "%d" % (r["it"] * spec["steps"])))
        w.rec("ctx", refs, vals)
        if pos < spec["others"]:
            w.rec("ctx", [x for x in [chan["regionprofile"]] if x], vals)
            if spec["chan"]:
                w.rec("ctx", [chan["other"], w.node(w.attr("region", 3, 268), "elsewhere")],
                      [(a, d) for a, d in vals if not spec["series"] or a != w.attrs.get(spec["level"])])
    if spec["meta"] or spec["env"]:
        refs = []
        if spec["env"]:
            a = w.attr("env", 3, 512 + 64)
            refs = [w.node(a, "two", w.node(a, "one"))]
        w.rec("globals", refs, [(w.attr(META[k][0], 3, 512 + 65), META[k][1]) for k in spec["meta"]])
    return "\n".join(w.lines) + "\n"


def expected(spec):
    """Paths, in order of record, and per interval the rows {path: {index: {column: value}}}."""
    nodes = spec["nodes"]

    def path(i):
        v = nodes[i]
        own = {"type": "function" if not v["gpu"] else "memcpy" if v["label"] == "memcpy" else "kernel", "name": v["label"]}
        return (path(v["parent"]) if v["parent"] is not None else ()) + (tuple(sorted(own.items())),)

    shown = {}
    for k, m in enumerate(spec["metrics"]):
        if m != "own":
            alias = METRICS[m][2] if spec["aliases"][k] and not spec["native"] else None
            shown[m] = alias or m
    if not spec["rows"]:
        raise Discard()
    every = {path(r["node"])[: k + 1] for r in spec["rows"] for k in range(len(path(r["node"])))}
    seen_cols = {spec["metrics"][k] for r in spec["rows"] for k, x in enumerate(r["vals"]) if x is not None} & set(shown)
    seen_text = any(r["text"] is not None for r in spec["rows"]) and spec["strings"] != "none"
    out = []
    for it in range(spec["series"] or 1):
        mine = [r for r in spec["rows"] if not spec["series"] or r["it"] == it or (it == 0 and r["it"] is None)]
        kept = [r for r in spec["rows"] if spec["series"] and r["it"] is None and it > 0]
        if not mine or (spec["series"] and not any(r["it"] == it for r in mine)):
            raise Discard()
        top = max(r["rank"] for r in mine + kept)
        cells = {p: {} for p in every}
        for r in mine + kept:
            row = cells[path(r["node"])].setdefault((r["rank"],) if spec["ranks"] else (), {})
            for k, x in enumerate(r["vals"]):
                m = spec["metrics"][k]
                if m in shown:
                    col = RENAME.get(shown[m], shown[m])
                    v = None if r in kept or x is None else number(METRICS[m][1], x)
                    if row.get(col) is not None and v is not None:
                        raise Discard()
                    if v is not None or col not in row:
                        row[col] = v
            if spec["strings"] != "none" and r not in kept:
                t = None if r["text"] is None else "mod%d" % r["text"]
                if row.get("module") and t:
                    raise Discard()
                if t or "module" not in row:
                    row["module"] = t
            if spec["series"] and r["it"] is not None:
                row[spec["level"]] = r["it"] * spec["steps"]
        for p, rows in cells.items():
            for idx in [(k,) for k in range(top + 1)] if spec["ranks"] else [()]:
                if idx not in rows:
                    rows[idx] = {RENAME.get(s, s): 0 for m, s in shown.items() if m in seen_cols}
                rows[idx]["name"] = dict(p[-1])["name"]
        now = {spec["metrics"][k] for r in mine for k, x in enumerate(r["vals"]) if x is not None} & set(shown)
        for rows in cells.values():
            for row in rows.values():
                for m, s in shown.items():
                    if m not in now:
                        # a column may be absent if nothing in the interval has a value there
                        row.pop(RENAME.get(s, s), None)
                if not any(r["text"] is not None for r in mine):
                    row.pop("module", None)
        out.append((cells, {RENAME.get(shown[m], shown[m]): shown[m] for m in now}, {RENAME.get(shown[m], shown[m]): shown[m] for m in seen_cols}))
    return every, out


def check(spec, case):
    every, exp = expected(spec)
    if spec["order"]:
        # one order per path
        labels = [(v["parent"], v["label"]) for v in spec["nodes"]]
        if len(set(labels)) < len(labels):
            raise Discard()
    text = document(spec)
    case.label("%d ranks" % spec["ranks"], "%d intervals" % spec["series"], spec["via"], "native" if spec["native"] else "aliases")
    gpu = any(spec["nodes"][r["node"]]["gpu"] for r in spec["rows"])
    if gpu:
        case.label("gpu")
    recorded = {(r["node"], r["rank"], r["it"]) for r in spec["rows"]}
    case.nt(len(every) > 1 and (bool(spec["series"] or spec["ranks"] > 1 or spec["order"]) or len(recorded) < len(spec["rows"])
                                or len(recorded) < len(spec["nodes"]) * max(1, spec["ranks"])))
    strings = {"none": [], "one": "module", "list": ["module", "nothing"]}[spec["strings"]]
    with scratch() as tmp:
        if spec["badext"]:
            name = put(os.path.join(tmp, "x.json"), text)
            expect_raises("from_caliperreader of a file that is not named .cali", ValueError, lambda: GraphFrame.from_caliperreader(name))
        src = put(os.path.join(tmp, "x.cali"), text)
        if spec["via"] == "reader":
            import caliperreader

            src = caliperreader.CaliperReader()
            src.read(os.path.join(tmp, "x.cali"))
        if spec["series"]:
            kw = {} if spec["level"] == "loop.start_iteration" else {"level": spec["level"]}
            gfs = call("from_timeseries", GraphFrame.from_timeseries, src, native=spec["native"], string_attributes=strings, **kw)
            ensure(isinstance(gfs, list) and len(gfs) == spec["series"], "%d GraphFrames for %d intervals", len(gfs), spec["series"])
            ds = [read("from_timeseries", lambda gf=gf: gf) for gf in gfs]
        else:
            ds = [read("from_caliperreader", GraphFrame.from_caliperreader, src, native=spec["native"], string_attributes=strings)]
    want = {META[k][0]: META[k][2] for k in spec["meta"]}
    if spec["env"]:
        want["env"] = ["one", "two"]
    for k, (d, (cells, now, ever)) in enumerate(zip(ds, exp)):
        what = "from_timeseries, interval %d" % k if spec["series"] else "from_caliperreader"
        ensure(d["gf"].metadata == want, "%s: metadata is %r, expected %r", what, d["gf"].metadata, want)
        ensure(all(type(d["gf"].metadata[m]) is type(want[m]) for m in want), "%s: metadata is %r, expected %r", what, d["gf"].metadata, want)
        ensure(d["levels"] == (["node", "rank"] if spec["ranks"] else ["node"]), "%s: index levels are %r", what, d["levels"])
        ensure("Node order" not in d["cols"], "%s: the node order is a column", what)
        ensure("count#h" not in d["cols"], "%s: a hidden attribute is a column", what)
        ensure(not {"mod", "odul"} & set(d["cols"]), "%s: a text attribute not asked for is a column", what)
        if not strings:
            ensure("module" not in d["cols"], "%s: a text attribute not asked for is a column", what)
        for row in d["rows"].values():
            # unrecorded flags are 0
            if isinstance(row.get("flag"), bool):
                row["flag"] = int(row["flag"])
        compare_paths(d, cells, what)
        side = {"min#min#aggregate.slot", "timeseries.snapshot", "loop.start_iteration", "iter"}
        exc, inc = [m for m in d["gf"].exc_metrics if m not in side], [m for m in d["gf"].inc_metrics if m not in side]
        for m in list(d["gf"].exc_metrics) + list(d["gf"].inc_metrics):
            ensure(m in d["cols"], "%s: metric %r is no column", what, m)
        ensure(len(set(exc + inc)) == len(exc + inc), "%s: metrics are listed twice: %r, %r", what, exc, inc)
        ensure(set(now) <= set(exc + inc) <= set(ever), "%s: metrics are %r, %r, expected %r", what, exc, inc, sorted(now))
        for m in exc + inc:
            ensure((m in inc) == ("(inc)" in ever[m] or "inclusive" in ever[m]), "%s: metrics are %r, %r", what, exc, inc)
        if spec["series"]:
            continue
        if exc + inc:
            ensure(d["gf"].default_metric in d["cols"], "%s: default metric %r is no column", what, d["gf"].default_metric)
        usable(d["gf"], "the profile read", **({"rank": 0} if spec["ranks"] else {})) if d["gf"].default_metric not in (None, "flag") else None
    if spec["order"]:
        d = ds[0]
        full = {}
        for i, v in enumerate(spec["nodes"]):
            full.setdefault(v["parent"], []).append(i)
        seq = []

        def visit(i):
            seq.append(spec["nodes"][i]["label"])
            for j in sorted(full.get(i, []), key=lambda j: spec["order"][j]):
                visit(j)

        for i in sorted(full[None], key=lambda i: spec["order"][i]):
            visit(i)
        with sut("traversal in node order"):
            got = [n.frame["name"] for n in d["gf"].graph.node_order_traverse()]
        ensure(got == seq, "node order is %r, expected %r", got, seq)
