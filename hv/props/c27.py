import os
import struct
from xml.sax.saxutils import quoteattr

from hv import strat as st

from .. import gen
from ..build import GraphFrame
from ..core import ensure
from ..rd import match_forest, metrics, put, read, scratch, usable

EXAMPLES = {"quick": 600, "thorough": 6000}
RULE = (
    "HPCToolkit databases: experiment files with 1-2 roots and 1-12 procedures, inlined procedures, loops and "
    "statements in any order (statements after calls into other files, callsites with and without lines, ids with "
    "gaps), 1-3 ranks with 1-3 CPU threads and GPU streams each, possibly different ones, and 1-4 metrics; "
    "non-trivial: at least four scopes and several ranks or threads"
)
ASSUMPTIONS = [
    "metric-db files are big endian, as the reader demands, and hold a record for every id",
    "procedures other than roots are below callsites (inlined ones below nameless ones), statements below procedures and loops",
    "values are multiples of 1/8, so that differences are exact",
]

PROCS = ["main", "MPI_Init", "foo<int, char&>", "op \"x\"", "é()", "<unknown procedure>"]
FILES = ["/x/a.c", "b.cc", "<unknown file>", "./src/a.c"]
LIBS = ["a.out", "/lib64/libc.so"]
TIMES = [["CPUTIME (usec) (I)", "CPUTIME (usec) (E)"], ["CPUTIME (sec) (I)", "CPUTIME (sec) (E)"]]
OTHERS = ["PAPI_TOT_CYC (I)", "PAPI_TOT_CYC (E)", "GPUOP (sec):Sum (I)", "GPUOP (sec):Sum (E)"]


@st.composite
def strategy(draw, tier):
    n = draw(st.integers(1, 18 if tier == "thorough" else 12))
    sites = draw(gen.weighted((2, 1), (99, 3)))  # few or many different lines
    line = st.integers(0, sites)
    nodes, nroots = [], draw(gen.weighted((1, 3), (2, 1)))
    for i in range(n):
        v = {"tag": "PF", "parent": None, "f": draw(st.integers(0, len(FILES) - 1)), "l": draw(line),
             "n": draw(st.integers(0, len(PROCS) - 1)), "lm": draw(st.integers(0, 1)), "site": None}
        if i >= nroots:
            up = [j for j, w in enumerate(nodes) if w["tag"] != "S"]
            v["parent"] = gen.pick(draw, up[-3:] if draw(st.booleans()) else up)
            v["tag"] = draw(gen.weighted(("PF", 3), ("Pr", 1), ("L", 2), ("S", 3)))
            if v["tag"] in ("PF", "Pr"):
                v["site"] = draw(line)
        nodes.append(v)
    n = len(nodes)
    shape = gen.pick(draw, ["one", "ranks", "ranks", "threads", "uneven", "gpu"])
    ranks = [0] if shape == "one" else gen.pick(draw, [[0], [0, 1], [0, 1, 2]] if shape in ("threads", "gpu") else [[0, 1], [0, 1, 2], [0, 2], [1, 3], [9, 10, 100]])
    nt = 1 if shape in ("one", "ranks") else draw(st.integers(2, 3))
    places = []
    for r in ranks:
        for t in range(nt):
            if t == 0 or shape != "uneven" or draw(st.booleans()):
                places.append([r, t + 498 if shape == "gpu" and t and (nt == 2 or t == 2) and t + 498 >= 500 else t])
        if shape == "gpu":
            places[-1][1] = 500
    mets = list(gen.pick(draw, TIMES)) if draw(gen.weighted((True, 3), (False, 1))) else []
    mets += OTHERS[: 2 * draw(st.integers(0 if mets else 1, 2))]
    if draw(st.booleans()):
        mets.reverse()
    val = st.integers(0, 800).map(gen.real)
    return {
        "nodes": nodes, "places": places, "metrics": mets,
        "first": draw(gen.weighted((0, 2), (9, 1))),
        "gap": [draw(gen.weighted((0, 3), (1, 1))) for _ in nodes],
        "values": [[[draw(val) for _ in mets] for _ in range(n)] for _ in places],
        "order": draw(st.permutations(range(n))), "partial": draw(st.booleans()),
    }


def check(spec, case):
    nodes, places, mets = spec["nodes"], [tuple(p) for p in spec["places"]], spec["metrics"]
    many_t = any(t != places[0][1] for _, t in places)
    case.nt(len(nodes) > 3 and len(places) > 1)
    case.label("threads" if many_t else "ranks" if len(places) > 1 else "one process")
    kids = {i: [j for j in spec["order"] if nodes[j]["parent"] == i] for i in [None] + list(range(len(nodes)))}
    ids, xml, count = {}, [], [1]

    def new(gap=0):
        count[0] += 1 + gap
        return count[0]

    def tables(tag, item, names, off):
        return ["<%s>" % tag] + ['<%s i="%d" n=%s/>' % (item, k + off, quoteattr(v)) for k, v in enumerate(names)] + ["</%s>" % tag]

    def value_lines(i):
        return ['<M n="0" v="%r"/>' % spec["values"][0][i][0]] if spec["partial"] else []

    def emit(i):
        v = nodes[i]
        where = 's="%d" l="%d"' % (i + 700, v["l"])
        proc = 'lm="%d" f="%d" n="%d"' % (v["lm"] + 2, v["f"] + 10, v["n"] + 30)
        if v["site"] is not None:
            k = new(spec["gap"][i])
            if v["tag"] == "PF":
                xml.append('<C i="%d" s="%d" l="%d">' % (k, i + 900, v["site"]))
            else:  # a nameless procedure has the line of the call
                xml.append('<Pr i="%d" s="%d" l="%d" lm="%d" f="%d" n="29">' % (k, i + 900, v["site"], v["lm"] + 2, v["f"] + 10))
        ids[i] = new()
        if v["tag"] == "S":
            xml.append('<S i="%d" %s/>' % (ids[i], where))
            return
        xml.append('<%s i="%d" %s %s>' % (v["tag"], ids[i], where, proc if v["tag"] != "L" else 'f="%d"' % (v["f"] + 10)))
        xml.extend(value_lines(i))
        for j in kids[i]:
            emit(j)
        xml.append("</%s>" % v["tag"])
        if v["site"] is not None:
            xml.append("</C>" if v["tag"] == "PF" else "</Pr>")

    for r in kids[None]:
        emit(r)
    text = ['<?xml version="1.0"?>', '<HPCToolkitExperiment version="2.0">', '<Header n="a.out"><Info/></Header>',
            '<SecCallPathProfile i="0" n="a.out">', "<SecHeader>", "<MetricTable></MetricTable>"]
    text += ["<MetricDBTable>"]
    order = list(enumerate(mets))
    text += ['<MetricDB i="%d" n=%s db-glob="*.metric-db" db-id="%d" db-num-metrics="%d" db-header-sz="32"/>' % (
        k + spec.get("first", 0), quoteattr(m), k, len(mets)) for k, m in (reversed(order) if spec["gap"][0] else order)]
    text += ["</MetricDBTable>"] + tables("LoadModuleTable", "LoadModule", LIBS, 2) + tables("FileTable", "File", FILES, 10)
    text += tables("ProcedureTable", "Procedure", [""] + PROCS, 29) + ["</SecHeader>", "<SecCallPathProfileData>"]
    text += xml + ["</SecCallPathProfileData>", "</SecCallPathProfile>", "</HPCToolkitExperiment>"]
    num = count[0]
    own = {ids[i]: i for i in ids}
    with scratch() as tmp:
        put(os.path.join(tmp, "experiment.xml"), "\n".join(text))
        for k, (r, t) in enumerate(places):
            body = [x for nid in range(1, num + 1)
                    for x in (spec["values"][k][own[nid]] if nid in own else [7.0 + nid] * len(mets))]
            put(os.path.join(tmp, "1.a.out-%06d-%03d-a8c00270-1604%d-0.metric-db" % (r, t, k)),
                b"HPCPROF-metricdb__" + b"00.10" + b"b" + struct.pack(">ii", num, len(mets)) + struct.pack(">%dd" % len(body), *body), "wb")
        d = read("from_hpctoolkit", GraphFrame.from_hpctoolkit, tmp)
    cols = [{"CPUTIME (usec) (E)": "time", "CPUTIME (sec) (E)": "time", "CPUTIME (usec) (I)": "time (inc)",
             "CPUTIME (sec) (I)": "time (inc)"}.get(m, m) for m in mets]
    inc = [c for c in cols if "(inc)" in c or "(I)" in c]
    metrics(d, [c for c in cols if c not in inc], inc, "from_hpctoolkit")
    ensure(d["levels"] == ["node", "rank"] + ["thread"] * many_t, "index levels are %r", d["levels"])

    def file_of(i):
        return FILES[nodes[i]["f"]] if nodes[i]["tag"] != "S" else file_of(nodes[i]["parent"])

    tree = {}
    for i, v in enumerate(nodes):
        f = file_of(i)
        base = os.path.basename(f)
        if v["tag"] in ("PF", "Pr"):
            name = PROCS[v["n"]] if not v["site"] else "%d:%s" % (v["site"], PROCS[v["n"]])
            frame = {"type": "function", "name": name}
        elif v["tag"] == "L":
            name = "Loop@%s:%d" % (base, v["l"])
            frame = {"type": "loop", "file": f, "line": v["l"]}
        else:
            name = "%s:%d" % (base, v["l"])
            frame = {"type": "statement", "file": f, "line": v["l"]}
        rows = {}
        for k, p in enumerate(places):
            vals = {"name": name, "type": v["tag"], "file": f, "line": v["l"], "nid": ids[i],
                    "module": LIBS[v["lm"]] if v["tag"] in ("PF", "Pr") else None}
            for m, c in enumerate(cols):
                vals[c] = spec["values"][k][i][m]
                if c not in inc:  # without the statements in the scope itself
                    vals[c] -= sum(spec["values"][k][j][m] for j in kids[i] if nodes[j]["tag"] == "S")
            rows[p if many_t else p[:1]] = vals
        tree[i] = (frame, rows, kids[i])
    if any(nodes[i]["tag"] == "S" and nodes[kids[v["parent"]][p - 1]]["tag"] != "S" and p
           for i, v in enumerate(nodes) if v["parent"] is not None for p in [kids[v["parent"]].index(i)]):
        case.label("statement after a call or loop")
    match_forest(d, tree, kids[None], "from_hpctoolkit")
    at = dict(zip(("rank", "thread"), places[-1] if many_t else places[-1][:1]))
    usable(d["gf"], "the profile read", **at)
