import os
import re

from hv import strat as st

from .. import gen
from ..build import GraphFrame
from ..core import ensure, is_missing
from ..rd import match_forest, metrics, put, read, scratch, usable

EXAMPLES = {"quick": 3000, "thorough": 25000}
RULE = (
    "TAU profile directories: call path trees of 1-9 functions in TAU's name formats (C functions, file and line, "
    "samples, contexts, summaries, unwound frames, modules), 1-3 ranks and 1-3 threads (not necessarily consecutive) which each record any part of the "
    "call paths in any line order, 1-3 metrics in directories of their own, flat lines, user events and context events; "
    "non-trivial: at least three call paths and several ranks, threads or metrics"
)
ASSUMPTIONS = [
    "full-depth call paths below one root per process, each prefix of which is recorded by some rank or thread",
    "the files of all metrics list the same lines, as the reader demands",
    "line information has the form {line}, {line,0} or {line,column}-{line,column}; names contain no quotes",
]

FUNCS = ["foo()", "MPI_Init()", "bar", "int solve(int, char **)", "std::sort<int, a>(b, c)", "é()"]
FILES = ["/x/a.c", "b.cc", "/x/lib/c.f90", "/x/d.cpp"]
LIBS = ["/lib/libm.so", "/usr/lib64/libc-2.17.so"]
KINDS = [("plain", 3), ("c", 2), ("range", 2), ("sample", 2), ("col", 1), ("context", 1), ("summary", 1), ("module", 1), ("unwind", 2), ("unwind_lib", 1), ("unwind_lib_at", 1), ("unwind_both", 1)]
METRICS = ["TIME", "PAPI_L2_TCM", "CPU_TIME", "PAPI_TOT_CYC"]


@st.composite
def symbol(draw):
    """{"text", "name", and file, module, line, end where the format settles them}"""
    k = draw(gen.weighted(*KINDS))
    f, fl, ln, end = gen.pick(draw, FUNCS), gen.pick(draw, FILES), draw(st.integers(1, 99)), draw(st.integers(100, 120))
    one = f.split("(")[0].split(" ")[-1]  # a name without spaces
    lib = gen.pick(draw, LIBS)
    if k == "plain":
        return {"text": f, "name": f, "file": None, "module": None, "line": 0, "end_line": 0}
    if k == "c":
        return {"text": "%s C [{%s} {%d,1}-{%d,2}]" % (f, fl, ln, end), "name": f, "file": fl, "module": None, "line": ln, "end_line": end}
    if k == "range":
        return {"text": "%s [{%s} {%d,1}-{%d,2}]" % (f, fl, ln, end), "name": f, "file": fl, "module": None, "line": ln, "end_line": end}
    if k == "sample":
        return {"text": "[SAMPLE] %s [{%s} {%d}]" % (f, fl, ln), "name": "[SAMPLE] " + f, "file": fl, "module": None, "line": ln, "end_line": 0}
    if k == "col":
        return {"text": "%s [{%s} {%d,0}]" % (f, fl, ln), "name": f, "file": fl, "module": None, "line": ln, "end_line": 0}
    if k == "context":
        return {"text": "[CONTEXT] " + f, "name": "[CONTEXT] " + f, "file": None, "module": None, "line": 0, "end_line": 0}
    if k == "summary":
        return {"text": "[SUMMARY] %s [{%s}]" % (f, fl), "name": "[SUMMARY] " + f, "file": fl, "module": None, "line": 0, "end_line": 0}
    if k == "module":
        return {"text": "[SAMPLE] %s %s" % (one, lib), "name": "[SAMPLE] " + one, "file": None, "module": lib, "line": 0, "end_line": 0}
    if k == "unwind":  # of a file of C code the file is kept, not as a module
        out = {"text": "[UNWIND] %s.%d [@] %s [{%s} {%d}]" % (fl, ln, f, fl, ln), "name": "[UNWIND] " + f, "file": fl, "line": ln, "end_line": 0}
        if fl.split(".")[-1] in ("c", "cc", "cpp"):
            out["module"] = None
        return out
    if k == "unwind_lib_at":
        return {"text": "[UNWIND] %s.0 [@] %s [{%s} {0}]" % (lib, f, lib), "name": "[UNWIND] " + f, "file": None, "module": lib, "line": 0, "end_line": 0}
    if k == "unwind_both":
        return {"text": "[UNWIND] %s.%d [@] %s %s" % (fl, ln, one, lib), "name": "[UNWIND] " + one, "file": fl, "module": lib}
    return {"text": "[UNWIND] %s.0 [@] %s %s" % (lib, one, lib), "name": "[UNWIND] " + one, "file": None, "module": lib, "line": 0, "end_line": 0}


@st.composite
def strategy(draw, tier):
    n = draw(st.integers(1, 14 if tier == "thorough" else 9))
    nodes = [{"parent": None, "sym": {"text": gen.pick(draw, [".TAU application", "main()"]), "file": None, "module": None, "line": 0, "end_line": 0}}]
    nodes[0]["sym"]["name"] = nodes[0]["sym"]["text"]
    pool = [draw(symbol()) for _ in range(draw(st.integers(1, 5)))]
    for i in range(1, n):
        p = draw(st.integers(0, len(nodes) - 1))
        s = gen.pick(draw, pool) if draw(st.booleans()) else draw(symbol())
        if any(v["parent"] == p and v["sym"]["text"] == s["text"] for v in nodes):
            continue
        nodes.append({"parent": p, "sym": s})
    n = len(nodes)
    ranks = gen.pick(draw, [[0], [0], [0, 1], [0, 1, 2], [0, 2, 10], [1, 2], [0, 10]])
    threads = gen.pick(draw, [[0], [0], [0], [0, 1], [0, 2], [0, 2, 10]])
    places = [[r, t] for r in ranks for t in threads if t == 0 or r == ranks[0] or draw(st.booleans())]
    mets = draw(st.permutations(METRICS))[: draw(gen.weighted((1, 3), (2, 2), (3, 1)))]
    if "TIME" in mets and "CPU_TIME" in mets:
        mets.remove("CPU_TIME")
    if draw(gen.weighted((True, 3), (False, 1))) and not set(mets) & {"TIME", "CPU_TIME"}:
        mets[0] = "TIME"
    full = draw(gen.weighted((True, 1), (False, 2)))
    has = [[full or i == 0 or draw(gen.weighted((True, 2), (False, 1))) for i in range(n)] for _ in places]
    for i in range(n):
        if not any(h[i] for h in has):
            has[draw(st.integers(0, len(places) - 1))][i] = True
    real = draw(gen.weighted((False, 2), (True, 1)))
    val = st.integers(0, 80).map(lambda v: float("%.16G" % gen.real(v, 4))) if real else st.integers(0, 10**6)
    return {
        "nodes": nodes, "places": places, "metrics": mets, "has": has,
        "values": [[{"Calls": draw(st.integers(0, 99)), "Subrs": draw(st.integers(0, 99)),
                     "m": [[draw(val), draw(val)] for _ in mets]} for _ in range(n)] for _ in places],
        "order": [draw(st.permutations(range(1, n))) for _ in places],
        "flat": draw(st.booleans()), "events": draw(st.integers(0, 2)), "trail": draw(st.booleans()), "sub": draw(st.booleans()),
        "written": [draw(st.permutations(range(len(places)))) for _ in mets],
    }


def number(v):
    return "%.16G" % v


def profile(spec, k, m):
    """Text of the file of place k and metric m."""
    nodes = spec["nodes"]
    sp = " " if spec["trail"] else ""

    def path(i):
        own = nodes[i]["sym"]["text"]
        return own if nodes[i]["parent"] is None else path(nodes[i]["parent"]) + "  => " + own

    def line(name, v, group):
        ex, inc = v["m"][m]
        return '"%s%s" %d %d %s %s 0 GROUP="%s"%s' % (name, sp, v["Calls"], v["Subrs"], number(ex), number(inc), group, sp)

    lines = [line(path(0), spec["values"][k][0], "TAU_DEFAULT").replace(sp + '" ', '" ', 1)]
    for i in spec["order"][k]:
        if spec["has"][k][i]:
            v = spec["values"][k][i]
            if spec["flat"]:
                lines.append(line(nodes[i]["sym"]["text"], v, "TAU_USER"))
            lines.append(line(path(i), v, "TAU_SAMPLE|TAU_CALLPATH"))
    name = spec["metrics"][m]
    out = ["%d templated_functions_MULTI_%s" % (len(lines), name),
           "# Name Calls Subrs Excl Incl ProfileCalls # <metadata><attribute><name>Metric Name</name><value>%s</value></attribute>"
           "<attribute><name>CPU Cores</name><value>16</value></attribute></metadata>" % name]
    out += lines + ["0 aggregates"]
    if spec["events"]:
        out += ["%d userevents" % spec["events"], "# eventname numevents max min mean sumsqr"]
        out += ['"Message size for broadcast" 2 4 4 4 16', '"Message size : .TAU application  => MPI_Bcast()" 1 4 4 4 16'][: spec["events"]]
    return "\n".join(out) + "\n"


def check(spec, case):
    nodes, places, mets = spec["nodes"], [tuple(p) for p in spec["places"]], spec["metrics"]
    many_r, many_t = len({r for r, _ in places}) > 1, len({t for _, t in places}) > 1
    case.nt(len(nodes) > 2 and len(places) * len(mets) > 1)
    case.label("%d metrics" % len(mets), "ranks" if many_r else "one rank", "threads" if many_t else "one thread")
    if not all(map(all, spec["has"])):
        case.label("unrecorded")
    with scratch() as tmp:
        for m, name in enumerate(mets):
            sub = "MULTI__" + name if len(mets) > 1 or spec["sub"] else ""
            for k in spec["written"][m]:
                r, t = places[k]
                put(os.path.join(tmp, sub, "profile.%d.0.%d" % (r, t)), profile(spec, k, m))
        d = read("from_tau", GraphFrame.from_tau, tmp)
    cols = ["time" if m in ("TIME", "CPU_TIME") else m for m in mets]
    metrics(d, cols, [c + " (inc)" for c in cols], "from_tau")
    ensure(d["levels"] == ["node"] + ["rank"] * many_r + ["thread"] * many_t, "index levels are %r", d["levels"])

    def idx(p):
        return tuple(x for x, on in zip(p, (many_r, many_t)) if on)

    numeric = {"Calls", "Subrs"} | set(cols) | {c + " (inc)" for c in cols}
    tree = {}
    for i, v in enumerate(nodes):
        s = v["sym"]
        rows = {}
        for k, p in enumerate(places):
            vals = {c: 0 for c in numeric}
            if spec["has"][k][i]:
                w = spec["values"][k][i]
                vals = {"Calls": w["Calls"], "Subrs": w["Subrs"]}
                for c, (ex, inc) in zip(cols, w["m"]):
                    vals.update({c: ex, c + " (inc)": inc})
                vals.update({c: s[c] for c in ("line", "end_line") if c in s})
            vals.update({c: s[c] for c in ("name", "file", "module") if c in s})
            rows[idx(p)] = vals
        tree[i] = ({"type": "function", "name": s["name"]}, rows, [j for j, w in enumerate(nodes) if w["parent"] == i])

    def cell(c, v):
        if c == "file" and isinstance(v, str):
            # the file of an unwound frame may be given with the line number that TAU appends to it
            return re.sub(r"(\.(c|cc|cpp|f90))\.\d+$", r"\1", v)
        return 0 if c in numeric and is_missing(v) else v

    match_forest(d, tree, [0], "from_tau", cell=cell, exact_rows=False)
    for key, vals in d["rows"].items():
        if key[1:] not in {idx(p) for p in places}:
            ensure(all(cell(c, vals[c]) == 0 for c in numeric), "values at %r, where there is no profile", key[1:])
    at = dict(zip(("rank",) * many_r + ("thread",) * many_t, idx(places[-1])))
    usable(d["gf"], "the profile read", **at)
