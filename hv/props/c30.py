import os
import re

from hv import strat as st

from .. import gen
from ..build import GraphFrame
from ..core import ensure
from ..rd import metrics, norm, put, read, same_vals, scratch, usable

EXAMPLES = {"quick": 3000, "thorough": 25000}
RULE = (
    "DOT files as gprof2dot writes them: 1-9 functions in any order (names with spaces, templates, keywords of "
    "DOT, Unicode), any edges including recursion, cycles without entry and functions without label, labels with "
    "and without module and call count; non-trivial: an edge and one of several callers, a cycle, an unlabelled function or a label without module"
)
ASSUMPTIONS = ["function names contain no quotes, backslashes or line breaks", "each function and each edge is listed once"]

FUNCS = ["main", "foo", "(below main)", "0x0000000000000ff0", "std::vector<int, a>::push(int&&)", "node", "graph", "é", "a b", "_dl@@G_2.5", "edge", "x->y", "42", "n:0", " x", "y "]
MODULES = ["libc-2.17.so", "a.out", "ld", "lib é"]


def quote(s, always):
    return s if not always and re.fullmatch(r"[A-Za-z_]\w*", s, re.A) and s not in ("node", "graph", "edge") else '"%s"' % s


@st.composite
def strategy(draw, tier):
    n = draw(st.integers(1, 14 if tier == "thorough" else 9))
    names = draw(st.permutations(FUNCS))[:n]
    n = len(names)
    dens = draw(st.integers(1, 4))
    acyclic = draw(st.booleans())
    edges = []
    for i in range(n):
        for j in range(n):
            if (i < j or not acyclic) and draw(gen.weighted((True, 1), (False, dens))):
                edges.append([i, j])
    funcs = []
    labels = draw(gen.weighted((True, 3), (False, 1)))
    for i in range(n):
        connected = any(i in e for e in edges)
        f = {"label": labels or draw(st.booleans()), "listed": True}
        if connected and not labels and not f["label"]:
            f["listed"] = draw(st.booleans())
        f["module"] = gen.pick(draw, MODULES) if draw(gen.weighted((True, 3), (False, 1))) else None
        f["inc"], f["exc"] = draw(st.integers(0, 400)) / 4, draw(st.integers(0, 400)) / 4
        f["calls"] = draw(st.integers(0, 300021)) if draw(gen.weighted((True, 3), (False, 1))) else None
        funcs.append(f)
    m = sum(f["listed"] for f in funcs) + len(edges)
    return {"names": names, "edges": edges, "funcs": funcs, "order": draw(st.permutations(range(m))),
            "quoted": draw(st.booleans())}


def text(spec):
    q = lambda s: quote(s, spec["quoted"])
    lines = []
    for name, f in zip(spec["names"], spec["funcs"]):
        if not f["listed"]:
            continue
        attrs = 'color="#0d1074", fontcolor="#ffffff", fontsize="10.00"'
        if f["label"]:
            parts = [f["module"]] if f["module"] is not None else []
            parts += [name, "%.2f%%" % f["inc"], "(%.2f%%)" % f["exc"]]
            parts += ["%d×" % f["calls"]] if f["calls"] is not None else []
            attrs += ', label="%s"' % "\\n".join(parts)
        lines.append("\t%s [%s];" % (q(name), attrs))
    for i, j in spec["edges"]:
        lines.append('\t%s -> %s [arrowsize="0.35", color="#0d1074", label="0.79%%\\n1×", penwidth="0.50"];'
                     % (q(spec["names"][i]), q(spec["names"][j])))
    lines = [lines[k] for k in spec["order"]]
    head = ["digraph {", "\tgraph [fontname=Arial, nodesep=0.125, ranksep=0.25];",
            "\tnode [fontcolor=white, fontname=Arial, height=0, shape=box, style=filled, width=0];", "\tedge [fontname=Arial];"]
    return "\n".join(head + lines + ["}"]) + "\n"


def check(spec, case):
    names, edges = spec["names"], [tuple(e) for e in spec["edges"]]
    n = len(names)
    callers = {i: {a for a, b in edges if b == i} for i in range(n)}
    odd = [f for f in spec["funcs"] if not f["label"] or f["module"] is None]
    case.nt(bool(edges) and (any(len(c) > 1 for c in callers.values()) or any(a >= b for a, b in edges) or bool(odd)))
    case.label("self call" if any(a == b for a, b in edges) else "no self call")
    if all(callers.values()):
        case.label("no entry")
    if any(not f["label"] for f in spec["funcs"]):
        case.label("unlabelled functions")
    if any(f["module"] is None for f in spec["funcs"]):
        case.label("without module")
    with scratch() as tmp:
        d = read("from_gprof_dot", GraphFrame.from_gprof_dot, put(os.path.join(tmp, "x.dot"), text(spec)))
    metrics(d, ["time"], ["time (inc)"], "from_gprof_dot")
    name = {k: dict(v[0])["name"] for k, v in d["nodes"].items()}
    for f, _, _ in d["nodes"].values():
        ensure(dict(f) == {"type": "function", "name": dict(f)["name"]}, "the frame of a function is %r", f)
    ensure(sorted(name.values()) == sorted(names), "functions are %r, expected %r", sorted(name.values()), sorted(names))
    got = {(name[k], name[c]) for k, (_, cs, _) in d["nodes"].items() for c in cs}
    exp = {(names[a], names[b]) for a, b in edges}
    ensure(got == exp, "edges: unexpected %r, missing %r", sorted(got - exp)[:3], sorted(exp - got)[:3])
    roots = {name[r] for r in d["roots"]}
    ensure({names[i] for i in range(n) if not callers[i]} <= roots, "functions without callers are not all roots: %r", roots)
    rows = {name[k]: v for (k,), v in d["rows"].items()}
    ensure(set(rows) == set(names), "functions without rows: %r", sorted(set(names) - set(rows)))
    for nm, f in zip(names, spec["funcs"]):
        exp = {"name": nm}
        if f["listed"] and f["label"]:
            exp.update({"time": f["exc"], "time (inc)": f["inc"], "module": f["module"]})
        same_vals(rows[nm], exp, "from_gprof_dot", nm)
        if not f["listed"] or not f["label"]:
            for c in ("time", "time (inc)"):
                ensure(norm(rows[nm][c]) in (None, 0.0), "%s of %s is %r, but none is in the file", c, nm, rows[nm][c])
    usable(d["gf"], "the graph read")
