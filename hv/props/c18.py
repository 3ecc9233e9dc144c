import math
import re
import warnings

from hv import strat as st

from .. import gen
from ..build import assert_unchanged, snap
from ..core import ensure, expect_raises, fail, sut
from ..rt import rt_gframes, setup_names

EXAMPLES = {"quick": 12000, "thorough": 60000}
RULE = (
    "GraphFrames over trees, forests and DAGs, 0-2 extra index levels, finite, missing and infinite values of either "
    "sign, names with quotes, backslashes and other special text; random metric, name column, rank/thread and threshold; "
    "the output is parsed as DOT and compared with the graph; non-trivial: at least two edges, or a threshold that hides "
    "some but not all nodes"
)
ASSUMPTIONS = [
    "every node has a row at the requested rank and thread, and name columns hold text or integers",
    "node ids are distinct (the graph was enumerated)",
]

ODD = ['a"b', 'c:\\new\\', "\\", '"', '\\"', "<b>", "{x|y}", "", "-> d;", "a\nb", "[x=1]", "é", 'operator""_s', "# c", "// d"]
TOKEN = re.compile(r'\s*(?:("(?:[^"\\]|\\[\s\S])*")|([A-Za-z_][A-Za-z_0-9]*|-?(?:\.\d+|\d+(?:\.\d*)?))|(->|[{}\[\]=;,]))')


@st.composite
def strategy(draw, tier):
    spec = draw(rt_gframes(tier, notes=["x", 'q"', "zz"], sparse=False))
    spec.pop("keep", None)
    n = len(spec["graph"]["frames"])
    if draw(gen.weighted((True, 1), (False, 1))):
        spec["names"] = {str(i): gen.pick(draw, ODD) for i in range(n) if draw(st.booleans())}
    cols = spec["exc"] + spec["inc"]
    texts = ["name", "uid"] + [c for c in ("module", "note") if c in spec["rows"][0][2]]
    opts = {}
    if draw(st.booleans()):
        opts["metric"] = gen.pick(draw, cols)
    if draw(st.booleans()):
        opts["name"] = gen.pick(draw, texts)
    if draw(st.booleans()):
        opts["threshold"] = gen.pick(draw, [0, 0.0, 0.1, 0.25, 0.5, 0.75, 1.0, 1.5])
    at = draw(st.sampled_from(sorted({tuple(r[1]) for r in spec["rows"]})))
    for lv, v in zip(spec["levels"], at):
        if v or draw(st.booleans()):
            opts[lv] = v
    return {"gf": spec, "opts": opts, "wrong": draw(gen.weighted((False, 8), (True, 1)))}


def parse_dot(text):
    """(node statements [(id, attrs)], edges [(a, b)]) of a DOT digraph; fails when it is ill-formed."""
    toks, pos = [], 0
    while text[pos:].strip():
        m = TOKEN.match(text, pos)
        if not m:
            fail("ill-formed DOT at %r", text[pos : pos + 60])
        q, w, p = m.groups()
        toks.append(("id", q[1:-1]) if q is not None else ("word", w) if w else ("p", p))
        pos = m.end()
    i = 0

    def peek(k=0):
        return toks[i + k] if i + k < len(toks) else ("end", None)

    def take(kind, val=None):
        nonlocal i
        t = peek()
        ok = t[0] == kind or (kind == "id" and t[0] == "word")
        if not ok or (val is not None and t[1] != val):
            fail("ill-formed DOT: expected %s %r, found %r", kind, val, t)
        i += 1
        return t[1]

    def attrs():
        nonlocal i
        out = {}
        while peek() == ("p", "["):
            i += 1
            while peek() != ("p", "]"):
                k = take("id")
                take("p", "=")
                out[k] = take("id")
                if peek() in (("p", ","), ("p", ";")):
                    i += 1
            i += 1
        return out

    if peek() == ("word", "strict"):
        i += 1
    take("word", "digraph")
    if peek()[0] in ("id", "word"):
        i += 1
    take("p", "{")
    nodes, edges = [], []
    while peek() != ("p", "}"):
        t = peek()
        if t[0] == "word" and t[1] in ("graph", "node", "edge"):
            i += 1
            attrs()
        else:
            a = take("id")
            if peek() == ("p", "="):
                i += 1
                take("id")
            elif peek() == ("p", "->"):
                while peek() == ("p", "->"):
                    i += 1
                    b = take("id")
                    edges.append((a, b))
                    a = b
                attrs()
            else:
                nodes.append((a, attrs()))
        if peek() == ("p", ";"):
            i += 1
    i += 1
    if peek()[0] != "end":
        fail("text after the end of the DOT graph: %r", peek())
    return nodes, edges


def text_of(label):
    """What a DOT label reads as."""
    return re.sub(r"\\(.)", lambda m: {"n": "\n", "l": "\n", "r": "\n"}.get(m.group(1), m.group(1)), label)


def check(spec, case):
    gf, nodes, data, at = setup_names(spec["gf"], spec["opts"])
    opts = spec["opts"]
    metric = opts.get("metric", gf.default_metric)
    thr = opts.get("threshold", 0)
    col = [float(r[2][metric]) if r[2][metric] is not None else math.nan for r in spec["gf"]["rows"]]
    some = [v for v in col if not math.isnan(v)]
    finite = [v for v in some if math.isfinite(v)]
    top = max(some) if some else math.nan
    before = snap(gf)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with sut("to_dot(%r)" % (opts,)):
            text = gf.to_dot(**opts)
    ensure(isinstance(text, str), "to_dot returned %r", type(text))
    assert_unchanged(before, gf, "to_dot")
    got_nodes, got_edges = parse_dot(text)

    num = {id(n): k for k, n in enumerate(nodes)}
    val = {k: float(d[metric]) if d[metric] is not None else math.nan for k, d in data.items()}
    ok = {k for k in data if not thr or val[k] >= thr * top}
    shown, todo = set(), [num[id(r)] for r in gf.graph.roots]
    while todo:
        k = todo.pop()
        if k in ok and k not in shown:
            shown.add(k)
            todo += [num[id(c)] for c in nodes[k].children]
    nid = {k: str(nodes[k]._hatchet_nid) for k in data}
    edges = sorted((nid[k], nid[num[id(c)]]) for k in shown for c in nodes[k].children if num[id(c)] in shown)
    case.nt(len(edges) >= 2 or (0 < len(shown) < len(nodes)))
    if thr:
        case.label("threshold")
    if len(finite) < len(col):
        case.label("missing/infinite")
    names = {k: str(d[opts.get("name", "name")]) for k, d in data.items()}
    if any(re.search(r'["\\]', n) for n in names.values()):
        case.label("special names")

    ids = [a for a, _ in got_nodes]
    ensure(sorted(ids) == sorted(nid[k] for k in shown), "to_dot(%r) declares nodes %r, expected %r", opts, sorted(ids), sorted(nid[k] for k in shown))
    ensure(sorted(got_edges) == edges, "to_dot(%r) has edges %r, expected %r", opts, sorted(got_edges), edges)
    by = dict(got_nodes)
    for k in shown:
        a = by[nid[k]]
        want = names[k]
        ensure(text_of(a.get("label", "\\N")) == want, "node %s (%r) is labelled %r", nid[k], want, a.get("label"))
        ensure(re.fullmatch("#[0-9a-f]{6}", a.get("color", "")), "node %s has colour %r", nid[k], a.get("color"))
    # larger values are not lighter
    if len(finite) == len(col) and finite and max(finite) > min(finite):
        import matplotlib.cm
        import matplotlib.colors

        for k in shown:
            w = (val[k] - min(finite)) / (max(finite) - min(finite))
            near = {matplotlib.colors.rgb2hex(matplotlib.cm.Reds(x)) for x in (w, w - 1e-9, w + 1e-9)}
            ensure(by[nid[k]]["color"] in near, "value %r (range %r to %r) has colour %r", val[k], min(finite), max(finite), by[nid[k]]["color"])

    if spec["wrong"]:
        expect_raises("to_dot with an unknown metric", KeyError, lambda: gf.to_dot(metric="no such"))
