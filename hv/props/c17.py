import contextlib
import io
import math
import re
import warnings

from hv import strat as st

from .. import gen
from ..build import ColorMaps, assert_unchanged, build_gf, snap
from ..core import ensure, expect_raises, is_missing, sut
from ..model import check_links
from ..rt import rt_gframes

EXAMPLES = {"quick": 5000, "thorough": 50000}
RULE = (
    "GraphFrames over trees, forests and DAGs (also node-ordered), 0-2 extra index levels, finite, missing and infinite "
    "values, long names, missing-node markers, context, annotation and temporal pattern columns; random rendering "
    "options; the plain rendering is compared with a reference rendering line by line, the coloured one with the plain "
    "one and its legend with the values shown; non-trivial: at least three lines and some option differs from its default"
)
ASSUMPTIONS = [
    "every node has a row at the requested rank and thread, and name columns hold text",
    "extra index levels are named rank and thread, in this order",
    "a node reached along several paths is shown on each, its children at the first only",
]

LONG = ["f" * 39, "g" * 40, "std::map<std::pair<int,int>, std::vector<double>>::operator[]", "a" * 18 + "-" * 4 + "z" * 18, "x" * 100]
SYMBOLS = {"none": "", "constant": "\u2192", "phased": "\u2933", "dynamic": "\u21dd", "sporadic": "\u219d"}
MAPS = ["RdYlGn", "BrBG", "PiYG", "PRGn", "PuOr", "RdBu", "RdGy", "RdYlBu", "Spectral"]
COLORS = {k: list(getattr(ColorMaps, k)) for k in MAPS}
ANSI = re.compile("\033\\[[0-9;]*m")


@st.composite
def strategy(draw, tier):
    spec = draw(rt_gframes(tier, notes=["x", "y", "zz"], sparse=False))
    spec.pop("keep", None)
    n = len(spec["graph"]["frames"])
    rows = spec["rows"]
    if draw(gen.weighted((True, 1), (False, 2))):
        longs = {i: gen.pick(draw, LONG) for i in range(n) if draw(st.booleans())}
        spec["names"] = {str(i): v for i, v in longs.items()}
    if draw(gen.weighted((True, 1), (False, 2))):
        mark = [draw(st.integers(0, 2)) for _ in range(n)]
        for r in rows:
            r[2]["_missing_node"] = mark[r[0]]
    if draw(gen.weighted((True, 1), (False, 2))):
        for r in rows:
            r[2]["file"] = draw(st.sampled_from(["a.c", "main.cpp"]))
    if draw(gen.weighted((True, 1), (False, 4))):
        for r in rows:
            r[2]["time_pattern"] = draw(st.sampled_from(sorted(SYMBOLS)))
    cols = spec["exc"] + spec["inc"]
    texts = ["name"] + [c for c in ("module", "note", "file") if c in rows[0][2]]
    opts = {}
    kind = draw(gen.weighted(("default", 1), ("one", 3), ("list1", 1), ("list2", 3), ("list3", 1)))
    if kind == "one":
        opts["metric_column"] = gen.pick(draw, cols)
    elif kind != "default":
        opts["metric_column"] = [gen.pick(draw, cols) for _ in range(int(kind[4]))]
    for k, vals in [
        ("precision", [0, 1, 2, 5]),
        ("name_column", texts),
        ("expand_name", [True]),
        ("context_column", ["module", "nothing", "file", "name"]),
        ("annotation_column", [c for c in rows[0][2]]),
        ("depth", [0, 1, 2, 3, 100]),
        ("highlight_name", [True]),
        ("colormap", MAPS),
        ("invert_colormap", [True]),
        ("render_header", [False]),
        ("min_value", [0, 0.0, -5, 1, 2.5]),
        ("max_value", [0, 10, 50.5, -1]),
    ]:
        if draw(gen.weighted((True, 1), (False, 2))):
            opts[k] = gen.pick(draw, vals)
    if "annotation_column" in opts and draw(st.booleans()):
        opts["colormap_annotations"] = draw(st.sampled_from(["BrBG", ["\033[31m", "\033[32m"], ["\033[3%dm" % k for k in range(1, 8)], "dict"]))
    levels = spec["levels"]
    at = draw(st.sampled_from(sorted({tuple(r[1]) for r in rows})))
    for lv, v in zip(levels, at):
        if v or draw(st.booleans()):
            opts[lv] = v
    return {"gf": spec, "opts": opts, "wrong": draw(gen.weighted((None, 8), ("metric", 1), ("second", 1), ("old", 1), ("map", 1)))}


class TTY(io.StringIO):
    def isatty(self):
        return True


def short(name):
    return name if len(name) <= 39 else name[:18] + "..." + name[-18:]


def check(spec, case):
    s = spec["gf"]
    opts = dict(spec["opts"])
    if s.get("rowseed"):
        s = dict(s, rows=[s["rows"][i] for i in s["rowseed"]])
    gf, nodes = build_gf(s, sort=not s.get("rowseed"))
    num = {id(n): i for i, n in enumerate(nodes)}
    names = {int(k): v for k, v in s.get("names", {}).items()}
    if names:
        gf.dataframe["name"] = [names.get(num[id(t[0] if isinstance(t, tuple) else t)], x)
                                for t, x in zip(gf.dataframe.index, gf.dataframe["name"])]
    at = tuple(opts.get(lv, 0) for lv in s["levels"])
    data = {}
    for i, t, v in s["rows"]:
        if tuple(t) == at:
            f = s["graph"]["frames"][i]
            data[i] = dict(v, name=names.get(i) or f.get("name") or "%s:%s:%s" % (f.get("type"), f.get("file"), f.get("line")))
    if opts.get("colormap_annotations") == "dict":
        opts["colormap_annotations"] = {v: "\033[3%dm" % (k % 8)
                                        for k, v in enumerate(gf.dataframe[opts["annotation_column"]].apply(str))}

    # reference rendering
    metric = opts.get("metric_column", gf.default_metric)
    metric = metric if isinstance(metric, list) else [metric]
    prec = opts.get("precision", 3)
    depth = opts.get("depth", 10000)
    ann = opts.get("annotation_column")
    ctx = opts.get("context_column", "file")
    mark = {0: "", 1: " \u25c0 ", 2: " \u25b6 "}
    lines, shown, seen = [], [], set()

    def ref(i, indent, below):
        n = nodes[i]
        if n._depth >= depth:
            return
        d = data[i]
        line = indent + "%.*f" % (prec, d[metric[0]])
        if len(metric) > 1:
            line += " %.*f" % (prec, d[metric[1]])
        if ann:
            if "_pattern" in ann:
                sym = SYMBOLS[d[ann]]
                line += "" if opts.get("colormap_annotations") and d[ann] == "none" and color_on[0] else " " + sym
            else:
                line += " [%s]" % cellstr(i)
        name = d[opts.get("name_column", "name")]
        line += " " + (name if opts.get("expand_name") else short(name))
        if "_missing_node" in d:
            line += mark[d["_missing_node"]]
        if ctx in d:
            line += " %s" % d[ctx]
        lines.append(line)
        shown.append(i)
        if i in seen:
            return
        seen.add(i)
        kids = sorted((num[id(c)] for c in n.children), key=lambda c: nodes[c]._hatchet_nid)
        for k, c in enumerate(kids):
            last = k == len(kids) - 1
            ref(c, below + ("\u2514\u2500 " if last else "\u251c\u2500 "), below + ("   " if last else "\u2502  "))

    def cellstr(i):
        key = (nodes[i],) + at if at else nodes[i]
        return str(gf.dataframe.loc[key, ann])

    def reference():
        del lines[:], shown[:]
        seen.clear()
        for r in sorted((num[id(r)] for r in gf.graph.roots), key=lambda r: nodes[r]._hatchet_nid):
            ref(r, "", "")
        return list(lines), list(shown)

    color_on = [False]
    before = snap(gf)

    def run(color, o=opts):
        out = TTY() if color else io.StringIO()
        with warnings.catch_warnings(record=True) as got:
            warnings.simplefilter("always")
            with contextlib.redirect_stdout(out):
                with sut("tree(%r)" % o):
                    text = gf.tree(**o)
        ensure(isinstance(text, str) and not out.getvalue(), "tree() printed or did not return text")
        if len(metric) > 2:
            ensure(any(issubclass(w.category, SyntaxWarning) for w in got), "tree(): no warning about more than two metrics")
        return text

    header = opts.get("render_header", True)

    def body(text, what):
        if not header:
            return text
        bare = run("color" in what, dict(opts, render_header=False))
        ensure(text.endswith(bare), "%s: the rendering with header does not end with that without", what)
        head = text[: len(text) - len(bare)]
        ensure(head.count("\n") == 6 and "v2" in head.split("\n")[4] and "__" in head, "%s: odd header %r", what, head)
        return bare

    want, order = reference()
    pattern_map = bool(opts.get("colormap_annotations") and ann and "_pattern" in ann)
    case.nt(len(order) >= 3 and len(opts) > 1)
    if ann:
        case.label("annotation")
    if at:
        case.label("multiindex")
    if any("_missing_node" in d for d in data.values()):
        case.label("missing marks")
    if depth < 10000:
        case.label("depth")

    text = run(False)
    got = body(text, "tree").split("\n")
    ensure(got[-1] == "", "tree() does not end with a newline")
    ensure(got[:-1] == want, "tree(): %s", diff(got[:-1], want))

    # colour
    color_on[0] = True
    want, order = reference()
    text = body(run(True), "tree with color")
    at_legend = text.rfind("\n\033[4mLegend")
    ensure(at_legend >= 0, "coloured tree() has no legend")
    tree, legend = text[:at_legend], text[at_legend:]
    raw = tree.split("\n")
    ensure(raw[-1] == "", "coloured tree: no newline before the legend")
    got = [ANSI.sub("", x) for x in raw[:-1]]
    ensure(got == want, "coloured tree(): %s", diff(got, want))
    m = re.search(r"\(Metric: (.*) Min: (\S+) Max: (\S+)\)", ANSI.sub("", legend))
    ensure(m is not None and m.group(1) == metric[0], "legend does not name the metric: %r", legend[:80])
    lo, hi = float(m.group(2)), float(m.group(3))
    plain = ANSI.sub("", legend)
    for sign, side in ((1, "left"), (2, "right")):
        ensure(re.search("%s *Only in %s graph" % (mark[sign].strip(), side), plain), "the legend does not explain the mark for nodes only in the %s graph", side)
    vals = [float(data[i][metric[0]]) for i in order]
    finite = [v for v in vals if math.isfinite(v)]
    allv = [float(r[2][metric[0]]) for r in s["rows"]]
    allf = [v for v in allv if math.isfinite(v)]
    for o, b, sign in (("min_value", lo, 1), ("max_value", hi, -1)):
        if o in opts:
            ensure(abs(b - opts[o]) <= 0.006, "legend's bound is %r with %s=%r", b, o, opts[o])
        else:
            ensure(not finite or all(sign * (v - b) >= -0.006 for v in finite), "legend's bound %r does not enclose %r", b, finite)
            # which rows the bounds are taken from (beyond those shown) is not stated
            ensure(not allf or (math.isnan(b) and not finite) or any(abs(v - b) <= 0.006 for v in allf), "legend's bound %r is none of the values %r", b, allf)
    cmap = COLORS[opts.get("colormap", "RdYlGn")]
    cmap = cmap[::-1] if opts.get("invert_colormap") else cmap
    labels = re.findall("((?:\033\\[[0-9;]*m)+)\u2588 \033\\[0m(\\S+) - (\\S+)\n", legend)
    ensure([c for c, _, _ in labels] == cmap, "legend's colours are %r, expected those of the colour map", labels)
    fracs = [(0.9, 1.0), (0.7, 0.9), (0.5, 0.7), (0.3, 0.5), (0.1, 0.3), (0.0, 0.1)]
    if allf or ("min_value" in opts and "max_value" in opts):
        for (c, a, b), (fa, fb) in zip(labels, fracs):
            if math.isfinite(lo) and math.isfinite(hi):
                for x, f in ((a, fa), (b, fb)):
                    ensure(abs(float(x) - (lo + f * (hi - lo))) <= 0.03, "legend label %r - %r does not fit %r - %r", a, b, lo, hi)
        # each value has the colour of its range in the legend
        if hi - lo > 1:
            for line, i in zip(raw, order):
                v = float(data[i][metric[0]])
                pre = re.match("[\u2514\u251c\u2502\u2500 ]*((?:\033\\[[0-9;]*m)*)", line).group(1)
                if not math.isfinite(v) or v < lo - 0.01 or v > hi + 0.01:
                    continue
                p = (v - lo) / (hi - lo)
                eps = 0.02 / (hi - lo)
                ok = {c for (c, _, _), (fa, fb) in zip(labels, fracs) if fa - eps <= p <= fb + eps}
                ok |= {"\033[34m"} if p <= eps else set()
                ensure(pre in ok, "value %r is shown in %r, the legend (%r - %r) says %r", v, pre, lo, hi, sorted(ok))
    for line, i in zip(raw, order):
        name = data[i][opts.get("name_column", "name")]
        name = name if opts.get("expand_name") else short(name)
        hl = "\033[48;5;246m\033[38;5;232m" + name in line
        ensure(hl == bool(opts.get("highlight_name")), "highlight_name=%r but name %r is shown as %r", opts.get("highlight_name"), name, line)
    if pattern_map:
        ca = opts["colormap_annotations"]
        for line, i in zip(raw, order):
            v = data[i][ann]
            if v != "none":
                pal = ca if isinstance(ca, list) else [ca[v]] if isinstance(ca, dict) else COLORS["BrBG"]
                ensure(any(" " + c + SYMBOLS[v] in line for c in pal), "pattern %r is shown as %r", v, line)
    if opts.get("colormap_annotations") and ann and not pattern_map:
        cols = {}
        for line, i in zip(raw, order):
            mm = re.search(r" \[((?:\033\[[0-9;]*m)+)%s((?:\033\[[0-9;]*m)+)\]" % re.escape(cellstr(i)), line)
            ensure(mm is not None, "annotation %r is not coloured in %r", cellstr(i), line)
            ensure(cols.setdefault(cellstr(i), mm.group(1)) == mm.group(1), "annotation %r has several colours", cellstr(i))
            ca = opts["colormap_annotations"]
            pal = ca if isinstance(ca, list) else [ca[cellstr(i)]] if isinstance(ca, dict) else COLORS["BrBG"]
            ensure(mm.group(1) in pal, "annotation %r is shown in %r, expected one of %r", cellstr(i), mm.group(1), pal)
        pal = opts["colormap_annotations"] if isinstance(opts["colormap_annotations"], list) else COLORS["BrBG"]
        if not isinstance(opts["colormap_annotations"], dict) and len(set(gf.dataframe[ann].apply(str))) <= len(pal):
            # enough colours for all
            ensure(len(set(cols.values())) == len(cols), "different annotations share a colour: %r", cols)
    assert_unchanged(before, gf, "tree")

    w = spec["wrong"]
    if w == "metric":
        expect_raises("tree with an unknown metric", KeyError, lambda: gf.tree(metric_column="no such"))
    elif w == "second":
        expect_raises("tree with an unknown second metric", KeyError, lambda: gf.tree(metric_column=[metric[0], "no such"]))
    elif w == "old":
        expect_raises("tree with a removed parameter", ValueError, lambda: gf.tree(metric=metric[0]))
    elif w == "map":
        with contextlib.redirect_stdout(TTY()):
            expect_raises("tree with an unknown colour map", ValueError, lambda: gf.tree(colormap="nope", **{k: v for k, v in opts.items() if k in s["levels"]}))


def diff(got, want):
    for k in range(max(len(got), len(want))):
        g = got[k] if k < len(got) else None
        w = want[k] if k < len(want) else None
        if g != w:
            return "line %d is %r, expected %r" % (k, g, w)
