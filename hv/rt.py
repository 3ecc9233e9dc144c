"""Round-trip helpers: GraphFrames compared node id by node id."""

from . import gen
from . import strat as st
from .build import build_gf, cell
from .core import Discard, ensure, is_missing, same, sut
from .model import Gr, graph_nodes, node_fkey

NOTES = [None, "x", "nan", "None", "", "é", 'q"uo\\te', "a,b"]


@st.composite
def rt_gframes(draw, tier, shapes=("tree", "forest", "dag", "dag"), max_nodes=None, notes=NOTES, **kw):
    """gframes specs, with unusual ids, missing text and results of squashing."""
    kw.setdefault("unique", draw(gen.weighted((True, 3), (False, 1))))
    kw.setdefault("sparse", draw(gen.weighted((True, 1), (False, 3))))
    kw.setdefault("inf", draw(gen.weighted((True, 1), (False, 4))))
    names = gen.NAMES[: draw(gen.weighted((1, 1), (2, 2), (4, 2), (10, 3)))]
    if draw(gen.weighted((True, 1), (False, 3))):
        names = names[:2] + gen.EXTRA_NAMES
    spec = draw(gen.gframes(max_nodes=max_nodes or (12 if tier == "thorough" else 8), shapes=shapes, names=names, **kw))
    n = len(spec["graph"]["frames"])
    if draw(gen.weighted((True, 1), (False, 5))):
        spec["graph"]["node_order"] = draw(st.permutations(range(n)))
    if draw(gen.weighted((True, 1), (False, 2))):
        # a text column with missing values
        spec["text"] = spec["text"] + ["note"]
        for r in spec["rows"]:
            r[2]["note"] = gen.pick(draw, notes)
    if draw(gen.weighted((True, 1), (False, 3))):
        spec["keep"] = [i for i in range(n) if draw(gen.weighted((True, 1), (False, 1)))]
    for r in spec["rows"]:
        r[2]["uid"] = r[0]
    spec["rowseed"] = draw(st.permutations(range(len(spec["rows"])))) if draw(st.booleans()) else None
    return spec


def prep(spec):
    """The GraphFrame of a rt_gframes() spec."""
    if spec.get("rowseed"):
        spec = dict(spec, rows=[spec["rows"][i] for i in spec["rowseed"]])
    gf, nodes = build_gf(spec, sort=not spec.get("rowseed"))
    if spec.get("keep") is not None:
        if not spec["keep"]:
            raise Discard("nothing kept")
        kept = {id(nodes[i]) for i in spec["keep"]}
        with sut("filtering the input"):
            gf = gf.filter(lambda row: id(row["node"]) in kept, num_procs=1)
        nodes = {id(n): n for n in graph_nodes(gf.graph)}
        num = {k: i for i, k in enumerate(nodes)}
        gr = Gr({i: None for i in num.values()}, {(num[id(n)], num[id(c)]) for n in nodes.values() for c in n.children}, set())
        if not gr.acyclic():
            raise Discard("merging same-frame siblings closed a cycle")
    return gf


def by_uid(gf, what):
    """As by_nid, keyed by the "uid" column instead of the node id."""
    s = by_nid(gf, what)
    uid = {}
    for k, vals in s["rows"].items():
        ensure("uid" in vals, "%s: column 'uid' is gone", what)
        # several at different ranks for merged nodes
        uid[k[0]] = min(uid.get(k[0], 1e9), int(vals["uid"]))
    ensure(len(set(uid.values())) == len(uid), "%s: rows of one node on several nodes: %r", what, uid)
    ensure(set(uid) == set(s["nodes"]), "%s: nodes without rows: %r", what, sorted(set(s["nodes"]) - set(uid)))
    s["nodes"] = {uid[k]: (f, sorted(uid[c] for c in cs), sorted(uid[p] for p in ps)) for k, (f, cs, ps) in s["nodes"].items()}
    s["roots"] = sorted(uid[k] for k in s["roots"])
    s["rows"] = {(uid[k[0]],) + k[1:]: v for k, v in s["rows"].items()}
    s["depth"] = {uid[k]: v for k, v in s["depth"].items()}
    return s


def by_nid(gf, what):
    """{"nodes": {nid: (frame, children, parents)}, "roots", "rows": {(nid, idx): {col: value}}}"""
    nodes = {}
    for n in graph_nodes(gf.graph):
        ensure(n._hatchet_nid not in nodes, "%s: node id %r used twice", what, n._hatchet_nid)
        nodes[n._hatchet_nid] = n
    out = {
        k: (node_fkey(n), sorted(c._hatchet_nid for c in n.children), sorted(p._hatchet_nid for p in n.parents))
        for k, n in nodes.items()
    }
    df = gf.dataframe
    names = list(df.index.names)
    ensure("node" in names, "%s: no node level in the index %r", what, names)
    pos = names.index("node")
    cols = list(df.columns)
    ensure(len(set(cols)) == len(cols), "%s: duplicate columns %r", what, cols)
    data = {c: [cell(v) for v in df[c]] for c in cols}
    rows = {}
    for k, label in enumerate(df.index):
        tup = label if isinstance(label, tuple) else (label,)
        node = tup[pos]
        nid = getattr(node, "_hatchet_nid", None)
        ensure(nid in nodes, "%s: row for %r, which is not in the graph", what, node)
        ensure(nodes[nid] is node, "%s: row refers to a copy of node %s, not to the graph's", what, node)
        key = (nid,) + tuple(cell(x) for j, x in enumerate(tup) if j != pos)
        ensure(key not in rows, "%s: two rows for %r", what, key)
        rows[key] = {c: data[c][k] for c in cols}
    return {"nodes": out, "roots": sorted(r._hatchet_nid for r in gf.graph.roots), "rows": rows,
            "levels": names, "depth": {k: n._depth for k, n in nodes.items()},
            "exc": sorted(gf.exc_metrics), "inc": sorted(gf.inc_metrics), "cols": cols}


def compare(want, got, what, depth=True):
    ensure(want["roots"] == got["roots"], "%s: roots are %r, expected %r", what, got["roots"], want["roots"])
    ensure(set(want["nodes"]) == set(got["nodes"]), "%s: node ids are %r, expected %r", what, sorted(got["nodes"]), sorted(want["nodes"]))
    for k, v in want["nodes"].items():
        g = got["nodes"][k]
        ensure(v[0] == g[0], "%s: frame of node %d is %r, expected %r", what, k, g[0], v[0])
        ensure(v[1] == g[1], "%s: children of node %d are %r, expected %r", what, k, g[1], v[1])
        ensure(v[2] == g[2], "%s: parents of node %d are %r, expected %r", what, k, g[2], v[2])
    ensure(want["levels"] == got["levels"], "%s: index levels are %r, expected %r", what, got["levels"], want["levels"])
    ensure(set(want["rows"]) == set(got["rows"]), "%s: wrong rows; unexpected %r, missing %r", what,
           sorted(set(got["rows"]) - set(want["rows"]))[:4], sorted(set(want["rows"]) - set(got["rows"]))[:4])
    ensure(sorted(want["cols"]) == sorted(got["cols"]), "%s: columns are %r, expected %r", what, got["cols"], want["cols"])
    for k, vals in want["rows"].items():
        for c, v in vals.items():
            g = got["rows"][k][c]
            ensure(is_missing(v) == is_missing(g) and (same(v, g) or is_missing(v)) and isinstance(v, str) == isinstance(g, str),
                   "%s: %s at %r is %r, expected %r", what, c, k, g, v)
    ensure(want["exc"] == got["exc"], "%s: exclusive metrics are %r, expected %r", what, got["exc"], want["exc"])
    ensure(want["inc"] == got["inc"], "%s: inclusive metrics are %r, expected %r", what, got["inc"], want["inc"])
    if depth and all(len(v[2]) <= (k not in want["roots"]) for k, v in want["nodes"].items()):
        # distance from the root, in forests
        def dist(k):
            return 0 if not want["nodes"][k][2] else 1 + dist(want["nodes"][k][2][0])

        for k in want["nodes"]:
            ensure(got["depth"][k] == dist(k), "%s: depth of node %d is %r, expected %r", what, k, got["depth"][k], dist(k))


def setup_names(s, opts):
    """(gf, nodes, {node number: its values at the requested index}, the requested index), with names overridden."""
    if s.get("rowseed"):
        s = dict(s, rows=[s["rows"][i] for i in s["rowseed"]])
    gf, nodes = build_gf(s, sort=not s.get("rowseed"))
    num = {id(n): i for i, n in enumerate(nodes)}
    names = {int(k): v for k, v in s.get("names", {}).items()}
    if names:
        gf.dataframe["name"] = [
            names.get(num[id(t[0] if isinstance(t, tuple) else t)], x) for t, x in zip(gf.dataframe.index, gf.dataframe["name"])
        ]
    at = tuple(opts.get(lv, 0) for lv in s["levels"])
    data = {}
    for i, t, v in s["rows"]:
        if tuple(t) == at:
            f = s["graph"]["frames"][i]
            name = names[i] if i in names else f.get("name") or "%s:%s:%s" % (f.get("type"), f.get("file"), f.get("line"))
            data[i] = dict(v, name=name)
    return gf, nodes, data, at
