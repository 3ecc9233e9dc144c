import copy
import io
import json
import os

from hv import strat as st

from .. import gen
from ..build import GraphFrame
from ..core import ensure, is_missing
from ..rd import match_forest, metrics, put, read, scratch, usable

EXAMPLES = {"quick": 4500, "thorough": 25000}
RULE = (
    "timemory trees of 1-3 components (scalar and vector ones) over 1-9 regions in its label formats, recorded in any part by "
    "1-3 ranks (MPI, UPC++, both or neither) and 1-2 threads or groups of threads each, below dummy nodes, as dictionary, "
    "file, stream or directory; all or selected components, with and without per_rank and per_thread; non-trivial: at "
    "least three regions and several components, ranks or threads"
)
ASSUMPTIONS = [
    "a component records a region at most once per rank and thread (group), and below its parent region",
    "components have different metric names; labels of regions have one of the forms the reader documents, without further slashes or colons",
]

SCALAR = ["wall_clock", "cpu_clock", "peak_rss"]
VECTOR = {"papi_vector": ["Total_cycles", "L2 cache misses"], "gpu_roofline": ["flops"]}
FUNCS = ["main", "foo", "ns::f", "generate_history"]
FILES = ["a.cpp", "b.py"]
STATS = ["sum", "min", "mean", "stddev"]


@st.composite
def label(draw):
    """[prefix, name, file, line]"""
    f, fl, ln = gen.pick(draw, FUNCS), gen.pick(draw, FILES), str(draw(st.integers(1, 3)))
    t = gen.pick(draw, ["outer-loop-0", "inner 1"])
    return gen.pick(draw, [
        [f, f, "<unknown>", "0"],
        ["%s@%s:%s" % (f, fl, ln), f, fl, ln],
        ["%s@%s:%s/%s" % (f, fl, ln, t), f + "/" + t, fl, ln],
        ["%s@%s/%s" % (f, fl, t), f + "/" + t, fl, "0"],
        ["%s/consume" % f, f + "/consume", "<unknown>", "0"],
        ["[%s][%s]" % (f, fl), f, fl, "0"],
        ["%s  [run/%s:%s]" % (f, fl, ln), f, fl, ln],
        ["%s:%s" % (f.split(":")[0], ln), f.split(":")[0], "<unknown file>", ln],
    ])


@st.composite
def strategy(draw, tier):
    pool = [draw(label()) for _ in range(draw(st.integers(1, 6)))]
    nodes = []
    for i in range(draw(st.integers(1, 14 if tier == "thorough" else 9))):
        p = draw(st.integers(-1, len(nodes) - 1)) if draw(st.booleans()) else len(nodes) - 1
        v = {"parent": p if p >= 0 else None, "label": gen.pick(draw, pool)}
        if not any(w["parent"] == v["parent"] and w["label"][0] == v["label"][0] for w in nodes):
            nodes.append(v)
    n = len(nodes)
    per_thread = draw(gen.weighted((False, 3), (True, 1)))
    layout = gen.pick(draw, ["graph", "mpi", "mpi", "upc", "upcxx", "both"])
    nranks = 1 if layout == "graph" else draw(st.integers(2 if layout == "both" else 1, 3))
    groups = gen.pick(draw, [[[0]], [[0]], [[0], [1]], [[1], [10], [2]]] + ([] if per_thread else [[[0, 1]], [[0], [1, 2]], [[3], [1, 2]]]))
    comps = draw(st.permutations(SCALAR))[: draw(st.integers(1, 2))]
    if draw(gen.weighted((False, 2), (True, 1))):
        comps.insert(draw(st.integers(0, len(comps))), gen.pick(draw, sorted(VECTOR)))
    full = draw(gen.weighted((True, 1), (False, 2)))
    val = st.integers(0, 80).map(lambda v: gen.real(v, 4))
    out = []
    for c in comps:
        w = len(VECTOR.get(c, [0]))
        trees = []
        for r in range(nranks):
            for g in groups:
                has = []
                for i in range(n):
                    up = nodes[i]["parent"] is None or has[nodes[i]["parent"]]
                    has.append(bool(up and (full or draw(gen.weighted((True, 3), (False, 1))))))
                trees.append({"rank": r, "tids": g, "has": has,
                              "values": [[[[draw(val) for _ in range(w)] for _ in STATS] for _ in range(2)] for _ in range(n)]})
        out.append({"name": c, "trees": trees, "stats": draw(st.integers(1, len(STATS))), "form": gen.pick(draw, ["list", "dict"]), "types": gen.pick(draw, ["list", "list", "dict"]),
                    "spell": gen.pick(draw, ["%s", "tim::component::%s", "upper"])})
    if not any(any(t["has"]) for c in out for t in c["trees"]):
        out[0]["trees"][0]["has"][0] = True
    return {
        "nodes": nodes, "comps": out, "layout": layout, "nranks": nranks, "per_thread": per_thread,
        "per_rank": draw(gen.weighted((False, 3), (True, 1))), "dummy": gen.pick(draw, ["one", "each", "none", "deep"]),
        "input": gen.pick(draw, ["dict", "dict", "file", "stream", "dir"]), "scalar_tid": draw(st.booleans()),
        "select": gen.pick(draw, [None, None, "first", "all", "callable", "empty"]), "leafkey": draw(st.booleans()),
        "bare": draw(gen.weighted((False, 4), (True, 1))),
    }


def pids(t):
    return [4137 + t["rank"]] if t["rank"] < 2 else [4139, 4140]


def laps(t, i):
    return 3 + i + 10 * t["rank"] + 100 * t["tids"][0]


def recorded(spec, comp):
    """The component's data as timemory writes it."""
    nodes, c = spec["nodes"], comp

    def stats(vals, w):
        d = {"cereal_class_version": 0, "count": 3}
        for s, v in list(zip(STATS, vals))[: c["stats"]]:
            d[s] = v[0] if c["name"] in SCALAR else dict(zip("abc", v)) if c["form"] == "dict" else v
        return d

    def entry(h, prefix, tids, inc, exc, kids, pid=(4137,), laps=2):
        e = {"node": {"hash": h, "prefix": prefix, "tid": tids[0] if spec["scalar_tid"] and len(tids) == 1 else tids, "pid": list(pid),
                      "depth": 0, "is_dummy": False, "inclusive": {"entry": {"laps": laps}, "stats": inc}, "exclusive": {"entry": {"laps": laps}, "stats": exc}},
             "children": kids}
        if not kids and spec["leafkey"] and h:
            del e["children"]
        return e

    def tree(t, i):
        kids = [tree(t, j) for j, v in enumerate(nodes) if v["parent"] == i and t["has"][j]]
        if spec["dummy"] == "deep" and kids:
            kids = [dummy(kids)]
        inc, exc = (stats(v, 0) for v in t["values"][i])
        return entry(17 + i, nodes[i]["label"][0], t["tids"], inc, exc, kids, pids(t), laps(t, i))

    def dummy(kids):
        zero = [[0.0] * 3] * len(STATS)
        return entry(0, "unknown-hash=0", [0], stats(zero, 0), stats(zero, 0), kids)

    ranks = []
    for r in range(spec["nranks"]):
        per = [[tree(t, i) for i, v in enumerate(nodes) if v["parent"] is None and t["has"][i]] for t in c["trees"] if t["rank"] == r]
        if spec["dummy"] == "none":
            ranks.append([e for es in per for e in es])
            for e in ranks[-1]:
                e.setdefault("children", [])
        elif spec["dummy"] == "one" or len(per) == 1:
            ranks.append(dummy([e for es in per for e in es]) if spec["leafkey"] else [dummy([e for es in per for e in es])])
        else:
            ranks.append([dummy(es) for es in per])
    d = {"properties": {"cereal_class_version": 0, "id": c["name"]}, "type": "wall" if c["name"] in SCALAR else VECTOR[c["name"]],
         "description": "x", "unit_value": 1, "unit_repr": "sec", "thread_scope_only": False, "mpi_size": 1, "upcxx_size": 1,
         "thread_count": 1, "process_count": 1}
    if c.get("types") == "dict" and c["name"] in VECTOR:
        d["type"] = {v: "unit" for v in VECTOR[c["name"]]}
    if spec["layout"] == "both":
        d.update({"mpi_size": 1, "upcxx_size": len(ranks) - 1, "mpi": ranks[:1], "upcxx": ranks[1:]})
    elif spec["layout"] == "mpi":
        d.update({"mpi_size": len(ranks), "mpi": ranks})
    elif spec["layout"] == "graph":
        d["graph"] = ranks
    else:
        d.update({"mpi_size": 0, "upcxx_size": len(ranks), spec["layout"]: ranks})
    if spec.get("bare") and spec["layout"] != "both":
        d = {k: v for k, v in d.items() if k in ("type", "graph", "mpi", "upc", "upcxx")}
    return d


def columns(comp, kind):
    """[(column, stat number, element)]"""
    sfx = " (inc)" if kind == 0 else ""
    names = [comp["name"]] if comp["name"] in SCALAR else [v.replace("_", "-").replace(" ", "-") for v in VECTOR[comp["name"]]]
    return [("%s.%s%s" % (s, m, sfx), k, e) for k, s in enumerate(STATS[: comp["stats"]]) for e, m in enumerate(names)]


def check(spec, case):
    nodes, comps = spec["nodes"], spec["comps"]
    data = {"timemory": {("%s" if c["spell"] == "upper" else c["spell"]) % (c["name"].upper() if c["spell"] == "upper" else c["name"]):
                         recorded(spec, c) for c in comps}}
    chosen, select = comps, None
    if spec["select"] == "first":
        chosen, select = comps[:1], [comps[0]["name"].upper()]
    elif spec["select"] in ("all", "callable"):
        select = [c["name"] if spec["select"] == "all" else (lambda c=c: c["name"]) for c in comps]
    elif spec["select"] == "empty":
        select = []
    trees = [(c, t) for c in chosen for t in c["trees"]]
    if not any(any(t["has"]) for _, t in trees):
        case.label("nothing recorded")
        return
    kw = {k: True for k in ("per_thread", "per_rank") if spec[k]}
    with scratch() as tmp:
        what = "from_timemory"
        if spec["input"] == "dict":
            before = copy.deepcopy(data)
            d = read(what, GraphFrame.from_timemory, data, select, **kw)
            ensure(data == before, "from_timemory changed the dictionary it was given")
        elif spec["input"] == "stream":
            d = read(what, GraphFrame.from_timemory, io.StringIO(json.dumps(data)), select, **kw)
        elif spec["input"] == "file":
            d = read(what, GraphFrame.from_timemory, put(os.path.join(tmp, "x.tree.json"), json.dumps(data)), select, **kw)
        else:
            for k, v in data["timemory"].items():
                put(os.path.join(tmp, k.replace(":", "_") + ".tree.json"), json.dumps({"timemory": {k: v}}))
            d = read(what, GraphFrame.from_timemory, tmp, select, **kw)

    def tid(t):
        return t["tids"][0] if len(t["tids"]) == 1 else ",".join(map(str, t["tids"]))

    used = [(c, t) for c, t in trees if any(t["has"])]
    many_r, many_t = spec["layout"] != "graph", any(tid(t) != 0 for _, t in used)
    case.nt(len(nodes) > 2 and len(used) > 1)
    case.label("ranks" if many_r else "no ranks", "threads" if many_t else "no threads", spec["input"])
    live = {c["name"] for c, _ in used}
    cols = {kind: [x[0] for c in chosen if c["name"] in live for x in columns(c, kind)] for kind in (0, 1)}
    metrics(d, cols[1], cols[0], "from_timemory")
    ensure(d["levels"] == ["node"] + ["rank"] * many_r + ["thread"] * many_t, "index levels are %r", d["levels"])

    def idx(t):
        return tuple(x for x, on in ((t["rank"], many_r), (tid(t), many_t)) if on)

    def key(t, i):
        """Which node records region i of t."""
        return (i, t["rank"] if spec["per_rank"] and many_r else None, tid(t) if spec["per_thread"] else None)

    numeric = cols[0] + cols[1]
    places = {idx(t) for _, t in used}
    tree, roots = {}, []
    for c, t in used:
        for i, v in enumerate(nodes):
            if not t["has"][i]:
                continue
            k = key(t, i)
            if k not in tree:
                _, name, fl, ln = v["label"]
                frame = {"type": "region", "name": name}
                if k[1] is not None:
                    frame["rank"] = k[1]
                if k[2] is not None:
                    frame["thread"] = k[2]
                tree[k] = (frame, {p: {"name": name, "file": fl, "type": "region", **{m: 0 for m in numeric}} for p in places}, [])
                (roots if v["parent"] is None else tree[key(t, v["parent"])][2]).append(k)
            tree[k][1][idx(t)].update({m: t["values"][i][kind][s][e] for kind in (0, 1) for m, s, e in columns(c, kind)})
            p = pids(t)
            tree[k][1][idx(t)].update({"line": v["label"][3], "count": laps(t, i), "pid": p[0] if len(p) == 1 else ",".join(map(str, p))})

    def cell(c, v):
        return 0 if c in numeric and is_missing(v) else v

    match_forest(d, tree, roots, "from_timemory", cell=cell, exact_rows=False)
    for k, vals in d["rows"].items():
        ensure(k[1:] in places, "rows at %r, where nothing was recorded", k[1:])
    at = dict(zip(("rank",) * many_r + ("thread",) * many_t, idx(used[-1][1])))
    usable(d["gf"], "the profile read", **at)
