import copy
import sys
import types

from hv import strat as st

from .. import gen
from ..build import GraphFrame
from ..core import ensure, is_missing, sut
from ..rd import call, match_forest, metrics, norm, read, usable

EXAMPLES = {"quick": 5000, "thorough": 50000}
RULE = (
    "SpotDB instances (a stand-in with spotdb's methods) with 0-4 runs, each with 1-8 regions (listed in any order, prefixes "
    "possibly without a record), 1-4 metrics of any recorded type with and without alias, run globals; opened "
    "by locator or given as object, for all runs or for lists of ids with unknown ones and repetitions, in any order; non-trivial: "
    "at least two runs and a run with at least three regions"
)
ASSUMPTIONS = [
    "the spotdb module is not available offline: a stand-in provides its documented methods (connect, get_all_run_ids, get_regionprofiles, get_global_data, get_metric_attribute_metadata)",
    "display names of metrics differ; every run has a region with metrics",
]

NAMES = ["main", "foo", "a b", "é", "main"]
METRICS = [
    ["sum#inclusive#sum#time.duration", {"alias": "Total time", "type": "double"}],
    ["avg#inclusive#sum#time.duration", {"alias": "Avg time/rank", "type": "double"}],
    ["sum#sum#time.duration", {"type": "double"}],
    ["count", {"alias": "Calls", "type": "uint"}],
    ["inclusive#min", None],
    ["note", {"alias": "Note", "type": "string"}],
    ["delta", {"type": "int", "alias": "Delta"}],
]


@st.composite
def run(draw, tier):
    nodes = []
    for i in range(draw(st.integers(1, 12 if tier == "thorough" else 8))):
        p = draw(st.integers(-1, len(nodes) - 1))
        v = [None if p < 0 else p, gen.pick(draw, NAMES)]
        if v not in nodes:
            nodes.append(v)
    n = len(nodes)
    rec = [draw(gen.weighted((True, 4), (False, 1))) for _ in nodes]
    for i in range(n):  # leaves without a record do not exist
        rec[i] = rec[i] or not any(v[0] == i for v in nodes)
    vals = [[draw(gen.weighted((True, 4), (False, 1))) and [draw(st.integers(-40, 400)), draw(st.booleans())] for _ in METRICS] for _ in range(n)]
    return {"nodes": nodes, "recorded": rec, "values": vals, "order": draw(st.permutations(range(n))), "empty": draw(st.booleans()),
            "meta": {k: draw(st.integers(0, 99)) for k in ["launchdate", "user"][: draw(st.integers(0, 2))]}}


@st.composite
def strategy(draw, tier):
    runs = [draw(run(tier)) for _ in range(draw(st.integers(0, 4)))]
    mets = draw(st.permutations(range(len(METRICS))))[: draw(st.integers(1, 4))]
    ids = draw(st.permutations(["r%d" % i for i in range(len(runs))] + ["gone"]))
    want = None
    if draw(st.booleans()):
        want = ids[: draw(st.integers(0, len(ids)))]
        if want and draw(gen.weighted((False, 4), (True, 1))):
            want.append(want[0])
    for r in runs:
        k = next(i for i, x in enumerate(r["recorded"]) if x)
        r["values"][k] = [v or [5, False] for v in r["values"][k]]
    return {"runs": runs, "metrics": mets, "want": want, "locator": draw(st.booleans())}


class DB:
    def __init__(self, profiles, meta, attrs):
        self.profiles, self.meta, self.attrs = profiles, meta, attrs

    def get_all_run_ids(self):
        return list(self.profiles)

    def get_regionprofiles(self, ids):
        return {i: self.profiles[i] for i in ids if i in self.profiles}

    def get_global_data(self, ids):
        return {i: self.meta[i] for i in ids if i in self.meta}

    def get_metric_attribute_metadata(self):
        return self.attrs


def value(m, v):
    """What the database holds, and what the reader is to make of it."""
    typ = (METRICS[m][1] or {}).get("type", "string")
    if typ == "double":
        x = gen.real(v[0], 4)
        return (repr(x) if v[1] else x), x
    if typ in ("int", "uint"):
        w = abs(v[0]) if typ == "uint" else v[0]
        return (str(w) if v[1] else w), w
    w = "n%d" % v[0] if METRICS[m][0] == "note" else v[0]
    return w, w


def check(spec, case):
    names = {m: (METRICS[m][1] or {}).get("alias", METRICS[m][0]) + (" (inc)" if "inclusive" in METRICS[m][0] else "")
             for m in spec["metrics"]}
    profiles, meta, models = {}, {}, {}
    for k, r in enumerate(spec["runs"]):
        def path(i):
            p, name = r["nodes"][i]
            return name if p is None else path(p) + "/" + name
        prof = {"": {METRICS[spec["metrics"][0]][0]: 1}} if r["empty"] else {}
        tree, cols = {}, set()
        for i, (p, name) in enumerate(r["nodes"]):
            tree[i] = ({"name": name, "type": "None"}, {(): {"name": name}}, [j for j, w in enumerate(r["nodes"]) if w[0] == i])
        for i in r["order"]:
            if r["recorded"][i]:
                rec = prof[path(i)] = {}
                for m in spec["metrics"]:
                    if r["values"][i][m]:
                        rec[METRICS[m][0]], v = value(m, r["values"][i][m])
                        tree[i][1][()][names[m]] = v
                        cols.add(names[m])
        for i in tree:
            for c in cols:
                tree[i][1][()].setdefault(c, None)
        profiles["r%d" % k], meta["r%d" % k] = prof, r["meta"]
        models["r%d" % k] = (tree, [i for i, w in enumerate(r["nodes"]) if w[0] is None], cols)
    db = DB(profiles, meta, {METRICS[m][0]: METRICS[m][1] for m in spec["metrics"] if METRICS[m][1] is not None})
    before = copy.deepcopy((db.profiles, db.meta, db.attrs))
    want = spec["want"]
    case.nt(len(profiles) > 1 and any(len(t[0]) > 2 for t in models.values()))
    mod = types.ModuleType("spotdb")
    mod.connect = lambda key: db if key == "/x/spot.sqlite" else None
    old = sys.modules.get("spotdb")
    sys.modules["spotdb"] = mod
    try:
        gfs = call("from_spotdb", GraphFrame.from_spotdb, *(["/x/spot.sqlite" if spec["locator"] else db] + ([] if want is None else [list(want)])))
    finally:
        if old is None:
            del sys.modules["spotdb"]
        else:
            sys.modules["spotdb"] = old
    ensure((db.profiles, db.meta, db.attrs) == before, "from_spotdb changed the database's data")
    exp = [i for i in (list(profiles) if want is None else want) if i in profiles]
    ensure(isinstance(gfs, list) and len(gfs) == len(exp), "%d GraphFrames for the runs %r", len(gfs), exp)
    case.label("%d runs" % len(exp))
    for gf, i in zip(gfs, exp):
        tree, roots, cols = models[i]
        what = "from_spotdb, run " + i
        d = read(what, lambda: gf)
        inc = [c for c in cols if c.endswith("(inc)")]
        metrics(d, [c for c in cols if c not in inc], inc, what)
        match_forest(d, tree, roots, what)
        ensure(set(d["rows"][next(iter(d["rows"]))]) == cols | {"name"}, "%s: columns are %r", what, list(gf.dataframe.columns))
        ensure(gf.metadata == meta[i], "%s: metadata is %r, expected %r", what, gf.metadata, meta[i])
        if "Total time (inc)" in cols:
            ensure(gf.default_metric == "Total time (inc)", "%s: default metric is %r", what, gf.default_metric)
        else:
            ensure(gf.default_metric in (inc or cols), "%s: default metric is %r", what, gf.default_metric)
        if "note" not in gf.default_metric.lower() and not any(isinstance(norm(v.get(gf.default_metric)), str) for v in d["rows"].values()):
            usable(gf, what)
