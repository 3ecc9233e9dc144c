import contextlib
import copy
import importlib
import io
import json
import warnings

from hv import strat as st

from .. import gen, rd
from ..build import GraphFrame, build_gf, cell
from ..core import Case, Discard, Violation, ensure, fail, sut
from ..model import graph_nodes, node_fkey
from . import c15
from .c23 import is_cyclic

EXAMPLES = {"quick": 2700, "thorough": 12000}
RULE = (
    "histories of 3-8 calls on one to three generated sources (profiles of every reader, literals, lists, JSON, dataframes): "
    "reading, exporting, querying, filtering, arithmetic, in-place operations on fresh GraphFrames, calls that fail, and edits "
    "of everything in the results of earlier reads; all calls are then made again in another order, with GraphFrames kept or "
    "read anew, and must return what they returned before; non-trivial: at least four calls, two of them of different kinds, "
    "were compared"
)
ASSUMPTIONS = [
    "what a call returns includes whether it raises an exception, and of which type",
    "results of operations other than deep copies may share data with their operand (as documented for copies) and are not edited",
    "Python's recursion limit, which filter() sets as documented, is not part of the results",
]

READERS = [("c25", 4), ("c26", 3), ("c27", 1), ("c28", 2), ("c29", 2), ("c30", 2), ("c31", 2), ("c32", 3), ("c33", 2)]
EXPORTS = ["tree", "tree", "dot", "flamegraph", "literal", "dict", "json", "metrics", "graph", "engine", "dump"]
OPS = ["filter", "query", "query", "string", "compound", "object", "matcher", "squash", "copy", "deepcopy", "arith", "groupby"]
INPLACE = ["update", "excl", "drop", "sums", "iarith", "unify"]
BAD = ["halfway", "halfway", "query", "stringquery", "predicate", "type", "column", "index", "colormap", "ctor", "literal", "lists", "json", "file", "sums",
       "operand", "mode", "empty"]


@st.composite
def source(draw, tier):
    kind = draw(gen.weighted(("plain", 4), ("default", 3), ("literal", 4), ("lists", 2), ("json", 3), ("reader", 12)))
    if kind == "literal":
        return {"kind": kind, "spec": dict(draw(c15.strategy("quick")))}
    if kind == "lists":
        return {"kind": kind, "spec": draw(gen.graphs(1, 6, shapes=("forest",), names=gen.NAMES[:4]))}
    if kind in ("plain", "default", "json"):
        return {"kind": kind, "spec": draw(gen.gframes(max_nodes=6, names=gen.NAMES[:4]))}
    mod = draw(gen.weighted(*READERS))
    return {"kind": mod, "spec": draw(importlib.import_module("hv.props." + mod).strategy("quick"))}


@st.composite
def strategy(draw, tier):
    srcs = [draw(source(tier)) for _ in range(draw(gen.weighted((1, 2), (2, 3), (3, 1))))]
    steps = []
    for _ in range(draw(st.integers(3, 12 if tier == "thorough" else 8))):
        do = draw(gen.weighted(("make", 3), ("export", 5), ("op", 5), ("inplace", 3), ("bad", 4), ("edit", 3)))
        pool = {"export": EXPORTS, "op": OPS, "inplace": INPLACE, "bad": BAD}.get(do, [""])
        steps.append({"do": do, "kind": gen.pick(draw, pool), "src": draw(st.integers(0, len(srcs) - 1)),
                      "other": draw(st.integers(0, len(srcs) - 1)), "k": draw(st.integers(0, 30)), "new": draw(st.booleans())})
    return {"sources": srcs, "steps": steps, "again": draw(st.permutations(range(len(steps))))}


def fresh(arg):
    """An argument equal to arg for one call."""
    if isinstance(arg, io.StringIO):
        return io.StringIO(arg.getvalue())
    if isinstance(arg, io.BytesIO):
        return io.BytesIO(arg.getvalue())
    if isinstance(arg, io.IOBase):
        return open(arg.name)
    if isinstance(arg, (list, dict)) or type(arg).__name__ == "DB":
        return copy.deepcopy(arg)
    return arg


def value(v):
    v = cell(v)
    if isinstance(v, float) and v != v:
        return "nan"
    return repr(v)


def dump(gf):
    """What a GraphFrame holds, whatever its nodes are numbered and however its rows are ordered."""
    nodes = graph_nodes(gf.graph)
    df = gf.dataframe
    rows = {}
    names = list(df.index.names)
    pos = names.index("node")
    cols = sorted(df.columns, key=str)
    data = {c: [value(v) for v in df[c]] for c in cols}
    strangers = []
    ids = {id(n): n for n in nodes}
    bynid = {n._hatchet_nid: id(n) for n in nodes}
    for k, t in enumerate(df.index):
        t = t if isinstance(t, tuple) else (t,)
        row = (tuple(repr(cell(x)) for j, x in enumerate(t) if j != pos), tuple(data[c][k] for c in cols))
        n = t[pos]
        at = id(n) if id(n) in ids else bynid.get(getattr(n, "_hatchet_nid", None))
        if at is None:
            strangers.append((str(n), row))
        else:
            rows.setdefault(at, []).append(row)
    color = {i: hash((node_fkey(n), tuple(sorted(rows.get(i, []))), n._depth)) for i, n in ids.items()}
    for _ in range(min(len(ids), 12)):
        color = {i: hash((color[i], tuple(sorted(color[id(c)] for c in n.children)), tuple(sorted(color.get(id(p), 0) for p in n.parents))))
                 for i, n in ids.items()}
    return {
        "nodes": sorted((node_fkey(n), sorted(rows.get(i, []))) for i, n in ids.items()),
        "structure": sorted(color.values()),
        "roots": sorted(color[id(r)] for r in gf.graph.roots),
        "other rows": sorted(strangers),
        "index": names, "columns": cols, "types": [str(df[c].dtype) for c in cols],
        "exclusive metrics": sorted(gf.exc_metrics), "inclusive metrics": sorted(gf.inc_metrics),
        "default metric": gf.default_metric, "metadata": copy.deepcopy(gf.metadata), "ordering": bool(gf.graph.node_ordering),
    }


def edit(gf, k, nested=True):
    """Change everything reachable from a GraphFrame (nested: and the values in its metadata)."""
    df = gf.dataframe
    nodes = graph_nodes(gf.graph)
    for c in list(df.columns):
        if df[c].dtype == object:
            for j in range(len(df)):
                if isinstance(df[c].iloc[j], (list, dict)):
                    df[c].iloc[j].clear()
        df[c] = ["changed"] * len(df)
    df["added"] = 1
    df.index.names = ["renamed"] + list(df.index.names[1:])
    gf.exc_metrics.append("added")
    gf.inc_metrics.insert(0, "added (inc)")
    for v in list(gf.metadata.values()) if nested else []:
        if isinstance(v, list):
            v.append("changed")
        elif isinstance(v, dict):
            v["changed"] = 1
    for m in list(gf.metadata):
        if k % 2:
            gf.metadata[m] = "changed"
    gf.metadata["extra"] = 1
    gf.default_metric = "added"
    for n in nodes:
        n.frame.attrs["name"] = "changed"
        n.frame.attrs["more"] = k
        n._hatchet_nid += 100
        n._depth += 7
    for n in nodes:
        if n.children and k % 3 == 0:
            n.children.pop()
    gf.graph.roots.append(nodes[0])


def parts(gf, nested=True):
    """The mutable objects a GraphFrame consists of."""
    out = {"graph": gf.graph, "dataframe": gf.dataframe, "list of exclusive metrics": gf.exc_metrics,
           "list of inclusive metrics": gf.inc_metrics, "metadata": gf.metadata,
           "list of roots": gf.graph.roots}
    if isinstance(gf.metadata, dict) and nested:
        for k, v in gf.metadata.items():
            if isinstance(v, (list, dict)):
                out["metadata %r" % k] = v
    for i, n in enumerate(graph_nodes(gf.graph)):
        out["node %s" % n] = n
        out["frame of node %s" % n] = n.frame
        out["attributes of node %s" % n] = n.frame.attrs
        out["children of node %s" % n] = n.children
    return {what: id(x) for what, x in out.items()}


class Source:
    def __init__(self, what, fn, args, kw, one=lambda r: r):
        self.what, self.fn, self.args, self.kw, self.one = what, fn, args, kw, one
        self.live = None
        self.facts = None
        # values of an object that is given to the call are those of the results, too
        self.nested = not any(type(a).__name__ == "CaliperReader" for a in args)

    def make(self):
        """One call; the list of GraphFrames it returns."""
        args = [fresh(a) for a in self.args]
        kw = {k: fresh(v) for k, v in self.kw.items()}
        before = copy.deepcopy([a for a in args + list(kw.values()) if isinstance(a, (list, dict))])
        with rd.any_listing_order():
            r = self.fn(*args, **kw)
        for a in args:
            if isinstance(a, io.TextIOWrapper):
                a.close()
        ensure([a for a in args + list(kw.values()) if isinstance(a, (list, dict))] == before,
               "%s changed its arguments %.300r to %.300r", self.what, before, args)
        return r if isinstance(r, list) else [r]

    def gf(self, k):
        if not self.live:
            self.live = self.make()
        return self.live[k % len(self.live)] if self.live else None


def lists_of(g):
    kids = [[j for j, p in enumerate(g["parents"]) if i in p] for i in range(len(g["frames"]))]

    def spell(i):
        return [g["frames"][i].get("name", "x")] + [spell(c) for c in kids[i]]

    return [spell(i) for i, p in enumerate(g["parents"]) if not p]


def from_parts(spec, default):
    """A GraphFrame from its parts."""
    gf, _ = build_gf(spec)
    if default:
        return GraphFrame(gf.graph, gf.dataframe)
    return GraphFrame(gf.graph, gf.dataframe, list(gf.exc_metrics), list(gf.inc_metrics), default_metric=gf.default_metric)


def simple_source(s):
    kind, spec = s["kind"], s["spec"]
    if kind in ("plain", "default"):
        return Source("GraphFrame()", from_parts, [spec, kind == "default"], {})
    if kind == "lists":
        return Source("from_lists", GraphFrame.from_lists, lists_of(spec), {})
    if kind == "literal":
        if spec["mode"] == "export":
            with sut("to_literal"):
                gf, _ = build_gf(spec["gf"])
                lits = gf.to_literal(**{lv: gf.dataframe.index[0][1 + i] for i, lv in enumerate(spec["gf"]["levels"])})
        else:
            lits = c15.literal(spec)
        return Source("from_literal", GraphFrame.from_literal, [lits], {})
    with sut("to_json"):
        text = build_gf(spec)[0].to_json()
    return Source("from_json", GraphFrame.from_json, [text], {})


def with_sources(specs, done, use):
    """use(list of Source), while all their files exist."""
    if not specs:
        return use(done)
    s, rest = specs[0], specs[1:]
    if s["kind"] not in dict(READERS):
        try:
            src = simple_source(s)
        except Violation:
            raise Discard()
        return with_sources(rest, done + [src], use)
    mod = importlib.import_module("hv.props." + s["kind"])
    spec = dict(s["spec"], locator=False) if s["kind"] == "c33" else s["spec"]

    def hook(fn, args, kw):
        with_sources(rest, done + [Source(getattr(fn, "__name__", s["kind"]), fn, list(args), kw)], use)

    depth = len(rd.HOOKS)
    rd.HOOKS.append(hook)
    try:
        mod.check(spec, Case())
    except rd.Intercepted:
        return
    finally:
        del rd.HOOKS[depth:]
    # the reader's check had nothing to read
    raise Discard()


def distinct(graph):
    """No two siblings (or roots) have the same frame; the order of such siblings is arbitrary."""
    return all(len({node_fkey(x) for x in sibs}) == len(sibs) for sibs in [graph.roots] + [n.children for n in graph_nodes(graph)])


class Run:
    def __init__(self, sources):
        self.sources = sources
        self.first = {}
        self.compared = 0
        self.kinds = set()
        self.queries = {}

    def outcome(self, fn):
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = fn()
        except (Violation, Discard):
            raise
        except RecursionError:
            raise Discard()
        except (Exception, SystemExit) as e:
            return "raised", type(e).__name__, str(e)[:100]
        return "returned", r, ""

    def expect(self, key, got, what):
        if key not in self.first:
            self.first[key] = got
            return
        self.compared += 1
        self.kinds.add(key[0])
        old = self.first[key]
        if old[0] != got[0] or (old[0] == "raised" and old[1] != got[1]):
            fail("%s: now %s %.300r, before it %s %.300r", what, got[0], got[1:], old[0], old[1:])
        if old[0] == "returned" and old[1] != got[1]:
            a, b = old[1], got[1]
            if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
                a, b = next((x, y) for x, y in zip(a, b) if x != y)
            if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
                c = next(c for c in a if a[c] != b[c])
                fail("%s: %s %.300r, before: %.300r", what, c, b[c], a[c])
            fail("%s: now returned %.400r, before: %.400r", what, b, a)

    def query(self, kind, k, gf):
        """The same query objects are used throughout a history."""
        from hatchet.query import ConjunctionQuery, DisjunctionQuery, NegationQuery, ObjectQuery, Query, parse_string_dialect

        mode = ["any", "all"][k // 2 % 2] if "rank" in gf.dataframe.index.names or gf.dataframe.index.nlevels > 1 else "off"
        key = (kind, k, mode)
        if key not in self.queries:
            obj = [
                ["*", {"name": "(foo|main).*"}, "*"],
                [("+", {"depth": "<= %d" % (k % 4)})],
                ["*", {"name": ["[a-zM].*", ".*[a-z]"]}],
                [(2, {"name": ".*"}), "*"],
                [("*", {"depth": ">= 1"}), {"name": ".*"}],
            ][k % 5]
            text = [
                'MATCH ("*")->(".", p) WHERE p."name" =~ "(foo|main).*"',
                'MATCH (".", p)->("*") WHERE p."depth" <= %d' % (k % 4),
                '{MATCH ("*", p) WHERE p."name" =~ ".*a.*"} OR {MATCH (".", p) WHERE p."depth" = 0}',
                'MATCH ("+", p) WHERE p."name" STARTS WITH "f" OR p IS LEAF',
                '{MATCH ("*", p) WHERE p."name" =~ ".*a.*"} XOR {MATCH ("+", p) WHERE p."depth" > 0}',
            ][k % 5]
            if kind == "query":
                q = obj
            elif kind == "string":
                q = text
            elif kind == "object":
                q = ObjectQuery(obj, mode)
                if k % 2:
                    q = Query().match("*").rel(".", lambda row: True)
            elif kind == "matcher":
                from hatchet.query import QueryMatcher

                q = QueryMatcher(obj, mode) if mode == "off" or k % 2 else QueryMatcher().match("*").rel(".")
            else:
                a, b = ObjectQuery(obj, mode), parse_string_dialect(text, mode)
                q = [lambda: ConjunctionQuery(a, b), lambda: DisjunctionQuery(b, a), lambda: NegationQuery(a), lambda: a & ~b][k % 4]()
            self.queries[key] = q
        return self.queries[key], mode

    def place(self, gf, k):
        df = gf.dataframe
        out = {}
        for lv in ("rank", "thread"):
            if lv in df.index.names:
                vals = sorted(set(df.index.get_level_values(lv)))
                out[lv] = vals[k % len(vals)]
        return out

    def numbers(self, gf):
        return [c for c in sorted(gf.dataframe.columns, key=str) if str(gf.dataframe[c].dtype) in ("float64", "int64")]

    def export(self, kind, gf, k):
        nums = self.numbers(gf)
        metric = nums[k % len(nums)] if nums else None
        at = self.place(gf, k // 2)
        if kind == "tree":
            maps = ["RdYlGn", "BrBG", "PiYG", "PRGn", "PuOr", "RdBu", "RdGy", "RdYlBu", "Spectral"]
            cols = [metric, None, nums[:2] or None][k % 3]
            before = copy.copy(cols)
            with _color(k % 2 == 0):
                r = gf.tree(metric_column=cols, precision=k % 4, expand_name=bool(k % 5), render_header=bool(k % 7),
                            colormap=maps[k % 9], invert_colormap=bool(k // 3 % 2), **at)
            ensure(cols == before, "tree() changed its list of metric columns to %r", cols)
            return r
        if kind == "dot":
            return gf.to_dot(metric=metric, threshold=k % 3 / 2.0, **at)
        if kind == "flamegraph":
            return gf.to_flamegraph(metric=metric, **at)
        if kind == "literal":
            cats = [c for c in sorted(gf.dataframe.columns, key=str) if str(gf.dataframe[c].dtype) == "object"][: k % 3]
            before = list(cats)
            r = gf.to_literal(cat_columns=cats, **at) if k % 2 else gf.to_literal(**at)
            ensure(cats == before, "to_literal() changed its list of columns to %r", cats)
            return json.dumps(r, default=str)
        if kind == "dict":
            return json.dumps(gf.to_dict(), default=str)
        if kind == "json":
            return gf.to_json()
        if kind == "metrics":
            return sorted(gf.show_metric_columns())
        if kind == "graph":
            g = gf.graph
            return [len(g), g.is_tree(), [str(n.frame) for n in g.traverse(order="post" if k % 2 else "pre")], g == g.copy(), hash(g.roots[0])]
        if kind == "engine":
            from hatchet.query import ObjectQuery

            q, mode = self.query("query", k, gf)
            return sorted(str(n.frame) for n in gf.query_engine.apply(ObjectQuery(q, mode), gf.graph, gf.dataframe))
        return dump(gf)

    def op(self, kind, gf, other, k):
        nums = self.numbers(gf)
        if kind == "filter":
            c = nums[k % len(nums)] if nums else "name"
            cut = sorted(v for v in gf.dataframe[c] if v == v)
            cut = cut[k % len(cut)] if cut else 0
            return gf.filter(lambda row: not row[c] < cut, squash=bool(k % 2), num_procs=1)
        if kind in ("query", "string", "object", "matcher", "compound"):
            q, mode = self.query(kind, k, gf)
            before = copy.deepcopy(q) if isinstance(q, list) else q
            r = gf.filter(q, squash=bool(k % 2), update_inc_cols=bool(k % 3), multi_index_mode=mode)
            ensure(q == before, "filter() changed the query %r to %r", before, q)
            return r
        if kind == "squash":
            return gf.squash()
        if kind == "copy":
            return gf.copy()
        if kind == "deepcopy":
            return gf.deepcopy()
        if kind == "arith":
            return getattr(gf, ["add", "sub", "mul", "div"][k % 4])(other)
        agg = {c: "sum" for c in nums}
        before = dict(agg)
        r = gf.groupby_aggregate(["name", "type"][k % 2], agg)
        ensure(agg == before, "groupby_aggregate() changed its argument to %r", agg)
        return r

    def inplace(self, kind, gf, other, k):
        nums = self.numbers(gf)
        if kind == "update":
            gf.update_inclusive_columns()
        elif kind == "excl":
            gf.generate_exclusive_columns()
        elif kind == "drop":
            gf.drop_index_levels()
        elif kind == "sums":
            cols = nums[:1] if gf.dataframe.index.nlevels > 1 else nums[:2]
            outs = [c + "/sum" for c in cols]
            args = [list(cols), list(outs)]
            (gf.subtree_sum if k % 2 else gf.subgraph_sum)(*args)
            ensure(args == [cols, outs], "the sum changed its arguments to %r", args)
        elif kind == "iarith":
            if k % 4 == 0:
                gf += other
            elif k % 4 == 1:
                gf -= other
            elif k % 4 == 2:
                gf *= other
            else:
                gf /= other
        else:
            gf.unify(other)
        return gf

    def bad(self, kind, gf, k):
        """A call that is expected to fail."""
        if kind == "query":
            return gf.filter([[("x", {"name": "a"})], [("*", {"name": 5})], [3.5], [("*", {"time": "abc"})], []][k % 5])
        if kind == "halfway":
            # fails at one of the nodes only, after others have been tried
            from hatchet.query import Query

            multi = gf.dataframe.index.nlevels > 1
            names = sorted(set(map(str, gf.dataframe["name"])))
            stop = names[k % len(names)]

            def pred(row):
                name = str(row["name"].iloc[0] if multi else row["name"])
                if name == stop:
                    raise RuntimeError("stop")
                return bool(len(name) % 2)

            if k % 3:
                return gf.filter(Query().match("*", pred).rel("."))
            return gf.filter([("*", {"name": "(?!%s).*" % stop[:1].replace("(", "[(]"), "depth": "no number"}), "."],
                             multi_index_mode="any" if multi else "off")
        if kind == "stringquery":
            return gf.filter(["MATCH (", 'MATCH (".", p) WHERE p."depth" = ', 'MATCH (".", p) WHERE q."name" = "x"', "x"][k % 4])
        if kind == "predicate":
            return gf.filter(lambda row: row["no such column"] > 1, num_procs=1)
        if kind == "type":
            return gf.filter([5, None, {"a": 1}][k % 3])
        if kind == "column":
            return [lambda: gf.tree(metric_column="no such column"), lambda: gf.to_dot(metric="no such column"),
                    lambda: gf.to_flamegraph(metric="no such column"), lambda: gf.to_literal(name="no such column"),
                    lambda: gf.tree(annotation_column="no such column")][k % 5]()
        if kind == "index":
            return [lambda: gf.tree(rank=98765), lambda: gf.to_dot(rank=98765), lambda: gf.to_flamegraph(thread=98765),
                    lambda: gf.to_literal(rank=98765)][k % 4]()
        if kind == "colormap":
            return gf.tree(colormap="no such map")
        if kind == "ctor":
            return [lambda: GraphFrame(None, gf.dataframe), lambda: GraphFrame(gf.graph, None),
                    lambda: GraphFrame(gf.graph, gf.dataframe.reset_index())][k % 3]()
        if kind == "literal":
            return GraphFrame.from_literal([[{}], [{"frame": {"name": "a"}}], [{"metrics": {"time": 1}}]][k % 3])
        if kind == "lists":
            return GraphFrame.from_lists([[1, 2], 5, ["a", 3]][k % 3])
        if kind == "json":
            return GraphFrame.from_json(["{", "[]", '{"a": 1}'][k % 3])
        if kind == "file":
            fn = [GraphFrame.from_caliper, GraphFrame.from_caliperreader, GraphFrame.from_gprof_dot, GraphFrame.from_cprofile,
                  GraphFrame.from_pyinstrument, GraphFrame.from_hpctoolkit][k % 6]
            return fn("/nonexistent/x.cali")
        if kind == "sums":
            return gf.subtree_sum(["no such column"], ["a", "b"]) if k % 2 else gf.subgraph_sum(["a", "b"], ["a"])
        if kind == "operand":
            return [lambda: gf + 5, lambda: gf.sub(None), lambda: gf.mul("x"), lambda: gf.unify(3)][k % 4]()
        if kind == "mode":
            return gf.filter([("*", {"name": ".*"})], multi_index_mode="no such mode")
        return gf.filter([{"name": "no such name at all"}], multi_index_mode="any" if gf.dataframe.index.nlevels > 1 else "off")

    def step(self, n, s, again):
        i, k = s["src"], s["k"]
        src = self.sources[i]
        plain = src.facts["forest"] and src.facts["distinct"]
        j = i if src.facts["cyclic"] or not (src.facts["forest"] and self.sources[s["other"]].facts["forest"]
                                             and plain and self.sources[s["other"]].facts["distinct"]) else s["other"]
        what = "step %d%s: %s" % (n, " again" if again else "", s["do"])
        if s["do"] == "make" or (again and s["new"]):
            new = self.outcome(src.make)
            if new[0] == "returned":
                for a in new[1]:
                    mine = parts(a, src.nested)
                    for o in self.sources:
                        for b in o.live or []:
                            theirs = {x: w for w, x in parts(b, o.nested).items()}
                            for w, x in mine.items():
                                ensure(x not in theirs, "%s: the new GraphFrame's %s is also the %s of one made before", what, w, theirs.get(x))
                src.live = new[1]
                new = ("returned", [dump(g) for g in new[1]], "")
            self.expect(("make", i), new, "%s: %s of source %d" % (what, src.what, i))
        if s["do"] == "edit":
            for g in (src.live or src.make()):
                try:
                    edit(g, k, src.nested)
                except (ValueError, TypeError, AttributeError, IndexError):
                    pass
            src.live = None
            return
        if s["do"] == "make":
            return
        cyclic = src.facts["cyclic"]
        if s["do"] == "inplace":
            made = src.make()
            if not made:
                return
            gf = made[k % len(made)]
            if cyclic or (s["kind"] in ("iarith", "unify") and not src.facts["distinct"]):
                return
            made = self.sources[j].make()
            if not made:
                return
            got = self.outcome(lambda: dump(self.inplace(s["kind"], gf, made[k % len(made)], k)))
            self.expect(("inplace", s["kind"], i, j, k), got, "%s %s on source %d" % (what, s["kind"], i))
            return
        gf = src.gf(k)
        if gf is None:
            return
        if s["do"] == "bad":
            got = self.outcome(lambda: self.bad(s["kind"], gf, k) and None)
            self.expect(("bad", s["kind"], i, k), got, "%s call with a wrong %s on source %d" % (what, s["kind"], i))
        elif s["do"] == "export":
            if cyclic and s["kind"] not in ("tree", "metrics", "dump"):
                return
            if not src.facts["distinct"] and s["kind"] not in ("metrics", "dump", "engine"):
                return
            if not src.facts["forest"] and s["kind"] == "flamegraph":
                return
            got = self.outcome(lambda: self.export(s["kind"], gf, k))
            self.expect(("export", s["kind"], i, k), got, "%s %s of source %d" % (what, s["kind"], i))
        elif not cyclic:
            if not plain and s["kind"] in ("squash", "groupby") or not src.facts["distinct"] and s["kind"] == "arith":
                return
            if not plain and k % 2:
                k -= 1
            other = self.sources[j].gf(k)
            if j == i and k % 3:
                other = self.outcome(gf.deepcopy)[1]
            kept = []

            def go():
                r = self.op(s["kind"], gf, other, k)
                kept.append(r)
                return dump(r)

            got = self.outcome(go)
            self.expect(("op", s["kind"], i, j, k), got, "%s %s on source %d" % (what, s["kind"], i))
            if kept and s["kind"] == "deepcopy" and k % 3 == 0:
                edit(kept[0], k)


@contextlib.contextmanager
def _color(on):
    import sys

    old = sys.stdout
    if on:
        class Tty(io.StringIO):
            def isatty(self):
                return True

        sys.stdout = Tty()
    try:
        yield
    finally:
        sys.stdout = old


def check(spec, case):
    def use(sources):
        run = Run(sources)
        for n, s in enumerate(sources):
            got = run.outcome(s.make)
            if got[0] == "raised":
                raise Discard()
            gfs = got[1]
            s.facts = {"cyclic": any(is_cyclic(g.graph) for g in gfs),
                       "distinct": all(distinct(g.graph) for g in gfs),
               "forest": all(len(x.parents) <= 1 for g in gfs for x in graph_nodes(g.graph))}
            case.label(spec["sources"][n]["kind"])
        for n, s in enumerate(spec["steps"]):
            run.step(n, s, False)
        for n in spec["again"]:
            run.step(n, spec["steps"][n], True)
        for kind in run.kinds:
            case.label("repeated " + kind)
        case.nt(run.compared >= 4 and len(run.kinds) >= 2)

    with_sources(spec["sources"], [], use)
