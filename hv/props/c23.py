import os
import shutil
import tempfile
import warnings

from hv import strat as st

from .. import gen
from ..build import build_gf, snap
from ..core import Violation, ensure, fail, is_missing, same, sut
from ..model import check_distinct_siblings, check_links, graph_nodes, node_fkey, paths_to_rows
from ..util import OneOf, check_rows, derived_inc, sum_min1
from .c10 import OPS, number
from .c20 import apply

EXAMPLES = {"quick": 3300, "thorough": 20000}
RULE = (
    "stateful: a pool of GraphFrames (two or three related ones over trees, forests or DAGs, 0-2 extra index levels) and "
    "up to 7 (thorough: 14) operations drawn from squashing and non-squashing filters, queries, squash, arithmetic "
    "(in and out of place), unification, copies, index dropping, aggregation, recomputed metrics and round-trips, each on "
    "arbitrary members of the pool; after each step the invariants are checked, the result is compared with a path-based "
    "model applied to the operands' previous contents (forests), and all other members must be unchanged; non-trivial: "
    "at least three operations took place, one of them on the result of another"
)
ASSUMPTIONS = [
    "arithmetic and unification of graphs with shared nodes are exercised between copies only (see C09 and C10 for others)",
    "a squash that would close a cycle by merging is not pursued further (counted)",
    "shallow copies share their data with the source, as documented",
]

KINDS = [
    ("filter", 5), ("filter_open", 2), ("query", 3), ("squash", 2), ("copy", 2), ("deepcopy", 2), ("arith", 6), ("iarith", 3),
    ("unify", 2), ("drop", 2), ("groupby", 1), ("update", 2), ("excl", 2), ("sums", 2), ("json", 2), ("literal", 1), ("hdf", 1),
]


@st.composite
def strategy(draw, tier):
    shapes = draw(st.sampled_from([("tree", "forest"), ("tree", "forest"), ("tree", "dag")]))
    a, b = draw(gen.gframe_pairs(9 if tier == "thorough" else 7, shapes=shapes, nan=draw(st.booleans()),
                                 names=gen.NAMES[: draw(st.integers(2, 6))]))
    ops = [
        {"op": draw(gen.weighted(*KINDS)), "a": draw(st.integers(0, 30)), "b": draw(st.integers(0, 30)),
         "k": draw(st.integers(0, 60)), "flag": draw(gen.weighted((True, 2), (False, 1)))}
        for _ in range(draw(st.integers(1, 14 if tier == "thorough" else 7)))
    ]
    return {"a": a, "b": b, "ops": ops}


class Member:
    def __init__(self, gf, closed=True, alias=None, cyclic=False):
        self.gf = gf
        self.closed = closed  # every node has a row
        self.alias = alias if alias is not None else object()  # members sharing data
        self.cyclic = cyclic
        self.used = False


def is_cyclic(graph):
    state = {}
    for r in graph.roots:
        stack = [(r, iter(r.children))]
        state[id(r)] = 1
        while stack:
            n, it = stack[-1]
            for c in it:
                s = state.get(id(c))
                if s == 1:
                    return True
                if s is None:
                    state[id(c)] = 1
                    stack.append((c, iter(c.children)))
                    break
            else:
                state[id(n)] = 2
                stack.pop()
    return False


def forest(gf):
    return all(len(n.parents) <= 1 for n in graph_nodes(gf.graph)) and all(not r.parents for r in gf.graph.roots)


def rows_of(gf, what):
    """{(path, index): values} of a forest, {(node id, index): values} otherwise."""
    if forest(gf):
        out = {}
        for (ps, t), v in paths_to_rows(gf, what).items():
            ensure(len(ps) == 1, "%s: node with several paths in a forest", what)
            out[(next(iter(ps)), t)] = v
        return out
    return None


def well_formed(mem, what):
    gf = mem.gf
    with sut("inspecting " + what):
        check_links(gf.graph, what)
        check_distinct_siblings(gf.graph, what)
        nodes = graph_nodes(gf.graph)
        df = gf.dataframe
        bynid = {}
        for n in nodes:
            ensure(n._hatchet_nid not in bynid, "%s: node id %r used twice", what, n._hatchet_nid)
            bynid[n._hatchet_nid] = n
        names = list(df.index.names)
        ensure("node" in names and len(set(names)) == len(names), "%s: index levels are %r", what, names)
        pos = names.index("node")
        have, keys = set(), set()
        for t in df.index:
            t = t if isinstance(t, tuple) else (t,)
            n = t[pos]
            nid = n._hatchet_nid
            ensure(nid in bynid and node_fkey(bynid[nid]) == node_fkey(n), "%s: row for %s, which is not in the graph", what, n)
            key = (nid,) + tuple(x for j, x in enumerate(t) if j != pos)
            ensure(key not in keys, "%s: two rows for %s", what, key)
            keys.add(key)
            have.add(nid)
        if mem.closed:
            ensure(have == set(bynid), "%s: nodes without rows: %s", what, [str(bynid[k]) for k in set(bynid) - have][:3])
        for nid in have:
            r = df.loc[bynid[nid]]
            ensure(r is not None, "no row")
        ensure(not df.columns.duplicated().any(), "%s: duplicate columns %r", what, list(df.columns))
        listed = list(gf.exc_metrics) + list(gf.inc_metrics)
        ensure(len(set(listed)) == len(listed), "%s: metrics are listed twice: %r, %r", what, gf.exc_metrics, gf.inc_metrics)
        for c in listed:
            ensure(c in df.columns, "%s: metric %r is not a column", what, c)
        seen = [id(n) for n in gf.graph.traverse()]
        ensure(sorted(seen) == sorted(id(n) for n in nodes), "%s: traversal does not visit every node once", what)
        ensure(len(gf.graph) == len(nodes), "%s: size of the graph is %r, expected %d", what, len(gf.graph), len(nodes))
        if forest(gf):
            for n in nodes:
                d = n.parents[0]._depth + 1 if n.parents else 0
                ensure(n._depth == d, "%s: depth of %s is %r, expected %d", what, n, n._depth, d)


def full_index(gf):
    """An index tuple (rank, thread) at which every node has a row, or None."""
    names = list(gf.dataframe.index.names)
    if names == ["node"]:
        return {}
    per = {}
    for t in gf.dataframe.index:
        per.setdefault(tuple(t[1:]), set()).add(t[0]._hatchet_nid)
    n = len(graph_nodes(gf.graph))
    for t in sorted(per, key=str):
        if len(per[t]) == n:
            return dict(zip(names[1:], t))
    return None


def exports(mem, what):
    gf = mem.gf
    at = full_index(gf)
    n = len(graph_nodes(gf.graph))
    if not mem.closed or at is None or not (gf.exc_metrics or gf.inc_metrics):
        return False
    with sut("exporting " + what), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = (gf.exc_metrics + gf.inc_metrics)[0]
        at = dict(at) if gf.default_metric in gf.dataframe.columns and m in ("time", "flops (exc)") else dict(at, metric=m)
        tat = {("metric_column" if k == "metric" else k): v for k, v in at.items()}
        text = gf.tree(render_header=False, **tat)
        ensure(text.count("\n") >= n, "%s: tree() has %d lines for %d nodes", what, text.count("\n"), n)
        dot = gf.to_dot(**at)
        ensure(dot.count("label=") == n, "%s: to_dot() declares %d of %d nodes", what, dot.count("label="), n)
        if not mem.cyclic:
            lit = gf.to_literal(**{k: v for k, v in at.items() if k != "metric"})
            ensure(len(lit) == len(gf.graph.roots), "%s: to_literal() has %d roots", what, len(lit))
        d = gf.to_dict()
        ensure(len(d["dataframe"]) == len(gf.dataframe), "%s: to_dict() has %d rows", what, len(d["dataframe"]))
        if forest(gf) and not mem.cyclic:
            fl = gf.to_flamegraph(**at)
            ensure(fl.count("\n") == n, "%s: to_flamegraph() has %d lines for %d nodes", what, fl.count("\n"), n)
    return True


def squashed(rows, keep, gf, update):
    """Rows after squashing to the rows in keep."""
    nodes = {p for p, _ in keep}
    metrics = list(gf.exc_metrics) + list(gf.inc_metrics)

    def short(p):
        return tuple(f for j, f in enumerate(p) if p[: j + 1] in nodes)

    parts = {}
    for (p, t), v in rows.items():
        if (p, t) in keep:
            parts.setdefault((short(p), t), []).append(v)
    out = {}
    for k, vs in parts.items():
        out[k] = {c: (sum_min1([v[c] for v in vs]) if c in metrics else OneOf([v[c] for v in vs])) for c in vs[0]}
    if update:
        inclusive(out, gf)
    return out


def inclusive(rows, gf):
    for e, i in zip(gf.exc_metrics, derived_inc(gf.exc_metrics)):
        new = {
            (p, t): sum_min1([w[e] for (q, u), w in rows.items() if u == t and q[: len(p)] == p]) for p, t in rows
        }
        for k, v in new.items():
            rows[k][i] = v


def compare(mem, exp, what):
    if exp is None:
        return
    got = rows_of(mem.gf, what)
    if got is None:
        fail("%s: not a forest any more", what)
    check_rows({(frozenset([p]), t): v for (p, t), v in got.items()}, {(frozenset([p]), t): v for (p, t), v in exp.items()}, what)


def check(spec, case):
    tmp = tempfile.mkdtemp(prefix="hv-c23-")
    try:
        run(spec, case, tmp)
    finally:
        shutil.rmtree(tmp)


def run(spec, case, tmp):
    from hatchet import GraphFrame

    pool = []
    for s in (spec["a"], spec["b"]):
        pool.append(Member(build_gf(s)[0]))
    done, chained = 0, False
    for step, o in enumerate(spec["ops"]):
        op, k = o["op"], o["k"]
        cands = pool
        if op in ("arith", "iarith", "unify", "drop", "groupby", "update", "excl", "sums", "json", "literal", "hdf", "query"):
            cands = [m for m in pool if m.closed]
        if op in ("filter", "filter_open", "query", "squash", "arith", "iarith", "unify", "literal", "update", "sums"):
            cands = [m for m in cands if not m.cyclic]
        if not cands:
            continue
        A = cands[o["a"] % len(cands)]
        gf = A.gf
        metrics = list(gf.exc_metrics) + list(gf.inc_metrics)
        if not metrics:
            continue
        what = "step %d (%s)" % (step, op)
        tree = forest(gf) and not A.cyclic
        rows = rows_of(gf, what) if tree else None
        B, same_nodes = None, False
        if op in ("arith", "iarith", "unify"):
            names = list(gf.dataframe.index.names)
            fit = [m for m in pool if m.closed and not m.cyclic and list(m.gf.dataframe.index.names) == names
                   and (set(m.gf.exc_metrics) | set(m.gf.inc_metrics)) == set(metrics)
                   and ((tree and forest(m.gf)) or m is A or m.gf.graph is gf.graph)]
            B = fit[o["b"] % len(fit)]
            rows_b = rows_of(B.gf, what) if tree else None
            # operands on one graph are combined as they are
            same_nodes = tree and gf.graph is not B.gf.graph and {p for p, _ in rows} == {p for p, _ in rows_b}
        before = [(m, snap(m.gf)) for m in pool]
        changed = []  # aliases that may change
        new = None
        exp = None
        metric0 = gf.default_metric
        if op in ("filter", "filter_open"):
            col = gf.dataframe.columns[k % len(gf.dataframe.columns)] if o["flag"] else "name"
            vals = sorted({str(v) for v in gf.dataframe[col]})
            pick = {v for j, v in enumerate(vals) if (k >> (j % 5)) & 1} or {vals[0]}
            squash = op == "filter"
            with sut(what):
                r = gf.filter(lambda row: str(row[col]) in pick, squash=squash, num_procs=1, update_inc_cols=o["flag"])
            if rows is not None:
                keep = {x for x, v in rows.items() if str(v[col]) in pick}
                exp = squashed(rows, keep, gf, o["flag"]) if squash else {x: rows[x] for x in keep}
            new = Member(r, closed=squash)
        elif op == "query":
            frames = [n.frame.attrs for n in graph_nodes(gf.graph)]
            name = str(gf.dataframe["name"].iloc[k % len(gf.dataframe)])
            multi = len(gf.dataframe.index.names) > 1
            import re

            q = [("*" if k % 2 else "."), {"name": re.escape(name)}]
            q = [tuple(q)] if k % 3 else [tuple(q), "*"]
            if k % 2 and k % 3:
                q = [("+", {"name": re.escape(name)})]
            with sut(what):
                r = gf.filter(q, squash=True, update_inc_cols=o["flag"], multi_index_mode="any" if multi else "off")
            ensure(len(frames) > 0, "no nodes")
            if rows is not None:
                hit = {p for (p, t), v in rows.items() if v["name"] == name}
                if k % 3 == 0:
                    hit = {p for p, _ in rows if any(p[:j] in hit for j in range(1, len(p) + 1))} if not k % 2 else {p for p, _ in rows}
                exp = squashed(rows, {x for x in rows if x[0] in hit}, gf, o["flag"])
            new = Member(r)
        elif op == "squash":
            with sut(what):
                r = gf.squash(update_inc_cols=o["flag"])
            if rows is not None:
                exp = squashed(rows, set(rows), gf, o["flag"])
            new = Member(r)
        elif op == "copy":
            with sut(what):
                r = gf.copy()
            exp = rows
            new = Member(r, A.closed, A.alias, A.cyclic)
        elif op == "deepcopy":
            with sut(what):
                r = gf.deepcopy()
            exp = rows
            new = Member(r, A.closed, None, A.cyclic)
        elif op in ("arith", "iarith"):
            name = sorted(OPS)[k % 4]
            what += " " + name
            if rows is not None:
                exp = combined(name, rows, rows_b, metrics, gf)
            with sut(what), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if op == "arith":
                    r = OPS[name][0](gf, B.gf) if o["flag"] else getattr(gf, name)(B.gf)
                    new = Member(r)
                else:
                    r = OPS[name][1](gf, B.gf)
                    ensure(r is gf, "%s: not in place", what)
                    changed = [A]
        elif op == "unify":
            with sut(what):
                gf.unify(B.gf)
            ensure(gf.graph is B.gf.graph, "%s: graphs differ afterwards", what)
            changed = [A, B]
            if rows is not None and A is not B:
                # rows missing on the left are added there
                B.closed = {p for p, _ in rows} <= {p for p, _ in rows_b}
                well_formed(B, what + ", right")
                compare(B, rows_b, what + ", right")
                rows = combined("unify", rows, rows_b, metrics, gf)
            exp = rows
        elif op == "drop":
            f = ["default", "max", "sum"][k % 3]
            with sut(what):
                gf.drop_index_levels() if f == "default" else gf.drop_index_levels(f)
            changed = [A]
            if rows is not None:
                exp = {}
                g = {"default": "np.mean", "max": "np.max", "sum": "np.sum"}[f]
                for (p, t), v in rows.items():
                    exp.setdefault((p, ()), []).append(v)
                exp = {
                    x: {c: (OneOf(apply(g, [v[c] for v in vs])) if c in metrics else OneOf([v[c] for v in vs])) for c in vs[0]}
                    for x, vs in exp.items()
                }
        elif op == "groupby":
            col = "module" if "module" in gf.dataframe.columns and o["flag"] else "name"
            per = {}
            for t, v in zip(gf.dataframe.index, gf.dataframe[col]):
                per.setdefault((t[0] if isinstance(t, tuple) else t)._hatchet_nid, set()).add(v)
            if any(len(v) > 1 or any(is_missing(x) for x in v) for v in per.values()):
                continue
            with sut(what):
                r = gf.groupby_aggregate([col], {c: "sum" for c in metrics})
            new = Member(r, cyclic=is_cyclic(r.graph))
            ensure(len(r.graph) == len(set().union(*per.values())), "%s: %d groups", what, len(r.graph))
        elif op == "update":
            if not gf.exc_metrics:
                continue
            with sut(what):
                gf.update_inclusive_columns()
            changed = [A]
            if rows is not None:
                exp = {x: dict(v) for x, v in rows.items()}
                inclusive(exp, gf)
        elif op == "excl":
            have = set(gf.dataframe.columns)
            if any((c[:-5].strip() if c.endswith("(inc)") else c + " (exc)") in have - set(gf.exc_metrics) for c in gf.inc_metrics):
                continue
            if any(c + " (exc)" in have for c in gf.inc_metrics):
                continue
            with sut(what):
                gf.generate_exclusive_columns()
            changed = [A]
            exp = rows
        elif op == "sums":
            c = metrics[k % len(metrics)]
            with sut(what):
                gf.subgraph_sum([c], ["total"])
            changed = [A]
            if rows is not None:
                exp = {
                    (p, t): dict(v, total=sum_min1([w[c] for (q, u), w in rows.items() if u == t and q[: len(p)] == p]))
                    for (p, t), v in rows.items()
                }
        elif op == "json":
            with sut(what):
                r = GraphFrame.from_json(gf.to_json())
            ensure(set(r.exc_metrics) == set(gf.exc_metrics) and set(r.inc_metrics) == set(gf.inc_metrics), "%s: metrics differ", what)
            exp = rows
            new = Member(r, True, None, A.cyclic)
        elif op == "literal":
            at = full_index(gf)
            if at is None:
                continue
            with sut(what):
                r = GraphFrame.from_literal(gf.to_literal(**at))
            new = Member(r)
            if rows is not None:
                got = {p for p, _ in rows_of(r, what)}
                ensure(got == {p for p, _ in rows}, "%s: call paths differ", what)
            if set(r.exc_metrics) != set(gf.exc_metrics):
                continue  # literals classify metrics by their names
        elif op == "hdf":
            path = os.path.join(tmp, "x%d.h5" % step)
            with sut(what), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                gf.to_hdf(path)
                r = GraphFrame.from_hdf(path)
            ensure(set(r.exc_metrics) == set(gf.exc_metrics) and set(r.inc_metrics) == set(gf.inc_metrics), "%s: metrics differ", what)
            ensure(r.default_metric == gf.default_metric, "%s: default metric differs", what)
            exp = rows
            new = Member(r, True, None, A.cyclic)
        case.label(op)
        done += 1
        chained = chained or A.used or (B is not None and B.used)
        touched = {id(m.alias) for m in changed}
        for m, s in before:
            if id(m.alias) not in touched:
                try:
                    same_snap(s, m.gf)
                except Violation as e:
                    raise Violation("%s changed a GraphFrame it should not: %s" % (what, e))
            elif m not in changed:
                # shares its data with one that was changed in place
                m.gf = None
        pool = [m for m in pool if m.gf is not None]
        target = new or A
        if new is not None and not new.cyclic and is_cyclic(new.gf.graph):
            case.label("merging closed a cycle")
            continue
        if op not in ("json", "literal", "groupby"):
            ensure(target.gf.default_metric == metric0, "%s: default metric became %r", what, target.gf.default_metric)
        well_formed(target, "result of " + what)
        compare(target, exp, "result of " + what)
        if same_nodes and "_missing_node" in target.gf.dataframe.columns:
            ensure((target.gf.dataframe["_missing_node"] == 0).all(), "result of %s: marks nodes as missing, but both operands had them all", what)
        if exports(target, "result of " + what):
            case.label("exported")
        target.used = True
        if new is not None:
            pool.append(new)
            if len(pool) > 6:
                pool.pop(0)
    case.nt(done >= 3 and chained)


def same_snap(s, gf):
    from ..build import assert_unchanged

    assert_unchanged(s, gf, "it")


def combined(op, A, B, metrics, gf):
    pa, pb = {p for p, _ in A}, {p for p, _ in B}
    out = {}
    for k, x in A.items():
        y = B.get(k)
        out[k] = {c: v for c, v in x.items() if c not in metrics and c != "_missing_node"}
        for c in metrics:
            out[k][c] = number(op, x[c], y[c]) if y is not None and op != "unify" else x[c]
        if pa != pb:
            out[k]["_missing_node"] = 0 if k[0] in pb else 1
    for k, y in B.items():
        if k[0] not in pa:
            out[k] = {c: float("nan") for c in metrics}
            out[k]["name"] = y["name"]
            out[k]["_missing_node"] = 2
    return out
