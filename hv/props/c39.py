import contextlib
import copy
import os
import warnings

import multiprocess
from hv import strat as st

from .. import gen
from ..build import GraphFrame, assert_unchanged, build_gf, cell, row_name, snap
from ..core import Violation, ensure, fail, same, sut
from ..model import M
from ..util import graph_labels, rowmap
from .c38 import dump

EXAMPLES = {"quick": 2400, "thorough": 24000}
RULE = (
    "random GraphFrames (all index kinds, sparse) and one to three operations made to fail: a filter predicate (1-6 processes), query "
    "predicate, grouping, aggregation or sum function that raises at a chosen row or call or ends its process, or arguments "
    "that are invalid or leave nothing; every operand is compared with a snapshot, then a valid operation of the same "
    "kind is made on it and on a GraphFrame that never saw a failure; non-trivial: a function failed after it had been "
    "called successfully, or in another process"
)
ASSUMPTIONS = [
    "sum functions write their output columns as they go: values of these columns may have changed, nothing else",
    "errors of functions that run in other processes can be pickled (or else some other error is raised)",
]

CASE_LIMIT_S = 30
WHERE = ["filter", "filter", "filter", "query", "query", "groupkey", "groupagg", "drop", "subtree", "subgraph", "invalid", "invalid", "empty", "mixed"]


class Boom(Exception):
    """What failing functions raise."""


class Odd(Exception):
    """An error that cannot be unpickled."""

    def __init__(self, a, b):
        super().__init__(a + b)


@st.composite
def strategy(draw, tier):
    big = 12 if tier == "thorough" else 8
    a = draw(gen.gframes(max_nodes=big, sparse=draw(st.booleans()), names=gen.NAMES[: draw(st.integers(2, 6))]))
    b = draw(gen.gframes(max_nodes=4, names=gen.NAMES[:3]))
    ops = [
        {"op": gen.pick(draw, WHERE), "at": draw(st.integers(0, 11)), "k": draw(st.integers(0, 59)),
         "procs": draw(gen.weighted((1, 5), (2, 2), (3, 1), (6, 1))), "how": draw(gen.weighted(("boom", 6), ("die", 2), ("odd", 1))),
         "flag": draw(st.booleans())}
        for _ in range(draw(st.integers(1, 3)))
    ]
    return {"a": a, "b": b, "ops": ops}


@contextlib.contextmanager
def no_children():
    """No process is left behind, whatever happens."""
    try:
        yield
    finally:
        for p in multiprocess.active_children():
            p.kill()
            p.join()


def failing(fn, at):
    """fn, but the call number at fails; and the number of calls so far."""
    calls = [0]

    def f(*args):
        calls[0] += 1
        if calls[0] > at:
            raise Boom("call %d" % calls[0])
        return fn(*args)

    return f, calls


def attempt(what, fn, exc=Exception):
    """fn() must raise exc."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = fn()
    except Violation:
        raise
    except exc:
        return
    except Exception as e:
        fail("%s: raised %s: %.200s instead of %s", what, type(e).__name__, e, exc.__name__)
    fail("%s: no error, but the result %.200r", what, r)


def quiet(fn, *args, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*args, **kw)


def invalid(spec, gf, gfb, k, flag):
    """(description, a call that cannot succeed)."""
    from hatchet.query import ObjectQuery, StringQuery

    met, lv = spec["exc"][0], spec["levels"]
    sums = gf.subtree_sum if flag else gf.subgraph_sum
    calls = [
        ("filter(5)", lambda: gf.filter(5)),
        ("filter(None)", lambda: gf.filter(None)),
        ("filter(dict)", lambda: gf.filter({"name": "a"})),
        ("filter by a query with a bad quantifier", lambda: gf.filter([("x", {"name": "a"})])),
        ("filter by a query with a numeric condition on a name", lambda: gf.filter([{"name": 5}])),
        ("filter by an ill-formed string query", lambda: gf.filter("MATCH (")),
        ("ObjectQuery with a bad element", lambda: gf.filter(ObjectQuery([3.5]))),
        ("StringQuery on an unknown variable", lambda: gf.filter(StringQuery('MATCH (".", p) WHERE q."name" = "x"'))),
        ("filter by an unknown column", lambda: gf.filter(lambda r: r["no such"] > 1, num_procs=1 + k % 2)),
        ("tree with an unknown metric", lambda: gf.tree(metric_column="no such")),
        ("tree with a list ending in an unknown metric", lambda: gf.tree(metric_column=[met, "no such"])),
        ("tree with an unknown name column", lambda: gf.tree(name_column="no such")),
        ("to_dot with an unknown metric", lambda: gf.to_dot(metric="no such")),
        ("to_dot with an unknown name column", lambda: gf.to_dot(name="no such")),
        ("to_flamegraph with an unknown metric", lambda: gf.to_flamegraph(metric="no such")),
        ("to_flamegraph with an unknown name column", lambda: gf.to_flamegraph(name="no such")),
        ("to_literal with an unknown name column", lambda: gf.to_literal(name="no such")),
        ("sum into another number of columns", lambda: sums([met], ["x1", "x2"])),
        ("sum of unknown columns", lambda: sums([met, "no such"], ["x1", "x2"])),
        ("sum of a column and an unknown one", lambda: sums(["no such", met], ["x1", "x2"])),
        ("groupby an unknown column", lambda: gf.groupby_aggregate("no such", {met: "sum"})),
        ("aggregate with an unknown function", lambda: gf.groupby_aggregate("name", {met: "no such"})),
        ("aggregate an unknown column", lambda: gf.groupby_aggregate("name", {"no such": "sum"})),
        ("drop_index_levels with an unknown function", lambda: gf.drop_index_levels(function="no such")),
        ("add a number", lambda: gf.add(5)),
        ("+ a number", lambda: gf + 5),
        ("- None", lambda: gf - None),
        ("* a dataframe", lambda: gf * gf.dataframe),
        ("/ text", lambda: gf / "gf"),
        ("unify with a number", lambda: gf.unify(5)),
        ("unify with a graph", lambda: gf.unify(gfb.graph)),
        ("+= a number", lambda: gf.__iadd__(5)),
        ("-= None", lambda: gf.__isub__(None)),
        ("*= text", lambda: gf.__imul__("gf")),
        ("/= a graph", lambda: gf.__itruediv__(gfb.graph)),
        ("union of a graph and a number", lambda: gf.graph.union(5)),
        ("traverse in an unknown order", lambda: list(gf.graph.traverse(order="in"))),
        ("GraphFrame without graph", lambda: GraphFrame(None, gf.dataframe)),
        ("GraphFrame without dataframe", lambda: GraphFrame(gf.graph, None)),
        ("GraphFrame of a dataframe without node index", lambda: GraphFrame(gf.graph, gf.dataframe.reset_index())),
    ]
    if lv:
        calls += [
            ("tree at an unknown index", lambda: gf.tree(**{lv[0]: 98765})),
            ("to_dot at an unknown index", lambda: gf.to_dot(**{lv[0]: 98765})),
            ("to_flamegraph at an unknown index", lambda: gf.to_flamegraph(**{lv[0]: 98765})),
            ("to_literal at an unknown index", lambda: gf.to_literal(**{lv[0]: 98765})),
        ]
    return calls[k % len(calls)]


def check(spec, case):
    m = M.of(spec["a"]["graph"])
    graph_labels(m, case)
    with sut("building"):
        gf, nodes = build_gf(spec["a"])
        twin, _ = build_gf(spec["a"])
        gfb, _ = build_gf(spec["b"])
    before, before_b = snap(gf), snap(gfb)
    idx = {nodes[i]._hatchet_nid: i for i in range(m.n)}
    rows = [(r[0], tuple(r[1])) for r in spec["a"]["rows"]]
    vals, lv, met = rowmap(spec["a"]), spec["a"]["levels"], spec["a"]["exc"][0]
    mode = "any" if lv else "off"
    with no_children():
        for o in spec["ops"]:
            op, at, k = o["op"], o["at"], o["k"]
            what, again, touched = op, None, []
            case.label(op)
            if op == "filter":
                bad = rows[k % len(rows)]
                here, procs, how = os.getpid(), o["procs"], o["how"]
                if procs == 1 and how == "die":
                    how = "boom"

                def pred(row):
                    if (idx[row["node"]._hatchet_nid], tuple(int(row[x]) for x in lv)) == bad:
                        if how == "die" and os.getpid() != here:
                            os._exit(at % 3)
                        raise Odd("a", "b") if how == "odd" else Boom("at %r" % (bad,))
                    return bool(row["node"]._hatchet_nid % 2)

                what = "filter in %d processes, one of which %s" % (procs, "ends" if how == "die" else "raises " + how)
                case.nt(len(rows) > 1)
                case.label("%s in %s" % (how, "one process" if procs == 1 else "processes"))
                attempt(what, lambda: gf.filter(pred, squash=o["flag"], num_procs=procs), Boom if how == "boom" else Exception)

                def again(g):
                    return g.filter(lambda row: not row[met] < vals[bad][met], squash=False, num_procs=procs)
            elif op == "query":
                from hatchet.query import NegationQuery, Query

                name = row_name(spec["a"]["graph"]["frames"][k % m.n])

                def pred(row):
                    s = str(row["name"].iloc[0] if lv else row["name"])
                    if s == name:
                        raise Boom(s)
                    return len(s) % 2 == 1

                q = [Query().match("*", pred), Query().match(".", pred), Query().match("+", lambda r: True).rel(".", pred)][at % 3]
                what = "query whose predicate raises"
                if o["flag"]:
                    q = NegationQuery(q)
                if any(vals[r] for r in rows if row_name(spec["a"]["graph"]["frames"][r[0]]) == name) and len({r[0] for r in rows}) == m.n:
                    case.nt(m.n > 1)
                    attempt(what, lambda: gf.filter(q, squash=False), Boom)

                    def again(g):
                        return g.filter([("*", {"name": ".*"})], squash=False, multi_index_mode=mode)
            elif op in ("groupkey", "groupagg"):
                fn, calls = failing((lambda x: nodes and "ab"[len(str(x)) % 2]) if op == "groupkey" else (lambda x: x.sum()), at)
                if op == "groupkey":
                    what = "groupby_aggregate with a grouping function that raises"
                    if lv:
                        continue
                    call = lambda: gf.groupby_aggregate(fn, {met: "sum"})  # noqa: E731
                else:
                    what = "groupby_aggregate with an aggregation function that raises"
                    call = lambda: gf.groupby_aggregate("name", {met: fn})  # noqa: E731
                if not run_until(what, call, calls, at, case):
                    continue

                def again(g):
                    return g.groupby_aggregate("name", {met: "max"}) if not lv and len(rows) == m.n else None
            elif op == "drop":
                fn, calls = failing(lambda x: x.max(), at)
                what = "drop_index_levels with a function that raises"
                probe, _ = build_gf(spec["a"])
                count = [0]

                def counting(x):
                    count[0] += 1
                    return x.max()

                quiet(probe.drop_index_levels, counting)
                if count[0] <= at:
                    continue
                case.nt(at > 0)
                attempt(what, lambda: gf.drop_index_levels(fn), Boom)

                def again(g):
                    g = g.deepcopy()
                    g.drop_index_levels()
                    return g
            elif op in ("subtree", "subgraph"):
                outs = ["out1", "out2"][: len(spec["a"]["exc"])] if o["flag"] else None
                cols = list(spec["a"]["exc"])[:2]
                dag = not m.is_forest()
                if op == "subtree" and dag or len({r[0] for r in rows}) < m.n:
                    continue
                fn, calls = failing(lambda x: x.sum(), at)
                what = "%s_sum with a function that raises" % op
                touched = outs or cols
                g2, n2 = build_gf(spec["a"])
                b2 = snap(g2)
                try:
                    quiet(getattr(g2, op + "_sum"), cols, outs, fn)
                    failed = False
                except Boom:
                    failed = True
                ensure(failed == (calls[0] > at), "%s: %d calls were made, and %s error was raised", what, calls[0], "an" if failed else "no")
                if failed:
                    case.nt(at > 0)
                    only_columns(b2, g2, touched, what)
                continue
            elif op == "invalid":
                what, call = invalid(spec["a"], gf, gfb, k, o["flag"])
                attempt(what, call)

                def again(g):
                    return g
            elif op == "mixed":
                # frames that cannot be compared with some of the other graph's
                ops = ["unify", "add", "__iadd__", "sub", "__isub__", "__itruediv__", "mul"]
                kind = ops[k % len(ops)]
                what = "%s of graphs whose frames cannot be compared" % kind
                g2, _ = build_gf(spec["a"])
                odd = copy.deepcopy(spec["b"])
                for j, f in enumerate(odd["graph"]["frames"]):
                    f["name"] = j + at
                g3, _ = build_gf(odd)
                b2, b3 = snap(g2), snap(g3)
                left, right, bl, br = (g2, g3, b2, b3) if o["flag"] else (g3, g2, b3, b2)
                try:
                    quiet(getattr(left, kind), right)
                except Exception:
                    case.label("mixed frames rejected")
                    case.nt(m.n > 1)
                    assert_unchanged(bl, left, what)
                    assert_unchanged(br, right, what + " (other operand)")
                continue
            elif op == "empty":
                what = "filter that keeps nothing"
                from hatchet.graphframe import EmptyFilter

                arg = [lambda row: False, [{"name": "no such name"}], 'MATCH (".", p) WHERE p."name" = "no such name"'][at % 3]
                attempt(what, lambda: gf.filter(arg, squash=o["flag"], num_procs=o["procs"], multi_index_mode=mode if at % 3 else "off"), EmptyFilter)

                def again(g):
                    return g.filter(lambda row: row["name"] is not None, squash=False, num_procs=1)
            assert_unchanged(before, gf, what)
            assert_unchanged(before_b, gfb, what + " (other operand)")
            if again:
                res = []
                for g in (gf, twin):
                    try:
                        r = quiet(again, g)
                        res.append(None if r is None else dump(r))
                    except Exception as e:
                        res.append("%s: %s" % (type(e).__name__, e))
                if isinstance(res[1], str) and res[0] != res[1]:
                    fail("after %s, another operation gives %.200r, without it %.200r", what, res[0], res[1])
                for key in res[1] if isinstance(res[1], dict) else ():
                    ensure(isinstance(res[0], dict) and res[0][key] == res[1][key],
                           "after %s, the %s of another operation's result are %.200r, without it %.200r", what, key,
                           res[0][key] if isinstance(res[0], dict) else res[0], res[1][key])
            assert_unchanged(before, gf, "an operation after " + what)
        ensure(not multiprocess.active_children(), "processes are left running")


def run_until(what, call, calls, at, case):
    """Whether call, which fails iff its function is called more than ``at`` times, failed."""
    try:
        quiet(call)
    except Boom:
        ensure(calls[0] > at, "%s: raised before its function did", what)
        case.nt(at > 0)
        return True
    except Exception as e:
        ensure(calls[0] <= at, "%s: raised %s: %.200s instead of the function's error", what, type(e).__name__, e)
        return False
    ensure(calls[0] <= at, "%s: its function failed, but no error was raised", what)
    return False


def only_columns(before, gf, touched, what):
    """Nothing but the values of the columns touched is different."""
    with sut("inspecting the GraphFrame after " + what):
        after = snap(gf)
    for k in ("graph_obj", "roots", "nodes", "ordering", "index_names", "index", "exc", "inc", "default", "metadata"):
        ensure(before[k] is after[k] or before[k] == after[k], "%s: changed the GraphFrame's %s", what, k)
    ensure([c for c in after["columns"] if c not in touched] == [c for c in before["columns"] if c not in touched],
           "%s: columns are %r", what, after["columns"])
    for c in before["columns"]:
        if c not in touched:
            ensure(all(same(cell(x), cell(y)) for x, y in zip(before["data"][c], after["data"][c])), "%s: changed column %r", what, c)


