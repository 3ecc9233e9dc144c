"""Turn specs into real hatchet objects, and snapshot real objects."""

import copy
import random
import warnings

warnings.simplefilter("ignore")

import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402

from .core import Violation, ensure, is_missing, same, sut  # noqa: E402
from .model import check_links, graph_nodes, node_fkey  # noqa: E402

import hatchet  # noqa: E402
from hatchet.util.colormaps import ColorMaps  # noqa: E402
from hatchet import GraphFrame  # noqa: E402
from hatchet.frame import Frame  # noqa: E402
from hatchet.graph import Graph  # noqa: E402
from hatchet.node import Node  # noqa: E402


def build_graph(g, enumerate_=True):
    """(Graph, [Node]) the way every reader builds one."""
    n = len(g["frames"])
    nodes = [None] * n
    for i in g.get("alloc") or range(n):
        nodes[i] = Node(Frame(dict(g["frames"][i])))
    roots = []
    for i in g.get("order") or range(n):
        for p in g["parents"][i]:
            nodes[p].add_child(nodes[i])
            nodes[i].add_parent(nodes[p])
        if not g["parents"][i]:
            roots.append(nodes[i])
    graph = Graph(roots)
    if g.get("node_order"):
        for x, k in zip(nodes, g["node_order"]):
            x._hatchet_nid = k
        graph.node_ordering = True
    if enumerate_:
        graph.enumerate_traverse()
    return graph, nodes


def row_name(frame):
    return frame.get("name") or "%s:%s:%s" % (
        frame.get("type"),
        frame.get("file"),
        frame.get("line"),
    )


def build_gf(spec, sort=True, default_metric=None):
    """(GraphFrame, [Node]) from a gframes() spec."""
    with sut("building the input GraphFrame"):
        graph, nodes = build_graph(spec["graph"])
        data = []
        for i, idx, vals in spec["rows"]:
            d = {"node": nodes[i]}
            for lv, v in zip(spec["levels"], idx):
                d[lv] = v
            d["name"] = row_name(spec["graph"]["frames"][i])
            d.update(vals)
            data.append(d)
        df = pd.DataFrame(data)
        for c in spec["exc"] + spec["inc"]:
            if df[c].dtype == np.int64 and spec.get("int", "int64") != "int64" and df[c].between(0, 120).all():
                df[c] = df[c].astype(spec["int"])
        df.set_index(["node"] + spec["levels"], inplace=True)
        if sort:
            df.sort_index(inplace=True)
        if spec.get("scatter"):
            order = list(range(len(df)))
            random.Random(spec["scatter"]).shuffle(order)
            df = df.iloc[order]
        gf = GraphFrame(
            graph,
            df,
            list(spec["exc"]),
            list(spec["inc"]),
            default_metric or (spec["exc"] + spec["inc"] + ["time"])[0],
            {"run": 1, "nested": {"k": [1, 2]}},
        )
    return gf, nodes


def cell(v):
    """A plain, comparable form of a dataframe cell."""
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, (np.floating,)):
        return float(v)
    if isinstance(v, (np.bool_,)):
        return bool(v)
    return v


def snap(gf):
    """Everything observable of a GraphFrame, for unchanged-ness checks."""
    nodes = graph_nodes(gf.graph)
    df = gf.dataframe
    return {
        "graph_obj": gf.graph,
        "df_obj": df,
        "roots": [id(r) for r in gf.graph.roots],
        "nodes": {
            id(n): (
                n._hatchet_nid,
                n._depth,
                node_fkey(n),
                [id(c) for c in n.children],
                [id(p) for p in n.parents],
            )
            for n in nodes
        },
        "ordering": gf.graph.node_ordering,
        "index_names": list(df.index.names),
        "index": [
            tuple(id(x) if isinstance(x, Node) else x for x in (t if isinstance(t, tuple) else (t,)))
            for t in df.index
        ],
        "columns": list(df.columns),
        "data": {c: [cell(v) for v in df[c]] for c in df.columns},
        "dtypes": {c: str(df[c].dtype) for c in df.columns},
        "exc": list(gf.exc_metrics),
        "inc": list(gf.inc_metrics),
        "default": gf.default_metric,
        "metadata": copy.deepcopy(gf.metadata),
        "keep": nodes,
    }


def assert_unchanged(before, gf, what, dtypes=True):
    """gf still looks like the snapshot ``before``."""
    with sut("inspecting the operand after %s" % what):
        after = snap(gf)
    ensure(before["graph_obj"] is after["graph_obj"], "%s: replaced the operand's graph", what)
    for k in (
        "roots",
        "nodes",
        "ordering",
        "index_names",
        "index",
        "columns",
        "exc",
        "inc",
        "default",
        "metadata",
    ):
        if before[k] != after[k]:
            if k == "nodes":
                desc = "node ids/links/frames"
            else:
                desc = "%s: %.300r -> %.300r" % (k, before[k], after[k])
            raise Violation("%s: changed the operand's %s" % (what, desc))
    if dtypes:
        ensure(
            before["dtypes"] == after["dtypes"],
            "%s: changed the operand's column types %r -> %r",
            what,
            before["dtypes"],
            after["dtypes"],
        )
    for c, vals in before["data"].items():
        for k, (a, b) in enumerate(zip(vals, after["data"][c])):
            if not (same(a, b) and is_missing(a) == is_missing(b)):
                raise Violation(
                    "%s: changed the operand's column %r at row %d: %r -> %r"
                    % (what, c, k, a, b)
                )


def well_formed(gf, what):
    """Graph nodes == dataframe nodes, links mirror, metrics are columns."""
    nodes = check_links(gf.graph, what)
    df = gf.dataframe
    ensure("node" in df.index.names, "%s: dataframe has no node index", what)
    labels = df.index.get_level_values("node")
    bynid = {n._hatchet_nid: n for n in nodes}
    seen = set()
    for x in labels:
        nid = getattr(x, "_hatchet_nid", None)
        ensure(nid in bynid, "%s: row for %r which is not a node of the graph", what, x)
        ensure(
            node_fkey(x) == node_fkey(bynid[nid]),
            "%s: row node %s != graph node %s",
            what,
            x.frame,
            bynid[nid].frame,
        )
        seen.add(nid)
    missing = [str(n.frame) for k, n in bynid.items() if k not in seen]
    ensure(not missing, "%s: graph nodes without rows: %r", what, missing[:4])
    idx = list(df.index)
    ensure(len({(t if isinstance(t, tuple) else (t,)) for t in idx}) == len(idx), "%s: duplicate rows", what)
    for m in list(gf.exc_metrics) + list(gf.inc_metrics):
        ensure(m in df.columns, "%s: metric %r is not a column of %r", what, m, list(df.columns))
    return nodes
