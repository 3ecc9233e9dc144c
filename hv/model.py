"""Reference model of graphs, independent of hatchet's code.

A graph spec is {"frames": [attrs...], "parents": [[int...]...]} with every
parent index smaller than the child's index.
"""

from .core import Violation, ensure


def fkey(attrs):
    d = dict(attrs)
    d.setdefault("type", "None")
    return tuple(sorted(d.items()))


class M:
    def __init__(self, frames, parents):
        self.frames = [fkey(f) for f in frames]
        self.parents = [list(p) for p in parents]
        self.n = len(frames)
        self.children = [[] for _ in range(self.n)]
        for i, ps in enumerate(self.parents):
            for p in ps:
                self.children[p].append(i)
        self.roots = [i for i in range(self.n) if not self.parents[i]]
        self._desc = {}
        self._paths = {}

    @classmethod
    def of(cls, gspec):
        return cls(gspec["frames"], gspec["parents"])

    def desc(self, i):
        """i and all nodes reachable from it."""
        if i not in self._desc:
            seen, todo = set(), [i]
            while todo:
                k = todo.pop()
                if k not in seen:
                    seen.add(k)
                    todo.extend(self.children[k])
            self._desc[i] = seen
        return self._desc[i]

    def paths(self, i):
        """Frozen set of the node's call paths (tuples of frame keys)."""
        if i not in self._paths:
            f = (self.frames[i],)
            if not self.parents[i]:
                r = {f}
            else:
                r = set()
            for p in self.parents[i]:
                for q in self.paths(p):
                    r.add(q + f)
            self._paths[i] = frozenset(r)
        return self._paths[i]

    def is_tree(self):
        return len(self.roots) == 1 and all(len(p) <= 1 for p in self.parents)

    def is_forest(self):
        return all(len(p) <= 1 for p in self.parents)

    def depth(self, i):
        """Depth in a forest."""
        d = 0
        while self.parents[i]:
            i = self.parents[i][0]
            d += 1
        return d

    def all_paths(self):
        r = set()
        for i in range(self.n):
            r |= self.paths(i)
        return r


class Gr:
    """Abstract graph over arbitrary hashable node keys: frames, edges, roots."""

    def __init__(self, frame, edges, roots):
        self.frame = dict(frame)
        self.edges = set(edges)
        self.roots = set(roots)

    def merged(self):
        """Quotient by the least equivalence that merges same-frame roots and
        same-frame children of equivalent nodes. Returns (Gr over representatives, rep)."""
        parent = {k: k for k in self.frame}

        def find(x):
            while parent[x] != x:
                parent[x] = parent[parent[x]]
                x = parent[x]
            return x

        changed = True
        while changed:
            changed = False
            groups = {}
            for r in self.roots:
                groups.setdefault(("root", self.frame[r]), set()).add(find(r))
            for u, v in self.edges:
                groups.setdefault((find(u), self.frame[v]), set()).add(find(v))
            for g in groups.values():
                g = {find(x) for x in g}
                if len(g) > 1:
                    g = sorted(g, key=repr)
                    for x in g[1:]:
                        parent[find(x)] = find(g[0])
                    changed = True
        rep = {k: find(k) for k in self.frame}
        return (
            Gr(
                {k: f for k, f in self.frame.items() if rep[k] == k},
                {(rep[u], rep[v]) for u, v in self.edges},
                {rep[r] for r in self.roots},
            ),
            rep,
        )

    def acyclic(self):
        kids = {}
        for u, v in self.edges:
            kids.setdefault(u, []).append(v)
        state = {}

        def go(u):
            state[u] = 1
            for v in kids.get(u, ()):
                s = state.get(v)
                if s == 1 or (s is None and not go(v)):
                    return False
            state[u] = 2
            return True

        return all(state.get(u) == 2 or go(u) for u in self.frame)

    def reachable(self):
        kids = {}
        for u, v in self.edges:
            kids.setdefault(u, []).append(v)
        seen, todo = set(), list(self.roots)
        while todo:
            u = todo.pop()
            if u not in seen:
                seen.add(u)
                todo.extend(kids.get(u, ()))
        return seen

    def paths(self):
        """node -> frozenset of call paths from the roots (graph must be acyclic)."""
        kids = {}
        for u, v in self.edges:
            kids.setdefault(u, []).append(v)
        acc = {}

        def go(u, path):
            path = path + (self.frame[u],)
            acc.setdefault(u, set()).add(path)
            for v in kids.get(u, ()):
                go(v, path)

        for r in self.roots:
            go(r, ())
        return {u: frozenset(p) for u, p in acc.items()}


def graph_nodes(graph, limit=5000):
    """All node objects reachable from the roots, found by our own walk."""
    seen, order, todo = {}, [], list(graph.roots)
    while todo:
        n = todo.pop()
        if id(n) in seen:
            continue
        seen[id(n)] = n
        order.append(n)
        ensure(len(order) <= limit, "graph has more than %d nodes", limit)
        todo.extend(n.children)
    return order


def node_fkey(n):
    return fkey(n.frame.attrs)


def canon_graph(graph, maxdepth=400, maxpaths=20000):
    """id(node) -> frozenset of its call paths, by our own walk from the roots."""
    acc = {}
    count = [0]

    def go(n, path):
        if len(path) > maxdepth:
            raise Violation("graph contains a cycle")
        count[0] += 1
        if count[0] > maxpaths:
            raise Violation("graph has too many paths (cycle?)")
        path = path + (node_fkey(n),)
        acc.setdefault(id(n), set()).add(path)
        for c in n.children:
            go(c, path)

    for r in graph.roots:
        go(r, ())
    return {k: frozenset(v) for k, v in acc.items()}


def check_links(graph, what="graph"):
    """Parent/child links mirror each other, once each; roots/nids are unique."""
    nodes = graph_nodes(graph)
    ids = {id(n) for n in nodes}
    ensure(
        len({id(r) for r in graph.roots}) == len(graph.roots),
        "%s: a root is listed twice",
        what,
    )
    for n in nodes:
        kids = [id(c) for c in n.children]
        ensure(len(set(kids)) == len(kids), "%s: duplicate child of %s", what, n.frame)
        ps = [id(p) for p in n.parents]
        ensure(len(set(ps)) == len(ps), "%s: duplicate parent of %s", what, n.frame)
        for c in n.children:
            ensure(
                any(p is n for p in c.parents),
                "%s: child %s of %s does not list it as parent",
                what,
                c.frame,
                n.frame,
            )
        for p in n.parents:
            ensure(
                id(p) in ids, "%s: parent of %s is not in the graph", what, n.frame
            )
            ensure(
                any(c is n for c in p.children),
                "%s: parent %s of %s does not list it as child",
                what,
                p.frame,
                n.frame,
            )
    nids = [n._hatchet_nid for n in nodes]
    ensure(len(set(nids)) == len(nids), "%s: node ids are not unique: %r", what, sorted(nids))
    rootids = {id(r) for r in graph.roots}
    for n in nodes:
        if not n.parents:
            ensure(id(n) in rootids, "%s: parentless node %s is no root", what, n.frame)
    return nodes


def check_distinct_siblings(graph, what="graph"):
    for lst, who in [(graph.roots, "roots")] + [
        (n.children, "children of %s" % n.frame) for n in graph_nodes(graph)
    ]:
        ks = [node_fkey(c) for c in lst]
        ensure(len(set(ks)) == len(ks), "%s: same-frame %s: %r", what, who, ks)


def paths_to_rows(gf, what="result"):
    """{(paths of node, extra index tuple): {column: value}}, rejecting duplicates,
    foreign nodes and frame mismatches."""
    canon = canon_graph(gf.graph)
    bynid = {}
    for n in graph_nodes(gf.graph):
        ensure(
            n._hatchet_nid not in bynid,
            "%s: node id %r used twice in the graph",
            what,
            n._hatchet_nid,
        )
        bynid[n._hatchet_nid] = n
    df = gf.dataframe
    names = list(df.index.names)
    ensure("node" in names, "%s: no node level in index %r", what, names)
    pos = names.index("node")
    cols = list(df.columns)
    ensure(len(set(cols)) == len(cols), "%s: duplicate columns %r", what, cols)
    out = {}
    data = {c: list(df[c]) for c in cols}
    for k, label in enumerate(df.index):
        tup = label if isinstance(label, tuple) else (label,)
        node = tup[pos]
        extra = tuple(x for j, x in enumerate(tup) if j != pos)
        nid = getattr(node, "_hatchet_nid", None)
        ensure(nid in bynid, "%s: row for node %r that is not in the graph", what, node)
        ensure(
            node_fkey(bynid[nid]) == node_fkey(node),
            "%s: row's node %s differs from the graph's node %s",
            what,
            node.frame,
            bynid[nid].frame,
        )
        key = (canon[id(bynid[nid])], extra)
        ensure(key not in out, "%s: two rows for %r", what, key)
        out[key] = {c: data[c][k] for c in cols}
    return out


def short_paths(ps):
    """Readable form of a set of call paths for messages."""

    def f(fk):
        d = dict(fk)
        return str(d.get("name", fk))

    return sorted("/".join(f(x) for x in p) for p in ps)


def compare_graph(graph, expected, what):
    """graph (SUT) must have exactly the nodes in ``expected``: a collection of
    frozensets of call paths."""
    got = list(canon_graph(graph).values())
    gs, es = set(got), set(expected)
    ensure(len(gs) == len(got), "%s: two nodes share the same call paths", what)
    if gs != es:
        raise Violation(
            "%s: wrong nodes/connectivity; unexpected %r, missing %r"
            % (
                what,
                [short_paths(x) for x in gs - es][:4],
                [short_paths(x) for x in es - gs][:4],
            )
        )
