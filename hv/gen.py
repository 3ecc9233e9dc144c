"""Hypothesis strategies producing plain JSON-able case specs."""

from hv import strat as st

NAMES = ["main", "foo", "bar", "baz", "grault", "waldo", "MPI_Send", "x", "solve<int>", "a b"]
EXTRA_NAMES = ["é", "std::v<a, b>::f()", "Foo", "foo2", "0", "_", "qux.c:12", "grault_x"]
ATOMS = [0.0, 1.0, 0.5, 2.0, 3.0, 0.25, 10.0, 5.0, 7.5, -1.0, -2.5, 100.0, 1e6]


def pick(draw, seq):
    return seq[draw(st.integers(0, len(seq) - 1))]


def weighted(*pairs):
    """strategy choosing values with integer weights."""
    pool = []
    for v, w in pairs:
        pool.extend([v] * w)
    return st.sampled_from(pool)


def draw_frame(draw, style, names):
    name = pick(draw, names)
    if style == "plain":
        return {"name": name, "type": "function"}
    if style == "notype":
        return {"name": name}
    if style == "file":
        return {
            "name": name,
            "type": "function",
            "file": pick(draw, ["a.c", "b.c"]),
            "line": draw(st.integers(1, 3)),
        }
    # mixed, as HPCToolkit
    k = draw(st.integers(0, 2))
    if k == 0:
        return {"name": name, "type": "function"}
    if k == 1:
        return {"type": "loop", "file": pick(draw, ["a.c", "b.c"]), "line": draw(st.integers(1, 9))}
    return {"type": "statement", "file": pick(draw, ["a.c", "b.c"]), "line": draw(st.integers(1, 9))}


def fk(f):
    d = dict(f)
    d.setdefault("type", "None")
    return tuple(sorted(d.items()))


def bump(frame, k):
    f = dict(frame)
    if "name" in f:
        f["name"] = "%s~%d" % (f["name"].split("~")[0], k)
    else:
        f["line"] = f["line"] + 10 * k
    return f


GROWN = 12  # a graph is grown from at most that many drawn nodes


def grow(spec, n, how, first=0, alloc=0):
    """Extend a graph spec to n nodes (in place) by a star, binary tree or chains below node 0 whose frames differ from
    those there; ``first`` is the number the names of the new nodes start with."""
    frames, parents = spec["frames"], spec["parents"]
    base = len(frames)
    for i in range(base, n):
        k = i - base
        if how == "binary":
            p, name = base + (k - 1) // 2 if k else 0, "g%d" % (first + k % 2 if k else first)
        elif how == "chains":
            p, name = (i - 1, "g%d" % (k % 5)) if k % 40 else (0, "g%d" % (first + k))
        else:
            p, name = 0, "g%d" % (first + k)
        frames.append({"name": name, "type": "function"})
        parents.append([p])
    if "alloc" in spec and n > base:
        # an order of all nodes, by a permutation that depends on ``alloc``
        for what in ("alloc", "order"):
            spec[what] = sorted(range(n), key=lambda i: ((i + alloc) * 7919 % 1009 if alloc else i, i))
    return spec


def growth(max_nodes):
    """[number of nodes, shape, allocation], or None mostly."""
    if max_nodes < 6:
        return st.just(None)

    @st.composite
    def go(draw):
        if not draw(weighted((False, 99), (True, 1))):
            return None
        return [draw(st.integers(200, 330)), draw(st.sampled_from(["star", "binary", "chains"])), draw(st.integers(0, 3))]

    return go()


@st.composite
def graphs(
    draw,
    min_nodes=1,
    max_nodes=9,
    shapes=("tree", "forest", "dag", "dag"),
    unique=True,
    names=None,
    styles=("plain", "plain", "plain", "file", "mixed", "notype"),
    shuffle=True,
    huge=True,
):
    """{"frames", "parents", "alloc"}; siblings have distinct frames if ``unique``."""
    shape = pick(draw, list(shapes))
    # now and then a large one, deep or broad
    big = None
    if max_nodes >= 6 and set(shapes) & {"tree", "forest"} and draw(weighted((False, 60), (True, 1))):
        shape = pick(draw, sorted(set(shapes) & {"tree", "forest"}))
        big = draw(st.sampled_from(["deep", "broad", "any"]))
    n = draw(st.integers(12, 28) if big else st.integers(min_nodes, max_nodes))
    style = pick(draw, list(styles))
    if names is None:
        names = NAMES[: draw(st.integers(2, len(NAMES)))]
    frames, parents, kids, roots = [], [], [], []
    for i in range(n):
        if i == 0:
            ps = []
        elif big in ("deep", "broad") and draw(weighted((True, 9), (False, 1))):
            ps = [i - 1 if big == "deep" else 0]
        elif shape == "tree":
            ps = [draw(st.integers(0, i - 1))]
        elif shape == "forest":
            k = draw(st.integers(-1, i - 1))
            ps = [] if k < 0 else [k]
        else:
            k = draw(weighted((0, 1), (1, 4), (2, 3), (3, 1)))
            k = min(k, i)
            ps = sorted(
                draw(st.lists(st.integers(0, i - 1), min_size=k, max_size=k, unique=True))
            )
        f = draw_frame(draw, style, names)
        if unique:
            taken = set()
            for p in ps:
                taken |= {fk(frames[c]) for c in kids[p]}
            if not ps:
                taken |= {fk(frames[r]) for r in roots}
            k, g = 0, f
            while fk(g) in taken:
                k += 1
                g = bump(f, k)
            f = g
        frames.append(f)
        parents.append(ps)
        kids.append([])
        for p in ps:
            kids[p].append(i)
        if not ps:
            roots.append(i)
    spec = {"frames": frames, "parents": parents}
    if shuffle:
        spec["alloc"] = draw(st.permutations(range(n)))
        # order in which edges/roots are attached
        spec["order"] = draw(st.permutations(range(n)))
    g = draw(growth(max_nodes)) if huge and n <= GROWN else None
    if g:
        grow(spec, g[0], g[1], alloc=g[2])
    return spec


INDEX_KINDS = [[], [], ["rank"], ["thread"], ["rank", "thread"]]
# for operations to which the levels' names mean nothing
ANY_INDEX = 3 * INDEX_KINDS + [["epoch"], ["epoch", "rank"], ["thread", "rank"]]


@st.composite
def index_levels(draw, kinds=None):
    """list of [level name, [values]]"""
    kind = pick(draw, kinds if kinds is not None else INDEX_KINDS)
    out = []
    for lv in kind:
        k = draw(st.integers(1, 3))
        if len(kind) == 1 and draw(weighted((False, 80), (True, 1))):
            k = 12
        start = draw(weighted((0, 5), (2, 1)))
        out.append([lv, list(range(start, start + k))])
    return out


def combos(levels):
    out = [()]
    for _, vals in levels:
        out = [t + (v,) for t in out for v in vals]
    return out


def real(k, d=8):
    """k/d, now and then with a small fraction that takes more than single precision"""
    return k / d + (2.0**-30 if k % 5 == 3 else 0)


def value(nan=True, neg=True, inf=False):
    atoms = [a for a in ATOMS if neg or a >= 0]
    s = st.sampled_from(atoms)
    dy = st.integers(-64 if neg else 0, 256).map(real)
    opts = [s, s, dy]
    if nan:
        opts.append(st.just(float("nan")))
    if inf:
        opts.append(st.sampled_from([float("inf"), float("-inf")]))
    return st.one_of(*opts)


# columns that are no metrics
OTHER = {"line": st.integers(1, 50), "nid": st.integers(0, 9), "flag": st.booleans(), "module": st.sampled_from(["libA", "libB", "main.x"])}


@st.composite
def gframes(
    draw,
    min_nodes=1,
    max_nodes=8,
    shapes=("tree", "forest", "dag", "dag"),
    unique=True,
    kinds=None,
    sparse=False,
    nan=True,
    inf=False,
    neg=True,
    exc=None,
    inc=None,
    text=None,
    names=None,
    styles=("plain", "plain", "plain", "file", "mixed", "notype"),
    int_metrics=True,
    graph=None,
    huge=True,
):
    """A GraphFrame spec: graph + index levels + rows.

    rows: list of [node index, [index values], {column: value}].
    """
    if graph is None:
        graph = draw(
            graphs(min_nodes, max_nodes, shapes, unique, names=names, styles=styles, huge=huge)
        )
    total = len(graph["frames"])
    # the rows of a grown graph repeat those of its first nodes
    n = total if total < 200 else GROWN
    levels = draw(index_levels(kinds))
    if total > n:
        levels = [[lv, vals[: 2 if k == 0 else 1]] for k, (lv, vals) in enumerate(levels)]
    if exc is None:
        exc = draw(
            st.sampled_from([["time"], ["time"], ["time", "cycles"], ["flops (exc)", "time"],
                             ["io (exc) max (exc)", "(inc) rate"]])
        )
    if inc is None:
        inc = draw(st.sampled_from([["time (inc)"], ["time (inc)"], [], ["time (inc)", "peak"], ["rate (inc) min (inc)"]]))
    if text is None:
        text = draw(st.sampled_from([[], ["module"], ["module", "line"], ["nid", "module"], ["flag"]]))
    intcols = [c for c in exc + inc if int_metrics and draw(weighted((False, 3), (True, 1)))]
    rows = []
    allc = combos(levels)
    for i in range(n):
        for t in allc:
            if sparse and len(allc) > 1 and draw(weighted((True, 1), (False, 4))):
                continue
            vals = {}
            for c in exc + inc:
                if c in intcols:
                    vals[c] = draw(st.integers(0, 20))
                else:
                    vals[c] = draw(value(nan, neg, inf))
            for c in text:
                vals[c] = draw(OTHER.get(c, OTHER["module"]))
            rows.append([i, list(t), vals])
        if sparse and not any(r[0] == i for r in rows):
            t = allc[draw(st.integers(0, len(allc) - 1))]
            vals = {c: (1 if c in intcols else 1.0) for c in exc + inc}
            for c in text:
                vals[c] = {"line": 1, "nid": 1, "flag": True}.get(c, "libA")
            rows.append([i, list(t), vals])
    drawn = {}
    for r in rows:
        drawn.setdefault(r[0], []).append(r)
    for i in range(n, total):
        for r in drawn[i % n]:
            rows.append([i, list(r[1]), {c: v + i % 3 if c in exc + inc else v for c, v in r[2].items()}])
    return {
        "graph": graph,
        "levels": [lv for lv, _ in levels],
        "rows": rows,
        "exc": exc,
        "inc": inc,
        "text": text,
        # the order of the dataframe's rows: sorted, or one of several others
        "scatter": draw(weighted((0, 6), (1, 1), (2, 1), (3, 1))),
        # the type of the integer columns
        "int": draw(weighted(("int64", 6), ("int32", 1), ("int8", 1), ("uint8", 1))),
    }


def induced(g, keep):
    """Sub-spec of the nodes in ``keep`` that stay reachable from a kept root."""
    n = len(g["frames"])
    live, num = [], {}
    for i in range(n):
        ps = g["parents"][i]
        if i in keep and (not ps or any(p in num for p in ps)):
            num[i] = len(live)
            live.append(i)
    return {
        "frames": [dict(g["frames"][i]) for i in live],
        "parents": [[num[p] for p in g["parents"][i] if p in num] for i in live],
    }


def distinct_siblings(g):
    """Rename nodes so that no two siblings (or roots) have the same frame."""
    n = len(g["frames"])
    kids = [[] for _ in range(n)]
    roots = []
    for i in range(n):
        ps = g["parents"][i]
        taken = set()
        for p in ps:
            taken |= {fk(g["frames"][c]) for c in kids[p]}
            kids[p].append(i)
        if not ps:
            taken |= {fk(g["frames"][r]) for r in roots}
            roots.append(i)
        k, f = 0, g["frames"][i]
        while fk(f) in taken:
            k += 1
            f = bump(g["frames"][i], k)
        g["frames"][i] = f
    return g


def split(g, i, parents):
    """Give each of the listed parents of node i a copy of what is at and below i."""
    for p in parents:
        if p not in g["parents"][i] or len(g["parents"][i]) < 2:
            continue
        g["parents"][i] = [q for q in g["parents"][i] if q != p]
        new = {}
        for j in range(i, len(g["frames"])):
            above = [new[q] for q in g["parents"][j] if q in new]
            if j == i or above:
                new[j] = len(g["frames"])
                g["frames"].append(dict(g["frames"][j]))
                g["parents"].append([p] if j == i else above)


@st.composite
def graph_pairs(draw, max_nodes=8, unique=True, names=None, shapes=("tree", "forest", "dag", "dag"),
                styles=("plain", "plain", "plain", "file", "mixed", "notype"), huge=True):
    """Two related graph specs (edits of a common one), or unrelated ones."""
    if names is None:
        names = NAMES[: draw(weighted((2, 2), (4, 3), (10, 2)))]
    base = draw(graphs(1, max_nodes, shapes, unique, names=names, styles=styles, shuffle=False, huge=False))
    out = []
    if draw(weighted((True, 1), (False, 6))):
        other = draw(graphs(1, max_nodes, shapes, unique, names=names, styles=styles, shuffle=False, huge=False))
        out = [base, other]
    else:
        for side in range(2):
            n = len(base["frames"])
            dens = draw(weighted((1, 2), (0, 3)))
            keep = {i for i in range(n) if not dens or draw(weighted((True, 4), (False, 1)))}
            if not any(not base["parents"][i] for i in keep):
                keep.add(0)
            g = induced(base, keep)
            for _ in range(draw(weighted((0, 2), (1, 2), (2, 2), (3, 1)))):
                n = len(g["frames"])
                kind = draw(weighted(("leaf", 3), ("root", 1), ("frame", 2), ("edge", 4), ("unedge", 1), ("split", 4)))
                i = draw(st.integers(0, n - 1))
                if kind == "leaf":
                    g["frames"].append(draw_frame(draw, "plain", names))
                    g["parents"].append([i])
                elif kind == "root" and "tree" != shapes[0]:
                    g["frames"].append(draw_frame(draw, "plain", names))
                    g["parents"].append([])
                elif kind == "frame":
                    g["frames"][i] = draw_frame(draw, "plain", names)
                elif kind == "edge" and any("dag" == s for s in shapes) and i and g["parents"][i]:
                    p = draw(st.integers(0, i - 1))
                    if p not in g["parents"][i]:
                        g["parents"][i] = sorted(g["parents"][i] + [p])
                elif kind == "split":
                    # as if a shared node were recorded once per parent
                    shared = [j for j in range(n) if len(g["parents"][j]) > 1]
                    if shared and n < 2 * max_nodes:
                        j = pick(draw, shared)
                        few = draw(weighted((0, 1), (1, 1)))
                        split(g, j, g["parents"][j][1 : 2 if few else None])
                elif kind == "unedge" and len(g["parents"][i]) > 1:
                    g["parents"][i] = g["parents"][i][1:]
            out.append(distinct_siblings(g) if unique else g)
    for g in out:
        n = len(g["frames"])
        g["alloc"] = draw(st.permutations(range(n)))
        g["order"] = draw(st.permutations(range(n)))
    big = draw(growth(max_nodes)) if huge and max(len(g["frames"]) for g in out) <= GROWN else None
    if big:
        first = draw(st.sampled_from([0, 0, 1, 3, 20]))
        for side, g in enumerate(out):
            grow(g, big[0] - 3 * side, big[1], first * side, big[2])
    return out


@st.composite
def gframe_pairs(draw, max_nodes=8, same_index=True, shapes=("tree", "forest", "dag", "dag"), names=None, **kw):
    """Two GraphFrame specs over graph_pairs with the same columns."""
    ga, gb = draw(graph_pairs(max_nodes, shapes=shapes, names=names))
    a = draw(gframes(graph=ga, **kw))
    # arithmetic on small integers overflows, as it does in pandas
    a["int"] = "int64"
    kw = dict(kw, exc=a["exc"], inc=a["inc"], text=a["text"])
    kw["kinds"] = [a["levels"]]
    b = draw(gframes(graph=gb, **kw))
    b["int"] = "int64"
    if same_index and a["levels"]:
        # same index values on both sides: redraw b's rows on a's combinations
        idx = sorted({tuple(r[1]) for r in a["rows"]})
        rows = []
        for i in range(len(gb["frames"])):
            own = [r for r in b["rows"] if r[0] == i]
            for k, t in enumerate(idx):
                rows.append([i, list(t), dict(own[k % len(own)][2])])
        b["rows"] = rows
        # a may be sparse; make it dense as well
        have = {(r[0], tuple(r[1])) for r in a["rows"]}
        for i in range(len(ga["frames"])):
            own = [r for r in a["rows"] if r[0] == i]
            for t in idx:
                if (i, t) not in have:
                    a["rows"].append([i, list(t), dict(own[0][2])])
    return [a, b]
