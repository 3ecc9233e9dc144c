from hv import strat as st

from .. import gen
from ..build import build_graph
from ..core import Discard, ensure, sut
from ..model import M
from ..util import graph_labels

EXAMPLES = {"quick": 19200, "thorough": 90000}
RULE = (
    "pairs of random graphs: the same structure created in another order, or one edit away (frame changed, "
    "edge added/removed/moved, shared node split, equal subtrees joined, roots added), also unrelated ones; "
    "with and without same-frame siblings and enumerated or not; oracle: search for a frame, root and edge "
    "preserving bijection; non-trivial: same size and same multiset of frames, at least 3 nodes"
)
ASSUMPTIONS = [
    "two same-frame siblings whose subtrees look the same but are shared differently are excluded "
    "(counted; telling them apart is graph isomorphism)",
]


@st.composite
def strategy(draw, tier):
    unique = draw(gen.weighted((True, 2), (False, 1)))
    names = gen.NAMES[: draw(st.integers(1, 6))]
    big = tier == "thorough"
    kw = dict(max_nodes=10 if big else 8, unique=unique, names=names, styles=("plain", "plain", "mixed", "notype"))
    g = draw(gen.graphs(**kw))
    n = len(g["frames"])
    frames = [dict(f) for f in g["frames"]]
    parents = [list(p) for p in g["parents"]]
    kind = draw(gen.weighted(("same", 4), ("frame", 1), ("edge+", 2), ("edge-", 2), ("move", 3), ("split", 3),
                             ("join", 3), ("swap", 2), ("root", 1), ("leaf", 1), ("other", 1)))
    i = draw(st.integers(0, n - 1))
    j = draw(st.integers(0, n - 1))
    if kind == "frame":
        frames[i] = gen.draw_frame(draw, "plain", names)
    elif kind == "swap":
        frames[i], frames[j] = frames[j], frames[i]
    elif kind == "edge+" and i < j and i not in parents[j]:
        parents[j] = parents[j] + [i]
    elif kind == "edge-" and parents[i]:
        parents[i] = parents[i][:-1]
    elif kind == "move" and parents[i] and j < i:
        parents[i] = sorted(set(parents[i][1:] + [j]))
    elif kind == "split":
        shared = [k for k in range(n) if len(parents[k]) > 1]
        if shared:
            k = gen.pick(draw, shared)
            p = parents[k].pop(draw(st.integers(0, len(parents[k]) - 1)))
            frames.append(dict(frames[k]))
            parents.append([p])
            # the new node keeps or repeats the children
            if draw(st.booleans()):
                for c in range(n):
                    if k in parents[c] and n > c:
                        frames.append(dict(frames[c]))
                        parents.append([n])
    elif kind == "join":
        pairs = [(a, b) for b in range(n) for a in range(b)
                 if frames[a] == frames[b] and parents[a] != parents[b]
                 and not any(b in parents[c] for c in range(n)) and parents[b]]
        if pairs:
            a, b = gen.pick(draw, pairs)
            if all(p < a for p in parents[b]):
                parents[a] = sorted(set(parents[a] + parents[b]))
                frames.pop(b)
                parents = [[p - (p > b) for p in ps] for k, ps in enumerate(parents) if k != b]
    elif kind == "root":
        frames.append(dict(frames[i]))
        parents.append([])
    elif kind == "leaf":
        frames.append(dict(frames[i]))
        parents.append([j])
    elif kind == "other":
        h = draw(gen.graphs(**kw))
        frames, parents = h["frames"], h["parents"]
    k = len(frames)
    h = {"frames": frames, "parents": parents, "alloc": draw(st.permutations(range(k))),
         "order": draw(st.permutations(range(k)))}
    return {"a": g, "b": h, "kind": kind, "enum": draw(gen.weighted((True, 3), (False, 1))),
            "start": [i, draw(st.integers(0, k - 1))]}


def isomorphic(a, b, ra=None, rb=None):
    """Is there a frame, root, edge preserving bijection between models a and b
    (or between what is reachable from the nodes ra and rb)?"""
    A = sorted(a.desc(ra) if ra is not None else range(a.n))
    B = sorted(b.desc(rb) if rb is not None else range(b.n))
    if len(A) != len(B):
        return False
    roota = set(a.roots) if ra is None else {ra}
    rootb = set(b.roots) if rb is None else {rb}
    sa, sb = set(A), set(B)

    # nodes that correspond have the same colour, however often it is refined by those of the neighbours
    def refine():
        ca = {i: (a.frames[i], i in roota) for i in A}
        cb = {j: (b.frames[j], j in rootb) for j in B}
        for _ in range(len(A)):
            num = {}

            def colour(m, c, i, inside):
                k = (c[i], tuple(sorted(c[x] for x in m.children[i])), tuple(sorted(c[x] for x in m.parents[i] if x in inside)))
                return num.setdefault(k, len(num))

            before = len(set(ca.values()) | set(cb.values()))
            ca, cb = {i: colour(a, ca, i, sa) for i in A}, {j: colour(b, cb, j, sb) for j in B}
            if len(num) == before:
                break
        return ca, cb

    ca, cb = refine()
    if sorted(ca.values()) != sorted(cb.values()):
        return False
    cand = {i: [j for j in B if cb[j] == ca[i]] for i in A}
    order = sorted(A, key=lambda i: (len(cand[i]), i))
    f, used = {}, set()

    def go(k):
        if k == len(order):
            return True
        i = order[k]
        for j in cand[i]:
            if j in used:
                continue
            ok = all(
                ((i in a.children[x]) == (j in b.children[y])) and ((x in a.children[i]) == (y in b.children[j]))
                for x, y in f.items()
            )
            if ok:
                f[i] = j
                used.add(j)
                if go(k + 1):
                    return True
                del f[i]
                used.discard(j)
        return False

    return go(0)


def hard(m):
    """Same-frame siblings that unfold to the same tree, in a graph with sharing below them."""
    memo = {}

    def shape(i):
        if i not in memo:
            memo[i] = (m.frames[i], tuple(sorted(shape(c) for c in m.children[i])))
        return memo[i]

    def shared(i):
        return any(len(m.parents[k]) > 1 for k in m.desc(i))

    for lst in [m.roots] + m.children:
        for x in lst:
            for y in lst:
                if x < y and shape(x) == shape(y) and (shared(x) or shared(y)):
                    return True
    return False


def check(spec, case):
    a, b = M.of(spec["a"]), M.of(spec["b"])
    graph_labels(a, case)
    if not spec.get("known") and (hard(a) or hard(b)):
        raise Discard("indistinguishable siblings with shared descendants")
    want = isomorphic(a, b)
    case.label("equal" if want else "different", spec["kind"])
    case.nt(a.n == b.n and a.n >= 3 and sorted(a.frames) == sorted(b.frames))
    with sut("building graphs"):
        ga, na = build_graph(spec["a"], spec["enum"])
        gb, nb = build_graph(spec["b"], spec["enum"])
    with sut("comparing graphs"):
        r = {"a==b": ga == gb, "b==a": gb == ga, "a!=b": ga != gb, "b!=a": gb != ga}
    ensure(r == {"a==b": want, "b==a": want, "a!=b": not want, "b!=a": not want},
           "graphs are %s but comparison gives %r", "equal" if want else "different", r)
    ensure(ga == ga and not ga != ga, "a graph differs from itself")
    with sut("dag_equal"):
        i, j = spec["start"]
        ensure(bool(na[i].dag_equal(na[i])), "dag_equal of a node with itself is false")
        w = isomorphic(a, b, i, j)
        if a.frames[i] == b.frames[j]:
            case.label("dag_equal true" if w else "dag_equal false")
            ensure(bool(na[i].dag_equal(nb[j])) is w, "dag_equal of %s and %s is %r", na[i], nb[j], not w)
    if spec["enum"]:
        with sut("copying a graph"):
            ca = ga.copy()
            m = {}
            cb = gb.copy(m)
        ensure(ca == ga and ga == ca and not (ca != ga), "a copy does not equal its source")
        ensure((ca == cb) is want, "copies of %s graphs compare otherwise", "equal" if want else "different")
        ensure(len(m) == b.n, "copy maps %d of %d nodes", len(m), b.n)
        for k in range(b.n):
            x = m[nb[k]]
            ensure(x is not nb[k] and x.frame == nb[k].frame and x.frame is not nb[k].frame, "copy maps %s to %s", nb[k], x)
            ensure(sorted(id(c) for c in x.children) == sorted(id(m[nb[c]]) for c in b.children[k])
                   and sorted(id(c) for c in x.parents) == sorted(id(m[nb[c]]) for c in b.parents[k]),
                   "copy of %s is linked differently", nb[k])
        ensure([id(x) for x in cb.roots] == [id(m[x]) for x in gb.roots], "copied roots differ")
        seq = [x._hatchet_nid for x in cb.traverse()]
        ensure(seq == list(range(b.n)), "copy is not enumerated: %r", seq)
