import copy
import itertools

from hv import strat as st

from .. import gen
from ..build import Frame, Node, build_graph
from ..core import ensure, expect_raises, sut
from ..model import M

EXAMPLES = {"quick": 16000, "thorough": 80000}
RULE = (
    "2-4 attribute dictionaries (name/type/file/line/module, related to each other by edits) built as "
    "dict, keywords, or both with overriding and in different key orders; pairwise and triple laws; plus "
    "nodes of a random graph; non-trivial: some pair of dictionaries is equal and some pair differs"
)
ASSUMPTIONS = ["attribute values under one key are mutually comparable (all text, all numbers without nan, or all None)"]

TEXT = ["main", "foo", "Foo", "", "a.c", "None", "é", "10", "9"]
KEYS = {"name": "t", "type": "t", "file": "t", "line": "n", "module": "t", "address": "n", "attrs": "t", "tag": "z"}


@st.composite
def value(draw, key):
    if KEYS[key] == "t":
        return gen.pick(draw, TEXT)
    if KEYS[key] == "z":
        return None
    return gen.pick(draw, [0, 1, 2, 10, 9, -1, 1.0, 2.5, 0.0, True])


@st.composite
def strategy(draw, tier):
    keys = sorted(KEYS)
    n = draw(st.integers(2, 4))
    dicts = []
    for i in range(n):
        if dicts and draw(gen.weighted((True, 3), (False, 1))):
            d = dict(dicts[draw(st.integers(0, len(dicts) - 1))])
            k = draw(gen.weighted(("same", 2), ("edit", 3), ("del", 1), ("deftype", 1), ("add", 1)))
            ks = sorted(d)
            if k == "edit":
                key = gen.pick(draw, ks)
                d[key] = draw(value(key))
            elif k == "del" and len(d) > 1:
                del d[gen.pick(draw, ks)]
            elif k == "deftype":
                d["type"] = "None"
            elif k == "add":
                key = gen.pick(draw, keys)
                d[key] = draw(value(key))
        else:
            sub = draw(st.lists(st.sampled_from(keys), min_size=1, max_size=4, unique=True))
            d = {key: draw(value(key)) for key in sub}
        dicts.append(d)
    frames = []
    for d in dicts:
        order = draw(st.permutations(sorted(d)))
        split = draw(st.integers(0, len(order)))
        over = [k for k in order[split:] if draw(st.booleans())]
        frames.append({
            "order": order,
            "vals": d,
            "split": split,  # first part from the dict, rest as keywords
            "over": {k: draw(value(k)) for k in over},  # values in the dict that keywords override
        })
    return {"frames": frames, "graph": draw(gen.graphs(max_nodes=6)), "edit": draw(value("name"))}


def build(f):
    """(frame, the caller's dictionary)"""
    a = {k: f["vals"][k] for k in f["order"][: f["split"]]}
    a.update({k: v for k, v in f["over"].items() if k in f["order"][f["split"]:]})
    kw = {k: f["vals"][k] for k in f["order"][f["split"]:]}
    kw.pop("attrs", None)
    if "attrs" in f["order"][f["split"]:]:  # cannot be given as a keyword
        a["attrs"] = f["vals"]["attrs"]
    if not a and kw:
        return Frame(**kw), None, None
    given = copy.deepcopy(a)
    return Frame(a, **kw), a, given


def check(spec, case):
    want, got, dicts = [], [], []
    for f in spec["frames"]:
        d = dict(f["vals"])
        d.setdefault("type", "None")
        want.append(d)
        with sut("Frame construction from %r" % f):
            fr, a, given = build(f)
        ensure(a is None or a == given, "constructing a frame changed the caller's dictionary %r to %r", given, a)
        got.append(fr)
        dicts.append(a)
    # one dictionary used for several frames
    shared = dict(spec["frames"][0]["vals"])
    s1 = Frame(shared, name="first")
    s2 = Frame(shared, name="second")
    ensure(s1["name"] == "first" and s2["name"] == "second" and s1 != s2,
           "frames built from one dictionary affect each other: %r %r", s1, s2)

    eqs = set()
    for i, f in enumerate(got):
        w = want[i]
        for k in KEYS:
            v = f.get(k)
            ensure(type(v) is type(w.get(k)) and v == w.get(k), "get(%r) of %r is %r", k, w, v)
            ensure(f.get(k, "dflt") == w.get(k, "dflt"), "get(%r, default) of %r", k, w)
            ensure(f.values(k) == w.get(k), "values(%r) of %r is %r", k, w, f.values(k))
            if k in w:
                ensure(f[k] == w[k], "[%r] of %r is %r", k, w, f[k])
            else:
                expect_raises("[%r] of %r" % (k, w), KeyError, lambda: f[k])
        ks = sorted(KEYS)[i % 3:][:3]
        tup = tuple(w.get(k) for k in ks)
        ensure(f.values(ks) == tup and f.values(tuple(ks)) == tup and isinstance(f.values(ks), tuple),
               "values(%r) of %r is %r", ks, w, f.values(ks))
        ensure(f.values([ks[0]]) == (tup[0],), "values of a one-element list")
        ensure(f.attrs == w, "attrs of %r are %r", w, f.attrs)
        str(f), repr(f)

    for i, j in itertools.product(range(len(got)), repeat=2):
        a, b = got[i], got[j]
        eq = want[i] == want[j]
        if i != j:
            eqs.add(eq)
        d = "%r and %r" % (want[i], want[j])
        with sut("comparing " + d):
            r = {"eq": a == b, "ne": a != b, "lt": a < b, "gt": a > b, "le": a <= b, "ge": a >= b}
            rl, rg = b < a, b > a
        ensure(r["eq"] is eq, "== of %s is %r", d, r["eq"])
        ensure(r["ne"] is (not eq), "!= of %s is %r", d, r["ne"])
        ensure(r["lt"] + r["gt"] + r["eq"] == 1, "not exactly one of <, >, == holds for %s: %r", d, r)
        ensure(r["le"] == (r["lt"] or eq) and r["ge"] == (r["gt"] or eq), "<= or >= inconsistent for %s: %r", d, r)
        ensure(r["lt"] == rg and r["gt"] == rl, "< and > are not mirror images for %s", d)
        if eq:
            ensure(hash(a) == hash(b), "equal frames %s hash differently", d)
            ensure(len({a, b}) == 1 and {a: 1}.get(b) == 1, "equal frames %s are distinct set members", d)
        else:
            ensure(len({a, b}) == 2, "different frames %s are one set member", d)
        if set(want[i]) == set(want[j]):
            diff = [k for k in want[i] if want[i][k] != want[j][k]]
            if len(diff) == 1:
                k = diff[0]
                ensure(r["lt"] == (want[i][k] < want[j][k]), "%s differ only in %r but order otherwise", d, k)
    for a, b, c in itertools.product(got, repeat=3):
        ensure(not (a < b and b < c) or a < c, "< is not transitive: %r %r %r", a, b, c)
        ensure(not (a == b and b < c) or a < c, "== and < disagree: %r %r %r", a, b, c)
    case.nt(len(eqs) == 2)
    s = sorted(got)
    ensure(all(not (y < x) for x, y in zip(s, s[1:])), "sorting frames leaves them unsorted")

    # copies
    for i, f in enumerate(got):
        h = hash(f)
        with sut("copying a frame"):
            c = f.copy()
        ensure(c is not f and c == f and hash(c) == h and not c < f and not c > f, "copy of %r is not equal", f)
        ensure(c.attrs is not f.attrs, "copy of %r shares its attributes", f)
        c.attrs["name"] = "changed"
        ensure(f.attrs == want[i] and f.get("name") == want[i].get("name"), "changing a copy changed %r", f)
        d = f.copy()
        d.attrs["line"] = 777
        ensure(d.get("line") == 777 and f.get("line") == want[i].get("line"), "changing a copy is visible in the source")
    for a, f, w in zip(dicts, got, want):
        if a is not None:
            a["name"] = spec["edit"] + "!"
            ensure(f.get("name") == w.get("name") and f == Frame(dict(w)), "frame %r follows later changes of the caller's dictionary", w)
    expect_raises("Frame()", ValueError, lambda: Frame())
    expect_raises("Frame({})", ValueError, lambda: Frame({}))

    # nodes
    m = M.of(spec["graph"])
    with sut("building a graph"):
        g1, n1 = build_graph(spec["graph"])
        g2 = g1.copy()
    for x, y in itertools.product(n1, repeat=2):
        same = x is y
        ensure((x == y) is same and (x != y) is (not same), "== of nodes %s, %s", x, y)
        ensure((x < y) + (x > y) + (x == y) == 1, "not exactly one of <, >, == holds for nodes %s, %s", x, y)
        ensure((x <= y) == (x < y or x == y) and (x >= y) == (x > y or x == y), "<= or >= of nodes")
        ensure((x < y) == (y > x), "< and > of nodes are not mirror images")
        ensure((x < y) == (x._hatchet_nid < y._hatchet_nid), "nodes do not order by id")
    ensure(len(set(n1)) == m.n and len({x: 1 for x in n1}) == m.n, "nodes of a graph collide in sets")
    ensure([x._hatchet_nid for x in sorted(n1)] == list(range(m.n)), "sorted nodes are not in id order")
    twin = {x._hatchet_nid: x for x in g2.traverse()}
    for x in n1:
        y = twin[x._hatchet_nid]
        ensure(x == y and hash(x) == hash(y), "a node and its copy in a graph copy differ")
        for other in (None, 3, "x", object()):
            ensure(not (x == other) and x != other, "node equals %r", other)
        c = x.copy()
        ensure(c.frame == x.frame and c.frame is not x.frame and not c.parents and not c.children, "Node.copy of %s", x)
