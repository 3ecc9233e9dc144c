import marshal
import os

from hv import strat as st

from .. import gen
from ..build import GraphFrame
from ..core import ensure
from ..rd import metrics, put, read, same_vals, scratch, usable

EXAMPLES = {"quick": 5000, "thorough": 50000}
RULE = (
    "profile statistics of 1-9 functions (names, files and lines that partly coincide, built-ins) with any "
    "caller relation (several callers, recursion, mutual recursion, entry through a recursive function), written "
    "as cProfile writes them; non-trivial: a function with several callers or recursion, or two functions that "
    "share name, line and file name in different directories"
)
ASSUMPTIONS = [
    "every recorded caller has an entry of its own, as cProfile guarantees",
    "'numcalls' is the first and 'nativecalls' the second count of the pstats entry, as in the reader's tests",
]

FILES = ["~", "/a/mod.py", "/b/mod.py", "/a/pkg/__init__.py", "/b/pkg/__init__.py", "<string>", "mod.py", "/a/mod.py/x"]
FUNCS = ["<module>", "f", "g", "<built-in method builtins.len>", "__init__", "é"]


@st.composite
def strategy(draw, tier):
    n = draw(st.integers(1, 14 if tier == "thorough" else 9))
    files = FILES[: draw(st.integers(1, len(FILES)))]
    names = FUNCS[: draw(st.integers(1, len(FUNCS)))]
    lines = draw(st.integers(0, 3))
    keys = []
    for _ in range(n):
        k = [gen.pick(draw, files), draw(st.integers(0, lines)), gen.pick(draw, names)]
        if k not in keys:
            keys.append(k)
    n = len(keys)
    style = draw(gen.weighted(("dag", 3), ("any", 3), ("tree", 1)))
    edges = []
    for i in range(n):
        if style == "tree":
            edges.append([draw(st.integers(0, i - 1))] if i else [])
        elif style == "dag":
            edges.append([j for j in range(i) if draw(gen.weighted((True, 1), (False, 1)))])
        else:
            edges.append([j for j in range(n) if draw(gen.weighted((True, 1), (False, 3)))])
    stats = [[draw(st.integers(0, 9)), draw(st.integers(0, 9)), gen.real(draw(st.integers(0, 40))), gen.real(draw(st.integers(0, 40)))]
             for _ in range(n)]
    return {"keys": keys, "callers": edges, "stats": stats, "order": draw(st.permutations(range(n)))}


def check(spec, case):
    keys = [tuple(k) for k in spec["keys"]]
    data = {}
    for i in spec["order"]:
        data[keys[i]] = tuple(spec["stats"][i]) + ({keys[j]: (1, 1, 0.5, 0.5) for j in spec["callers"][i]},)
    case.nt(
        any(len(c) > 1 or i in c for i, c in enumerate(spec["callers"]))
        or len({(os.path.basename(f), ln, nm) for f, ln, nm in keys}) < len(keys)
    )
    case.label("recursion" if any(i in c for i, c in enumerate(spec["callers"])) else "no recursion")
    if all(spec["callers"]):
        case.label("no function without callers")
    with scratch() as tmp:
        path = put(os.path.join(tmp, "x.pstats"), marshal.dumps(data), "wb")
        d = read("from_cprofile", GraphFrame.from_cprofile, path)
    metrics(d, ["time"], ["time (inc)"], "from_cprofile")
    fn = {}
    for (nid,), v in d["rows"].items():
        fn[nid] = (v["file"], v["line"], v["name"])
        ensure(dict(d["nodes"][nid][0]) == {"type": "function", "name": v["name"]}, "frame of %r is %r", fn[nid], d["nodes"][nid][0])
    ensure(len(set(fn.values())) == len(fn), "two nodes for one function: %r", sorted(fn.values()))
    ensure(set(fn.values()) == set(keys), "functions are %r, expected %r", sorted(fn.values()), sorted(keys))
    ensure(set(fn) == set(d["nodes"]), "nodes without rows")
    rows = {fn[nid]: v for (nid,), v in d["rows"].items()}
    for i, k in enumerate(keys):
        cc, nc, tt, ct = spec["stats"][i]
        same_vals(rows[k], {"numcalls": cc, "nativecalls": nc, "time": tt, "time (inc)": ct}, "from_cprofile", k)
    got = {fn[n]: ({fn[p] for p in ps}, {fn[c] for c in cs}) for n, (_, cs, ps) in d["nodes"].items()}
    for i, k in enumerate(keys):
        callers = {keys[j] for j in spec["callers"][i]}
        callees = {keys[j] for j, c in enumerate(spec["callers"]) if i in c}
        ensure(got[k][0] == callers, "callers of %r are %r, expected %r", k, got[k][0], callers)
        ensure(got[k][1] == callees, "callees of %r are %r, expected %r", k, got[k][1], callees)
    roots = {fn[r] for r in d["roots"]}
    first = {k for i, k in enumerate(keys) if not spec["callers"][i]}
    ensure(first <= roots, "functions without callers %r are not all roots (%r)", first, roots)
    # a function with callers is a root only if no function without callers leads to it
    seen = set()
    todo = list(first)
    while todo:
        k = todo.pop()
        if k not in seen:
            seen.add(k)
            todo += [keys[j] for j, c in enumerate(spec["callers"]) if keys.index(k) in c]
    ensure(not (roots - first) & seen, "roots %r can be reached from functions without callers", (roots - first) & seen)
    usable(d["gf"], "the profile read")
