from hv import strat as st

from .. import gen
from ..build import assert_unchanged, build_gf, snap
from ..core import ensure, is_missing, sut
from ..model import M
from ..util import check_rows, graph_labels, rowmap

EXAMPLES = {"quick": 12000, "thorough": 60000}
RULE = (
    "GraphFrames over trees, forests and DAGs with 0-2 extra index levels (dense or sparse rows), 1-4 inclusive metrics "
    "named with and without (inc), some with exclusive counterparts, missing values, a non-numeric 'metric'; generated "
    "for all metrics, for one given by name or for several, once or twice; non-trivial: some generated value subtracts "
    "at least two children's values"
)
ASSUMPTIONS = [
    "no existing column has the name of a column to be generated",
    "metric values are finite or missing",
    "a child without a row at some index contributes nothing there",
]

INC = ["time (inc)", "peak", "mem (inc)", "m", "io(inc)", "e", "peak (inc)  x", "sync(inc)", "(c) i (inc)", "inc (inc)", "(inc) n"]


@st.composite
def strategy(draw, tier):
    n_inc = draw(st.integers(1, 4))
    inc = list(draw(st.permutations(INC)))[:n_inc]
    exc = [e for e in ("time", "cycles") if draw(gen.weighted((True, 1), (False, 3)))]
    whole = draw(gen.weighted((True, 1), (False, 2)))
    spec = draw(gen.gframes(
        max_nodes=12 if tier == "thorough" else 8, kinds=gen.ANY_INDEX, sparse=not whole and draw(st.booleans()), inf=False, nan=not whole,
        inc=inc, exc=exc, shapes=("tree", "forest") if whole else ("tree", "forest", "dag", "dag"),
    ))
    text = draw(gen.weighted((True, 1), (False, 4)))
    if text:
        spec["text"] = spec["text"] + ["label"]
        for r in spec["rows"]:
            r[2]["label"] = "l%d" % r[0]
    ask = draw(gen.weighted((None, 3), ("str", 2), ("list", 2), ("empty", 1)))
    if ask == "str":
        ask = gen.pick(draw, inc)
    elif ask == "list":
        ask = [c for c in inc if draw(st.booleans())] + (["no such"] if draw(gen.weighted((True, 1), (False, 4))) else [])
    elif ask == "empty":
        ask = []
    keys = [[r[0], r[1]] for r in spec["rows"]]
    drop = [k for k in keys if draw(gen.weighted((True, 1), (False, 3)))] if not whole and draw(gen.weighted((True, 1), (False, 2))) else []
    if len(drop) == len(keys):
        drop = drop[1:]
    return {"gf": spec, "text": text, "drop": drop, "ask": ask, "twice": draw(gen.weighted((True, 1), (False, 3))), "whole": whole}


def counterpart(inc):
    return inc[: -len("(inc)")].strip() if inc.endswith("(inc)") else inc + " (exc)"


def check(spec, case):
    s = spec["gf"]
    m = M.of(s["graph"])
    graph_labels(m, case)
    if s["levels"]:
        case.label("multiindex")
    gf, nodes = build_gf(s)
    if spec["text"]:
        gf.inc_metrics = gf.inc_metrics + ["label"]
    ask = spec["ask"]
    if isinstance(ask, str):
        case.label("one asked for")
    want = []
    for c in s["inc"]:
        if ask and (c != ask if isinstance(ask, str) else c not in ask):
            continue
        if counterpart(c) in s["exc"]:
            continue
        want.append(c)
    drop = {(i, tuple(t)) for i, t in spec["drop"]}
    vals = {k: v for k, v in rowmap(s).items() if k not in drop}
    if drop:
        case.label("rows dropped")
        ids = {(nodes[i]._hatchet_nid,) + t for i, t in drop}
        with sut("filtering without squashing"):
            gf = gf.filter(lambda r: (r["node"]._hatchet_nid,) + tuple(r[lv] for lv in s["levels"]) not in ids, squash=False, num_procs=1)
    with sut("copying"):
        other = gf.copy()
    before = snap(other)
    inc_before = list(gf.inc_metrics)
    columns = list(gf.dataframe.columns)
    with sut("generate_exclusive_columns(%r)" % (ask,)):
        arg = list(ask) if isinstance(ask, list) else ask
        for _ in range(2 if spec["twice"] else 1):
            gf.generate_exclusive_columns() if ask is None else gf.generate_exclusive_columns(arg)
    ensure(arg == ask, "the list passed was changed: %r", arg)
    exp = {}
    for (i, t), v in vals.items():
        d = dict(v)
        for c in want:
            kids = [vals[(k, t)][c] for k in m.children[i] if (k, t) in vals]
            kids = [float(x) for x in kids if not is_missing(x)]
            if len(kids) > 1:
                case.nt()
            d[counterpart(c)] = float("nan") if is_missing(v[c]) else float(v[c]) - sum(kids)
        exp[(i, t)] = d
    num = {id(n): k for k, n in enumerate(nodes)}

    def rows():
        out = {}
        for t, r in zip(gf.dataframe.index, gf.dataframe.to_dict("records")):
            t = t if isinstance(t, tuple) else (t,)
            out[(num[id(t[0])], tuple(t[1:]))] = r
        ensure(len(out) == len(gf.dataframe), "duplicate rows")
        return out

    what = "generate_exclusive_columns(%r)" % (ask,)
    check_rows(rows(), exp, what)
    ensure(set(gf.dataframe.columns) == set(columns) | {counterpart(c) for c in want} and not gf.dataframe.columns.duplicated().any(),
           "%s: columns became %r, were %r", what, list(gf.dataframe.columns), columns)
    ensure(list(gf.dataframe.index.names) == ["node"] + s["levels"], "%s: index levels are %r", what, list(gf.dataframe.index.names))
    ensure(sorted(gf.exc_metrics) == sorted(set(s["exc"]) | {counterpart(c) for c in want}), "%s: exclusive metrics are %r", what, gf.exc_metrics)
    ensure(list(gf.inc_metrics) == inc_before, "%s: inclusive metrics became %r", what, gf.inc_metrics)
    assert_unchanged(before, other, what + " on a copy's source")

    if spec["whole"] and not spec["text"] and not ask:
        case.label("regenerated")
        with sut("update_inclusive_columns after " + what):
            gf.exc_metrics = [counterpart(c) for c in want]
            gf.inc_metrics = []
            gf.update_inclusive_columns()
        back = rows()
        for (i, t), v in vals.items():
            for c in want:
                name = counterpart(c)[: -len("(exc)")].strip() if counterpart(c).endswith("(exc)") else counterpart(c) + " (inc)"
                g = back[(i, t)][name]
                ensure(abs(float(g) - float(v[c])) <= 1e-6 * (1 + abs(float(v[c]))), "regenerated %r is %r, was %r", name, g, v[c])
