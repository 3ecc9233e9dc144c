from hv import strat as st

from .. import gen
from ..build import assert_unchanged, build_gf, snap
from ..conds import frames_with_attrs
from ..core import ensure, expect_raises, sut
from ..model import M
from ..qmodel import match_nodes
from ..strq import cond_groups, element_sets, names_of, paths, render_path, render_where
from ..util import graph_labels, rowmap
from .c05 import cond_node

EXAMPLES = {"quick": 11200, "thorough": 50000}
RULE = (
    "random expression trees (depth <= 3) of and/or/xor/not over random leaf queries, spelled with the new "
    "classes, Python operators, combine functions, the deprecated classes and operators, or curly braces "
    "(whole queries and condition groups, nested), compared with set algebra on the leaves' reference node "
    "sets; non-trivial: at least one binary operator whose operands differ and the result is neither empty nor all"
)
ASSUMPTIONS = ["text columns used in text conditions hold no missing values"]


@st.composite
def leaf_query(draw):
    path = draw(paths())
    if all(w == 0 for w, _ in path):
        path = [[".", None]]
    return {"leaf": [[w if w is not None else ".", draw(gen.weighted(("a", 3), ("b", 3), ("", 2)))] for w, _ in path],
            "kind": draw(st.integers(0, 4))}


@st.composite
def tree(draw, depth, neg=True):
    k = draw(gen.weighted(("leaf", 3 if depth < 3 else 1), ("and", 2), ("or", 2), ("xor", 2), ("not", 2 if neg else 0)))
    if depth == 0:
        k = "leaf"
    if k == "leaf":
        return draw(leaf_query())
    if k == "not":
        return {"op": "not", "sub": [draw(tree(depth - 1, neg))], "sp": draw(st.integers(0, 2))}
    n = draw(gen.weighted((2, 5), (3, 2)))
    return {"op": k, "sub": [draw(tree(depth - 1, neg)) for _ in range(n)], "sp": draw(st.integers(0, 2))}


@st.composite
def chain(draw, depth):
    """brace-delimited queries, evaluated left to right"""
    n = draw(gen.weighted((1, 1), (2, 4), (3, 2)))
    sub = []
    for _ in range(n):
        if depth and draw(gen.weighted((True, 1), (False, 2))):
            sub.append(draw(chain(depth - 1)))
        elif draw(gen.weighted((True, 1), (False, 2))):
            sub.append(draw(where_chain(1)))
        else:
            sub.append(draw(leaf_query()))
    return {"chain": sub, "ops": [draw(st.sampled_from(["AND", "OR", "XOR"])) for _ in range(n - 1)]}


@st.composite
def where_chain(draw, depth, path=None):
    if path is None:
        path = draw(paths())
        path[0] = [path[0][0] if path[0][0] != 0 else None, path[0][1] or "first"]
    names = [n for _, n in path if n is not None]
    n = draw(gen.weighted((1, 1), (2, 4), (3, 2)))
    groups = []
    for _ in range(n):
        if depth and draw(gen.weighted((True, 1), (False, 4))):
            groups.append(draw(where_chain(depth - 1, path)))
        else:
            conds = {}
            for nm in names:
                k = draw(st.integers(0, 2))
                if k:
                    conds[nm] = draw(cond_groups(k, none=False))
            if not conds:
                conds[names[0]] = draw(cond_groups(1, none=False))
            groups.append({"conds": conds, "rev": draw(st.booleans()), "style": draw(st.integers(0, 11))})
    return {"path": path, "groups": groups, "ops": [draw(st.sampled_from(["AND", "OR", "XOR"])) for _ in range(n - 1)]}


@st.composite
def strategy(draw, tier):
    spec = draw(frames_with_attrs(tier == "thorough"))
    n = len(spec["graph"]["frames"])
    spec["tags"] = ["".join(t for t in "ab" if draw(st.booleans())) for _ in range(n)]
    spec["mode"] = draw(gen.weighted(("new", 3), ("compat", 3), ("braces", 2), ("where", 2)))
    if spec["mode"] in ("new", "compat"):
        spec["expr"] = draw(tree(3))
    elif spec["mode"] == "braces":
        spec["expr"] = draw(chain(1))
    else:
        spec["expr"] = draw(where_chain(1))
    spec["brace_sp"] = draw(st.integers(0, 3))
    return spec


def fold(ops, sets):
    acc = sets[0]
    for op, s in zip(ops, sets[1:]):
        acc = {"AND": acc & s, "OR": acc | s, "XOR": acc ^ s}[op]
    return acc


class Ref:
    def __init__(self, spec, m, nodes):
        self.spec, self.m, self.nodes = spec, m, nodes
        self.rows = {}
        for (i, t), v in sorted(rowmap(spec).items()):
            self.rows.setdefault(i, []).append(v)
        self.distinct = False

    def ev(self, e):
        m = self.m
        if "leaf" in e:
            return match_nodes(m, [(w, {i for i in range(m.n) if t in self.spec["tags"][i]}) for w, t in e["leaf"]])
        if "groups" in e:
            sets = []
            for g in e["groups"]:
                if "groups" in g:
                    sets.append(self.ev(g))
                else:
                    q = dict(g, path=e["path"])
                    sets.append(match_nodes(m, element_sets(
                        q, m.n, lambda c, i: cond_node(c, i, self.rows, self.spec, m, self.nodes, None))))
            ops = e["ops"]
        elif "chain" in e:
            sets = [self.ev(x) for x in e["chain"]]
            ops = e["ops"]
        else:
            sets = [self.ev(x) for x in e["sub"]]
            if e["op"] == "not":
                return set(range(m.n)) - sets[0]
            ops = [e["op"].upper()] * (len(sets) - 1)
        if len({frozenset(s) for s in sets}) > 1:
            self.distinct = True
        return fold(ops, sets)


def leaf_list(e):
    return [(w, {} if t == "" else {"tags": "[ab]*%s[ab]*" % t}) for w, t in e["leaf"]]


def leaf_str(e):
    path, conds = [], []
    for k, (w, t) in enumerate(e["leaf"]):
        path.append([w, "n%d" % k if t else None])
        if t:
            conds.append('n%d."tags" CONTAINS "%s"' % (k, t))
    text = "MATCH " + render_path(path)
    return text + (" WHERE " + " AND ".join(conds) if conds else "")


def where_text(e):
    out = ""
    for k, g in enumerate(e["groups"]):
        if k:
            out += " %s " % e["ops"][k - 1]
        if "groups" in g:
            t = where_text(g)
        else:
            t = render_where(g["conds"], names_of(dict(g, path=e["path"])), g["style"])
        out += "{%s}" % t
    return out


def brace_text(e, sp):
    if "leaf" in e:
        return leaf_str(e)
    if "groups" in e:
        return "MATCH %s WHERE %s" % (render_path(e["path"]), where_text(e))
    out = ""
    for k, x in enumerate(e["chain"]):
        if k:
            out += [" %s ", "\n%s\n", " %s", "%s "][sp] % e["ops"][k - 1]
        pad = ["", " ", "\n  "][sp % 3]
        out += "{%s%s%s}" % (pad, brace_text(x, sp), pad)
    return out


def base(q, e):
    def pred(t):
        return lambda row: t in row["tags"]

    for k, (w, t) in enumerate(e["leaf"]):
        (q.match if k == 0 else q.rel)(w, pred(t))
    return q


def build(e, mode, top=True, operand=False):
    """operand: the result is used with a Python operator, so it must be a query object."""
    import hatchet.query as Q

    if "leaf" in e:
        first_zero = e["leaf"][0][0] == 0
        k = e["kind"]
        if first_zero and k in (0, 3):
            k = 1
        if mode == "new":
            if k == 0:
                return base(Q.Query(), e)
            if k == 1 or (operand and k == 3):
                return Q.ObjectQuery(leaf_list(e))
            if k == 2 or (operand and k == 4):
                return Q.StringQuery(leaf_str(e)) if not first_zero else Q.ObjectQuery(leaf_list(e))
            return leaf_list(e) if k == 3 or first_zero else leaf_str(e)
        if k == 0:
            return base(Q.QueryMatcher(), e)
        if k == 1 or (operand and k == 3):
            return Q.QueryMatcher(leaf_list(e))
        if k == 2 or operand:
            if first_zero:
                return Q.QueryMatcher(leaf_list(e))
            return [Q.CypherQuery, Q.parse_cypher_query][len(e["leaf"]) % 2](leaf_str(e))
        if k == 3:
            return leaf_list(e) if not top else Q.QueryMatcher(leaf_list(e))
        return Q.ObjectQuery(leaf_list(e))
    op, sp = e["op"], e["sp"]
    useop = sp == 1
    subs = [build(x, mode, False, useop) for x in e["sub"]]
    if op == "not":
        if useop:
            return ~subs[0]
        if mode == "new":
            return Q.NegationQuery(subs[0])
        return Q.NotQuery(subs[0])
    if useop:
        acc = subs[0]
        for s in subs[1:]:
            acc = acc & s if op == "and" else acc | s if op == "or" else acc ^ s
        return acc
    if mode == "new":
        if sp == 2 and len(subs) == 2:
            f = {"and": Q.combine_via_conjunction, "or": Q.combine_via_disjunction, "xor": Q.combine_via_exclusive_disjunction}[op]
            return f(*subs)
        return {"and": Q.ConjunctionQuery, "or": Q.DisjunctionQuery, "xor": Q.ExclusiveDisjunctionQuery}[op](*subs)
    cls = {
        "and": [Q.AndQuery, Q.IntersectionQuery],
        "or": [Q.OrQuery, Q.UnionQuery],
        "xor": [Q.XorQuery, Q.SymDifferenceQuery],
    }[op][sp // 2]
    return cls(*subs)


def check(spec, case):
    from hatchet.graphframe import EmptyFilter
    from hatchet.query import QueryEngine, parse_string_dialect
    from hatchet.query.compat import AbstractQuery

    m = M.of(spec["graph"])
    graph_labels(m, case)
    case.label(spec["mode"])
    gf, nodes = build_gf(spec)
    tag = {nodes[i]._hatchet_nid: spec["tags"][i] for i in range(m.n)}
    gf.dataframe["tags"] = [tag[x._hatchet_nid] for x in gf.dataframe.index]
    idx_of = {nodes[i]._hatchet_nid: i for i in range(m.n)}
    ref = Ref(spec, m, nodes)
    want = ref.ev(spec["expr"])
    case.nt(ref.distinct and 0 < len(want) < m.n)
    before = snap(gf)
    if spec["mode"] in ("new", "compat"):
        with sut("building a compound query"):
            q = build(spec["expr"], spec["mode"], operand=True)
        what = "%s compound query" % spec["mode"]
    else:
        text = brace_text(spec["expr"], spec["brace_sp"]) if spec["mode"] == "braces" else (
            "MATCH %s WHERE %s" % (render_path(spec["expr"]["path"]), where_text(spec["expr"])))
        what = "query %r" % text
        with sut("parsing " + what):
            q = parse_string_dialect(text)
        if m.n % 2:
            q2 = text
        else:
            q2 = q
    with sut("applying " + what):
        if isinstance(q, AbstractQuery):
            res = q.apply(gf)
        else:
            res = QueryEngine().apply(q, gf.graph, gf.dataframe)
    got = [idx_of.get(x._hatchet_nid) for x in res]
    ensure(len(got) == len(set(got)), "%s lists a node twice", what)
    ensure(set(got) == want, "%s selects nodes %r, expected %r", what, sorted(got), sorted(want))
    f = q if spec["mode"] in ("new", "compat") else q2
    if not want:
        expect_raises("filter by a %s matching nothing" % what, EmptyFilter, lambda: gf.filter(f, squash=False))
    else:
        with sut("filter by " + what):
            out = gf.filter(f, squash=False)
        got = {idx_of.get(x._hatchet_nid) for x in out.dataframe.index}
        ensure(got == want, "filter by %s keeps nodes %r, expected %r", what, sorted(got), sorted(want))
    assert_unchanged(before, gf, "compound query")
