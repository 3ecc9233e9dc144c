"""Conditions on node attributes: generation, reference meaning, and rendering in
the object and the string dialect.

A condition is a JSON list:
  ["num", attr, op, value]     op in == != < <= > >=; value a number or "nan"/"inf"/"-inf"
  ["text", attr, op, value]    op in re eq starts ends contains match
  ["is", attr, what, negated]  what in none nan inf
  ["leaf", negated]
attr may be "depth", "node_id", a column, or "missing" (no such column).
"""

import json
import math
import re

from hv import strat as st

from . import gen

TEXTS = ["main", "foo", "foobar", "Foo", "bar", "a b", "x<int>", "f(x)", 'q"t', "it's", "b\\ds", "é1", "foo\nx", "{a}", "MPI_Send"]
NUMS = [0, 1, 2, 3, 5, 10, -1, 0.5, 2.5, -2.5, 1e6]
# close to others, but not equal to them
NEAR = [1.0000000001, 0.9999999, 1e-12, -1e-9, 2.50000000001, 1000000.0000001, 4.999999999]
SPECIAL = ["nan", "inf", "-inf"]
OPS = ["==", "!=", "<", "<=", ">", ">="]


def fval(v):
    return float(v) if isinstance(v, str) else v


def cmp(op, a, b):
    if op == "==":
        return a == b
    if op == "!=":
        return a != b
    if op == "<":
        return a < b
    if op == "<=":
        return a <= b
    if op == ">":
        return a > b
    return a >= b


def holds(c, v, leaf=False):
    """Meaning of condition c on a value (leaf: the node has no children)."""
    kind = c[0]
    if kind == "leaf":
        return leaf != c[1]
    if c[1] == "missing":
        return False
    if kind == "is":
        _, _, what, neg = c
        if what == "none":
            r = v is None
        elif what == "nan":
            r = isinstance(v, float) and math.isnan(v)
        else:
            r = isinstance(v, float) and math.isinf(v)
        return r != neg
    _, attr, op, w = c
    if kind == "num":
        if attr == "depth" and op == "==" and w == -1:
            return leaf
        w = fval(w)
        if isinstance(w, float) and math.isnan(w):
            # nan equals nan in a query
            isnan = isinstance(v, float) and math.isnan(v)
            return {"==": isnan, "!=": not isnan}.get(op, False)
        return cmp(op, v, w)
    if op == "re":
        return re.fullmatch(w, v) is not None
    if op == "match":
        return re.match(w, v) is not None
    if op == "eq":
        return v == w
    if op == "starts":
        return v[: len(w)] == w
    if op == "ends":
        return len(w) <= len(v) and v[len(v) - len(w):] == w
    assert op == "contains", op
    return any(v[k:k + len(w)] == w for k in range(len(v) - len(w) + 1))


# generation


@st.composite
def regexes(draw):
    t = draw(st.sampled_from(TEXTS))
    k = draw(st.integers(0, 6))
    if k == 0:
        return re.escape(t)
    if k == 1:
        return re.escape(t[: draw(st.integers(0, len(t)))]) + ".*"
    if k == 2:
        return re.escape(t) + "|" + re.escape(draw(st.sampled_from(TEXTS)))
    if k == 3:
        return draw(st.sampled_from(["[a-z]+", "[A-Za-z_]*", "^foo", "(foo|ba)r?", r"\w+", r"\w*\b.*", ".", ".*", "", "(?i)FOO.*", r"[^b][a-z]+", r".*\d"]))
    if k == 4:
        return ".*" + re.escape(t[draw(st.integers(0, len(t) - 1)):])
    if k == 5:
        return "(%s)+" % re.escape(t[:2])
    return re.escape(t[:3])


@st.composite
def num_cond(draw, cols, ops=OPS, special=True):
    attr = draw(st.sampled_from(list(cols)))
    op = draw(st.sampled_from(list(ops)))
    if attr in ("depth", "node_id"):
        v = draw(st.sampled_from([-1, 0, 0, 1, 1, 1, 2, 2, 3, 5, 1.5, -2]))
        return ["num", attr, op, v]
    v = draw(st.sampled_from(NUMS * 2 + NEAR + (SPECIAL * 2 if special else [])))
    return ["num", attr, op, v]


@st.composite
def text_cond(draw, cols, ops):
    attr = draw(st.sampled_from(list(cols)))
    op = draw(st.sampled_from(list(ops)))
    if op in ("re", "match"):
        return ["text", attr, op, draw(regexes())]
    t = draw(st.sampled_from(TEXTS))
    a = draw(st.integers(0, len(t) - 1))
    b = draw(st.integers(a, len(t)))
    if op == "eq":
        a, b = 0, len(t)
    elif op == "starts":
        a = 0
    elif op == "ends":
        b = len(t)
    if t[a:b].endswith("\\"):
        b -= 1
    return ["text", attr, op, t[a:b]]


# object dialect


def obj_value(c, k=0):
    """The object dialect's spelling of a num/text condition."""
    kind, _, op, v = c
    if kind == "text":
        return v
    if op == "==" and not isinstance(v, str) and (k % 2 == 0 or (c[1] == "depth" and v == -1)):
        return v
    if isinstance(v, str):
        v = {"nan": "np.nan", "inf": "np.inf", "-inf": "-np.inf"}[v]
    else:
        v = repr(v)
    return op + [" ", "", "  "][k % 3] + v


# string dialect


def str_lit(t, k=0):
    q = "'" if k % 2 else '"'
    # the grammar only unescapes quotes, so a text must not end with a backslash
    assert not t.endswith("\\") and "\\'" not in t and '\\"' not in t, t
    return q + t.replace(q, "\\" + q) + q


def str_cond(c, name, k=0):
    kind = c[0]
    if kind == "leaf":
        return "%s IS %sLEAF" % (name, "NOT " if c[1] else "")
    ref = "%s.%s" % (name, str_lit(c[1], k))
    if kind == "is":
        return "%s IS %s%s" % (ref, "NOT " if c[3] else "", c[2].upper())
    op, v = c[2], c[3]
    if kind == "num":
        return "%s %s %s" % (ref, "=" if op == "==" else op, json.dumps(v))
    o = {"eq": "=", "starts": "STARTS WITH", "ends": "ENDS WITH", "contains": "CONTAINS", "match": "=~"}[op]
    return "%s %s %s" % (ref, o, str_lit(v, k // 2))


# subject data


@st.composite
def frames_with_attrs(draw, big=False, levels=None, kinds=([],), special=True, none=False):
    """A gframes spec with numeric columns x (float), k (int) and text columns name,
    module (and opt, which may be None)."""
    spec = draw(gen.gframes(
        min_nodes=2, max_nodes=9 if big else 6, exc=["x"], inc=[], text=[], nan=False, kinds=list(kinds),
        styles=("plain", "plain", "notype"), shapes=("tree", "tree", "forest", "dag"),
    ))
    n = len(spec["graph"]["frames"])
    texts = TEXTS[: draw(st.integers(3, len(TEXTS)))]
    mod = [draw(st.sampled_from(texts)) for _ in range(n)]
    vals = NUMS * 2 + NEAR + (["nan", "inf", "-inf"] * 2 if special else [])
    for r in spec["rows"]:
        v = draw(st.sampled_from(vals))
        r[2]["x"] = float(v)
        r[2]["k"] = draw(st.integers(-1, 5))
        r[2]["module"] = mod[r[0]] if draw(gen.weighted((True, 1), (False, 1))) else draw(st.sampled_from(texts))
        if none:
            r[2]["opt"] = draw(st.sampled_from([None, None, "foo", "bar"]))
    return spec


def aim(draw, conds, spec):
    """Let some number conditions ask for a value that occurs, or one right next to it."""
    for c in conds:
        if c[0] == "num" and c[1] in ("x", "k") and draw(gen.weighted((False, 2), (True, 1))):
            v = gen.pick(draw, spec["rows"])[2].get(c[1])
            if v is not None and math.isfinite(v):
                eps = draw(st.sampled_from([0, 0, 1e-10, -1e-10, 1e-7, -1e-6]))
                c[3] = v if not eps else v + eps * max(1, abs(v))
