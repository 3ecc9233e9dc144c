"""String-dialect queries: generation and rendering."""

from hv import strat as st

from . import gen
from .conds import num_cond, str_cond, text_cond

IDS = ["p", "q", "r1", "node_a", "_x", "B"]
STR_OPS = ["eq", "starts", "ends", "contains", "match"]
NUM_OPS = ["==", "<", "<=", ">", ">="]


@st.composite
def one_cond(draw, none=True):
    k = draw(gen.weighted(("num", 6), ("text", 6), ("is", 3), ("leaf", 1)))
    if k == "num":
        return draw(num_cond(["x", "x", "k", "depth", "node_id"], ops=NUM_OPS, special=False))
    if k == "text":
        return draw(text_cond(["module", "name"], STR_OPS))
    if k == "leaf":
        return ["leaf", draw(st.booleans())]
    what = draw(st.sampled_from(["none", "nan", "inf"] if none else ["nan", "inf"]))
    attr = "opt" if what == "none" and draw(gen.weighted((True, 2), (False, 1))) else draw(st.sampled_from(["x"] * 5 + ["k"] * 3 + ["depth", "node_id"]))
    return ["is", attr, what, draw(st.booleans())]


@st.composite
def cond_groups(draw, n, none=True, p_cond=((0, 1), (1, 5), (2, 3), (3, 2))):
    """[[connective, not, cond], ...]"""
    out = []
    for j in range(n):
        out.append([draw(st.sampled_from(["AND", "OR"])), draw(gen.weighted((False, 3), (True, 1))), draw(one_cond(none))])
    return out


@st.composite
def paths(draw, max_len=3):
    el, used = [], 0
    for k in range(draw(gen.weighted((1, 4), (2, 4), (3, 2)))):
        # None: no wildcard written
        w = draw(gen.weighted((None, 4), (".", 2), ("*", 3), ("+", 2), (1, 1), (2, 1), (0, 1)))
        if k == 0 and w == 0:
            w = None
        name = None
        if w is None or draw(gen.weighted((True, 3), (False, 1))):
            name = IDS[used]
            used += 1
        el.append([w, name])
    return el


@st.composite
def queries(draw, none=True):
    """{"path": [[wildcard, name]], "conds": {name: [[connective, not, cond]]}, "order": ...}"""
    path = draw(paths())
    conds = {}
    for _, name in path:
        if name is not None:
            n = draw(gen.weighted((0, 2), (1, 5), (2, 3), (3, 2)))
            if n:
                conds[name] = draw(cond_groups(n, none))
    return {
        "path": path,
        "conds": conds,
        "rev": draw(st.booleans()),
        "style": draw(st.integers(0, 11)),
    }


def render_path(path, style=0):
    sp = ["", " "][style % 2]
    out = []
    for w, name in path:
        parts = []
        if w is not None:
            parts.append(str(w) if isinstance(w, int) else '"%s"' % w)
        if name is not None:
            parts.append(name)
        out.append("(" + ("," + sp).join(parts) + ")")
    return (sp + "->" + sp).join(out)


def render_where(conds, names, style=0):
    """Conditions grouped by query node; groups are joined by AND."""
    groups = []
    for name in names:
        if name in conds:
            t = ""
            for j, (op, neg, c) in enumerate(conds[name]):
                if j:
                    t += " %s " % op
                t += ("NOT " if neg else "") + str_cond(c, name, style + j)
            groups.append(t)
    return [" AND ", "\n AND "][style % 2].join(groups)


def names_of(q):
    names = [n for _, n in q["path"] if n is not None]
    return names[::-1] if q["rev"] else names


def render(q):
    style = q["style"]
    where = render_where(q["conds"], names_of(q), style)
    text = "MATCH " + render_path(q["path"], style)
    if where:
        text += [" ", "\n    "][style // 2 % 2] + "WHERE " + where
    return text


def eval_conds(group, fn):
    """OR of ANDs, as written."""
    terms = []
    for j, (op, neg, c) in enumerate(group):
        v = fn(c) != neg
        if j and op == "AND":
            terms[-1] = terms[-1] and v
        else:
            terms.append(v)
    return any(terms)


def element_sets(q, n, fn):
    """[(wildcard, nodes)]; fn(cond, i) is the meaning of one condition for node i."""
    out = []
    for w, name in q["path"]:
        group = q["conds"].get(name) if name is not None else None
        s = set(range(n)) if not group else {i for i in range(n) if eval_conds(group, lambda c: fn(c, i))}
        out.append(("." if w is None else w, s))
    return out
