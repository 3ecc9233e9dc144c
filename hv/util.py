"""Helpers shared by several properties (still independent of hatchet's code)."""

import math

from .core import Violation, ensure, is_missing, same
from .model import Gr, M


def derived_inc(exc):
    return [
        (e[: -len("(exc)")].strip() if e.endswith("(exc)") else "%s (inc)" % e) for e in exc
    ]


def sum_min1(vals):
    vals = [float(v) for v in vals if not is_missing(v)]
    if not vals:
        return float("nan")
    return math.fsum(vals) if not any(math.isinf(v) for v in vals) else sum(vals)


def rowmap(spec):
    """{(node, idx tuple): values}"""
    return {(i, tuple(idx)): vals for i, idx, vals in spec["rows"]}


def squash_model(m, kept):
    """Gr over kept node indices: nearest-ancestor edges and roots."""
    edges, roots = set(), set()

    def below(i, src, seen):
        for c in m.children[i]:
            if c in kept:
                edges.add((src, c)) if src is not None else roots.add(c)
            elif c not in seen:
                seen.add(c)
                below(c, src, seen)

    for i in kept:
        below(i, i, set())
    seen = set()
    for r in m.roots:
        if r in kept:
            roots.add(r)
        elif r not in seen:
            seen.add(r)
            below(r, None, seen)
    return Gr({i: m.frames[i] for i in kept}, edges, roots)


def gr_desc(edges, nodes):
    kids = {}
    for u, v in edges:
        kids.setdefault(u, set()).add(v)
    out = {}
    for n in nodes:
        seen, todo = set(), [n]
        while todo:
            k = todo.pop()
            if k not in seen:
                seen.add(k)
                todo.extend(kids.get(k, ()))
        out[n] = seen
    return out


def check_rows(got, exp, what, one_of=False):
    """got, exp: {key: {col: value}}; exp values may be sets-as-lists if one_of columns."""
    gk, ek = set(got), set(exp)
    if gk != ek:
        raise Violation(
            "%s: wrong rows; unexpected %.300r, missing %.300r"
            % (what, [fmt_key(k) for k in gk - ek][:3], [fmt_key(k) for k in ek - gk][:3])
        )
    for k, vals in exp.items():
        for c, v in vals.items():
            ensure(c in got[k], "%s: no column %r in the result", what, c)
            g = got[k][c]
            if isinstance(v, OneOf):
                ensure(
                    any(same(g, x) for x in v.vals),
                    "%s: %s[%s] is %r, expected one of %r",
                    what,
                    c,
                    fmt_key(k),
                    g,
                    v.vals,
                )
            elif not same(g, v):
                raise Violation(
                    "%s: %s at %s is %r, expected %r" % (what, c, fmt_key(k), g, v)
                )


class OneOf:
    def __init__(self, vals):
        self.vals = list(vals)


def fmt_key(k):
    from .model import short_paths

    try:
        return "%s%s" % ("|".join(short_paths(k[0])), list(k[1]) if k[1] else "")
    except Exception:
        return repr(k)


def graph_labels(m, case):
    if m.is_tree():
        case.label("tree")
    elif m.is_forest():
        case.label("forest")
    else:
        case.label("dag")
