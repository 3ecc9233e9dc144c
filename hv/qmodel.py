"""Reference matcher for path queries: an automaton over downward paths."""


def expand(query):
    """[(wildcard, predicate set of node indices)] -> base tokens [(is_star, set)]."""
    out = []
    for w, s in query:
        if w == "*":
            out.append((True, s))
        elif w == "+":
            out.append((False, s))
            out.append((True, s))
        elif w == ".":
            out.append((False, s))
        else:
            out.extend([(False, s)] * w)
    return out


def match_nodes(m, query):
    """Set of node indices lying on some matching downward path of model graph m."""
    toks = expand(query)
    k = len(toks)

    def closure(p):
        out = [p]
        while p < k and toks[p][0]:
            p += 1
            out.append(p)
        return out

    def steps(p, i):
        """positions after consuming node i at position p"""
        r = set()
        for q in closure(p):
            if q < k and i in toks[q][1]:
                r.add(q if toks[q][0] else q + 1)
        return r

    # forward reachable configurations (node consumed, position after)
    fwd, todo = set(), []
    for i in range(m.n):
        for p in steps(0, i):
            todo.append((i, p))
    succ = {}
    while todo:
        c = todo.pop()
        if c in fwd:
            continue
        fwd.add(c)
        i, p = c
        nxt = {(ch, q) for ch in m.children[i] for q in steps(p, ch)}
        succ[c] = nxt
        todo.extend(nxt)
    good = {c for c in fwd if k in closure(c[1])}
    changed = True
    while changed:
        changed = False
        for c in fwd:
            if c not in good and succ[c] & good:
                good.add(c)
                changed = True
    return {i for i, _ in good}
