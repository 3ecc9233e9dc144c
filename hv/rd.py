"""Reader checks: what a GraphFrame that was read from files describes."""

import contextlib
import os
import shutil
import tempfile
import warnings
import zlib

from .core import ensure, fail, is_missing, sut
from .model import check_links
from .rt import by_nid


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="hv-rd-")
    try:
        yield d
    finally:
        shutil.rmtree(d)


def put(path, text, mode="w"):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, mode, **({} if "b" in mode else {"encoding": "utf-8", "newline": ""})) as f:
        f.write(text)
    return path


class _Entries:
    def __init__(self, entries):
        self.it = iter(entries)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def close(self):
        pass


@contextlib.contextmanager
def any_listing_order():
    """Directories are listed in an order that differs between directories, as file systems may."""
    real = os.scandir, os.listdir

    def key(where, name):
        return zlib.crc32(repr((os.path.basename(os.path.normpath(os.fspath(where))) if where else "", name)).encode())

    def scandir(path="."):
        if not isinstance(path, (str, os.PathLike)):
            return real[0](path)
        with real[0](path) as it:
            return _Entries(sorted(it, key=lambda e: key(path, e.name)))

    def listdir(path="."):
        names = real[1](path)
        return sorted(names, key=lambda n: key(path, n)) if isinstance(path, (str, os.PathLike)) else names

    os.scandir, os.listdir = scandir, listdir
    try:
        yield
    finally:
        os.scandir, os.listdir = real


# what to do with the innermost call of a reader instead of checking its result (see C38)
HOOKS = []


class Intercepted(BaseException):
    """A hook took a reader call over."""


def call(what, fn, *args, **kw):
    """fn(*args, **kw), which must not fail."""
    if HOOKS:
        HOOKS.pop()(fn, args, kw)
        raise Intercepted()
    with sut(what), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with any_listing_order():
            return fn(*args, **kw)


def read(what, fn, *args, **kw):
    """Read with hatchet, check the result's consistency and describe it (as rt.by_nid)."""
    gf = call(what, fn, *args, **kw)
    check_links(gf.graph, what)
    d = by_nid(gf, what)
    d["gf"] = gf
    return d


def usable(gf, what, **kw):
    """Every node can be rendered."""
    with sut("tree() of " + what), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        text = gf.tree(render_header=False, **kw)
    return text


def norm(v):
    if is_missing(v):
        return None
    if isinstance(v, bool):
        return v
    if isinstance(v, (int, float)):
        return float(v)
    return v


def same_vals(got, exp, what, where):
    """exp's values are in got; numbers compared as floats."""
    for c, v in exp.items():
        ensure(c in got, "%s: no column %r", what, c)
        g, w = norm(got[c]), norm(v)
        ok = g == w or (isinstance(g, float) and isinstance(w, float) and abs(g - w) <= 1e-9 * max(abs(g), abs(w)))
        ensure(ok and isinstance(g, bool) == isinstance(w, bool), "%s: %s of %s is %r, expected %r", what, c, where, got[c], v)


def paths(d, what):
    """{path of frames: node id} of a forest whose siblings differ."""
    out = {}

    def go(nid, pre, seen):
        f, kids, _ = d["nodes"][nid]
        p = pre + (f,)
        ensure(p not in out, "%s: two nodes at %s", what, fmt(p))
        ensure(nid not in seen, "%s: node %s is in a cycle or shared", what, f)
        seen.add(nid)
        out[p] = nid
        for k in kids:
            go(k, p, seen)

    seen = set()
    for r in d["roots"]:
        go(r, (), seen)
    return out


def fmt(p):
    return "/".join(dict(f).get("name", "|".join("%s" % (v,) for _, v in f)) if isinstance(f, tuple) else str(f) for f in p)


def compare_paths(d, exp, what, indices=None):
    """exp: {path: {index tuple: {column: value}}}; d as from read(), a forest with distinct siblings."""
    got = paths(d, what)
    if set(got) != set(exp):
        fail("%s: unexpected nodes %.300r, missing nodes %.300r", what, [fmt(p) for p in set(got) - set(exp)][:3],
             [fmt(p) for p in set(exp) - set(got)][:3])
    rows = {}
    for k, v in d["rows"].items():
        rows.setdefault(k[0], {})[k[1:]] = v
    for p, nid in got.items():
        g = rows.get(nid, {})
        if set(g) != set(exp[p]):
            fail("%s: rows of %s are at %r, expected %r", what, fmt(p), sorted(g, key=str), sorted(exp[p], key=str))
        for idx, vals in exp[p].items():
            same_vals(g[idx], vals, what, "%s%r" % (fmt(p), list(idx)))


def canon(d, nid, cols):
    f, kids, _ = d["nodes"][nid]
    rows = sorted(
        (tuple(map(str, k[1:])), tuple(repr(norm(v.get(c))) for c in cols)) for k, v in d["rows"].items() if k[0] == nid
    )
    return (f, tuple(rows), tuple(sorted((canon(d, k, cols) for k in kids), key=repr)))


def metrics(d, exc, inc, what):
    ensure(d["exc"] == sorted(exc), "%s: exclusive metrics are %r, expected %r", what, d["exc"], sorted(exc))
    ensure(d["inc"] == sorted(inc), "%s: inclusive metrics are %r, expected %r", what, d["inc"], sorted(inc))
    both, default = list(exc) + list(inc), d["gf"].default_metric
    if both:
        time = [c for c in ("time", "time (inc)") if c in both]
        ensure(default in (time or both), "%s: default metric is %r, metrics are %r", what, default, sorted(both))


def match_forest(d, tree, roots, what, frame=lambda f: f, cell=lambda c, v: v, exact_rows=True):
    """The nodes of d correspond one to one to those of tree, {key: (frame, {index: {column: value}}, child keys)}.

    Same-frame siblings are told apart by values and descendants; frame and cell map what was read.
    """
    rows = {}
    for k, v in d["rows"].items():
        rows.setdefault(k[0], {})[k[1:]] = v
    memo = {}

    def fits(nid, key):
        if (nid, key) not in memo:
            memo[nid, key] = check(nid, key)
        return memo[nid, key]

    def check(nid, key):
        f, rs, kids = tree[key]
        want = tuple(sorted(f.items()))
        if frame(d["nodes"][nid][0]) != want:
            return "frame is %r, expected %r" % (d["nodes"][nid][0], want)
        mine = rows.get(nid, {})
        if set(mine) != set(rs) if exact_rows else not set(rs) <= set(mine):
            return "%s: rows are at %r, expected %r" % (f, sorted(mine), sorted(rs))
        for idx, vals in rs.items():
            for c, v in vals.items():
                if c not in mine[idx]:
                    return "no column %r" % c
                g = cell(c, mine[idx][c])
                g, w = norm(g), norm(v)
                if not (g == w and isinstance(g, bool) == isinstance(w, bool)) and not (
                    isinstance(g, float) and isinstance(w, float) and abs(g - w) <= 1e-9 * max(abs(g), abs(w))
                ):
                    return "%s of %s at %r is %r, expected %r" % (c, f, idx, mine[idx][c], v)
        return assign(d["nodes"][nid][1], kids, str(f))

    def assign(nids, keys, where):
        if len(nids) != len(keys):
            return "%s: %d children %r, expected %d: %r" % (where, len(nids), [d["nodes"][k][0] for k in nids], len(keys),
                                                            [tree[k][0] for k in keys])
        owner = {}

        def place(nid, seen):
            for k in keys:
                if k not in seen and fits(nid, k) is None:
                    seen.add(k)
                    if k not in owner or place(owner[k], seen):
                        owner[k] = nid
                        return True
            return False

        for nid in nids:
            if not place(nid, set()):
                whys = [fits(nid, k) for k in keys]
                near = [w for w in whys if w and not w.startswith("frame is")]
                return (near or [w for w in whys if w] or ["%s: children do not correspond" % where])[0]
        return None

    why = assign(d["roots"], roots, "the graph")
    ensure(why is None, "%s: %s", what, why)
