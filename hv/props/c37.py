import contextlib
import io
import os
import pstats
import sys

from hv import strat as st

from .. import gen
from ..build import GraphFrame
from ..core import ensure, expect_raises, sut
from ..rd import read, scratch

EXAMPLES = {"quick": 2400, "thorough": 20000}
RULE = (
    "histories of 4-11 profiler operations (start, stop, reset, write with and without a name, with other profiles "
    "added, print, disallowed starts and resets) in a scratch directory, with generated programs (random call "
    "graphs of up to 6 functions, recursion included) run in between, profiled or not; every file on disk is "
    "compared with a model after every step; non-trivial: at least two files written and profiled calls"
)
ASSUMPTIONS = ["cProfile counts calls exactly"]


@st.composite
def strategy(draw, tier):
    n = draw(st.integers(1, 6))
    calls = []
    for i in range(n):
        calls.append([draw(st.integers(0, 2)) for _ in range(n - 1 - i)])
    ops, active, used = [], False, False
    for _ in range(draw(st.integers(4, 16 if tier == "thorough" else 11))):
        if active:
            op = draw(gen.weighted(("run", 6), ("stop", 6), ("start", 1), ("reset", 1)))
        else:
            op = draw(gen.weighted(("start", 4), ("write", 4 if used else 0), ("str", used), ("run", 1), ("reset", 1)))
        used = used and not (op == "reset" and not active) or op == "start"
        active = op == "start" or active and op != "stop"
        ops.append([op, draw(st.integers(0, n - 1)), draw(st.integers(0, 3)), draw(st.integers(0, 3))])
    return {"calls": calls, "recurse": [draw(gen.weighted((0, 2), (1, 1), (2, 1))) for _ in range(n)], "ops": ops}


def program(spec):
    """Functions f0, f1, ...; fi calls later ones calls[i][j] times, and itself first."""
    src = ""
    for i, row in enumerate(spec["calls"]):
        src += "def f%d(again=%d):\n    if again:\n        f%d(again - 1)\n        return\n" % (i, spec["recurse"][i], i)
        for j, k in enumerate(row):
            src += "    f%d()\n" % (i + 1 + j) * k
    env = {}
    exec(compile(src, "/generated/program.py", "exec"), env)
    return [env["f%d" % i] for i in range(len(spec["calls"]))]


def add(a, b):
    out = {k: list(v[:2]) + [dict(v[2])] for k, v in a.items()}
    for k, (cc, nc, callers) in b.items():
        o = out.setdefault(k, [0, 0, {}])
        o[0] += cc
        o[1] += nc
        for c, n in callers.items():
            o[2][c] = o[2].get(c, 0) + n
    return out


def effect(spec, i):
    """{function: [outer calls, calls, {caller: calls}]} of calling fi once."""
    out = {}

    def call(k, who, again):
        o = out.setdefault(k, [0, 0, {}])
        o[1] += 1
        o[0] += who != k
        if who is not None:
            o[2][who] = o[2].get(who, 0) + 1
        if again:
            return call(k, k, again - 1)
        for j, m in enumerate(spec["calls"][k]):
            for _ in range(m):
                call(k + 1 + j, k, spec["recurse"][k + 1 + j])

    call(i, None, spec["recurse"][i])
    return out


def contents(path, what):
    """What a file holds about the generated functions."""
    with sut("reading " + what):
        stats = pstats.Stats(path).stats
    out = {}
    for (file, line, name), (cc, nc, tt, ct, callers) in stats.items():
        if file == "/generated/program.py":
            up = {}
            for (f, _, c), v in callers.items():
                if f == file:
                    up[int(c[1:])] = v[0]
            out[int(name[1:])] = [cc, nc, up]
    return out


def check(spec, case):
    from hatchet.util.profiler import Profiler

    funcs = program(spec)
    with scratch() as tmp:
        old = os.getcwd()
        os.chdir(tmp)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                history(spec, case, Profiler, funcs)
        finally:
            os.chdir(old)


def history(spec, case, Profiler, funcs):
    with sut("Profiler()"):
        prf = Profiler()
    active, used = False, False
    have = {}
    files = {}
    profiled = 0

    def settle(what, content, name=None):
        """One new file, with this content; the others as they were."""
        now = {f for f in os.listdir(".")}
        ensure(set(files) <= now, "%s: %r is gone", what, sorted(set(files) - now))
        new = sorted(now - set(files))
        ensure(len(new) == (0 if content is None else 1), "%s: new files are %r, among %r", what, new, sorted(now))
        if content is not None:
            if name and name not in files:
                ensure(new == [name], "%s: wrote %r, expected %r", what, new, name)
            ensure(new[0].endswith(".pstats") or new[0] == name, "%s: wrote %r", what, new)
            files[new[0]] = content
        for f, c in files.items():
            got = contents(f, f)
            ensure(got == c, "%s: %s holds %r, expected %r", what, f, got, c)

    try:
        for op, i, a, b in spec["ops"]:
            if op == "start":
                if active:
                    expect_raises("start of a running profiler", RuntimeError, prf.start)
                else:
                    with sut("start"):
                        prf.start()
                    active = used = True
            elif op == "run":
                funcs[i]()
                if active:
                    have = add(have, effect(spec, i))
                    profiled += 1
            elif op == "stop" and active:
                with sut("stop"):
                    prf.stop()
                active = False
                settle("stop", have, "hatchet-profile.pstats")
            elif op == "reset":
                if active:
                    expect_raises("reset of a running profiler", RuntimeError, prf.reset)
                else:
                    with sut("reset"):
                        prf.reset()
                    have, used = {}, False
            elif op == "write" and used and not active:
                name = ["", "mine.pstats", "other.pstats", "plain"][a]
                more = sorted(files)[:b]
                content = have
                for f in more:
                    content = add(content, files[f])
                kw = {"add_pstats_files": more} if more else {}
                with sut("write_to_file(%r, %r)" % (name, more)):
                    prf.write_to_file(*([name] if name or b % 2 else []), **kw)
                settle("write_to_file(%r, %r)" % (name, more), content, name or "hatchet-profile.pstats")
            elif op == "str" and used and not active:
                with sut("printing the profiler"):
                    text = str(prf)
                for k, v in have.items():
                    n = "%d" % v[1] if v[0] == v[1] else "%d/%d" % (v[1], v[0])
                    line = [x for x in text.splitlines() if x.endswith("(f%d)" % k)]
                    ensure(len(line) == 1 and line[0].split()[0] == n, "f%d was called %s times: %r", k, n, line)
            else:
                continue
            case.label(op)
            settle(op, None)
    finally:
        if active:
            try:
                prf.stop()
            except Exception:
                sys.setprofile(None)
    case.nt(len(files) > 1 and profiled > 0)
    # hatchet reads what it wrote
    for f, c in sorted(files.items())[:2]:
        d = read("from_cprofile", GraphFrame.from_cprofile, f)
        mine = [r for r in d["rows"].values() if r["file"] == "/generated/program.py"]
        got = {int(r["name"][1:]): sorted([r["numcalls"], r["nativecalls"]]) for r in mine}
        ensure(len(mine) == len(c) and got == {k: sorted(v[:2]) for k, v in c.items()}, "from_cprofile: calls are %r, expected %r", got, c)
        ids = {k[0]: int(r["name"][1:]) for k, r in d["rows"].items() if r["file"] == "/generated/program.py"}
        edges = {(ids[n], ids[k]) for n, (_, kids, _) in d["nodes"].items() for k in kids if n in ids and k in ids}
        ensure(edges == {(p, k) for k, v in c.items() for p in v[2]}, "from_cprofile: edges are %r, expected those of %r", edges, c)
