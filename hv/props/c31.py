import json
import os

from hv import strat as st

from .. import gen
from ..build import GraphFrame
from ..core import ensure
from ..rd import canon, metrics, norm, put, read, scratch, usable

EXAMPLES = {"quick": 8000, "thorough": 80000}
RULE = (
    "pyinstrument JSON sessions with 1-12 frames nested in any way (recursion, siblings with the same function in "
    "other files or lines, missing or empty children lists, extra keys, any key order); the tree read back is "
    "compared recursively with the session; non-trivial: at least three frames and one with two children"
)
ASSUMPTIONS = ["times are recorded with limited binary precision, so that differences are exact"]

FUNCS = ["<module>", "main", "f", "g", "<lambda>", "_find_and_load", "é"]
FILES = ["a.py", "pkg/__init__.py", "<frozen importlib._bootstrap>", "é.py", ""]


@st.composite
def strategy(draw, tier):
    n = draw(st.integers(1, 24 if tier == "thorough" else 12))
    names = FUNCS[: draw(st.integers(1, len(FUNCS)))]
    frames = []
    for i in range(n):
        frames.append({
            "parent": draw(st.integers(0, i - 1)) if i else None,
            "function": gen.pick(draw, names),
            "file_path_short": gen.pick(draw, FILES),
            "line_no": draw(st.integers(0, 4)),
            "time": gen.real(draw(st.integers(0, 64))),
            "is_application_code": draw(st.booleans()),
        })
    return {"frames": frames, "empty": draw(st.booleans()), "extra": draw(st.booleans()), "rev": draw(st.booleans()),
            "indent": draw(st.booleans())}


def check(spec, case):
    fs = spec["frames"]
    kids = {i: [j for j, f in enumerate(fs) if f["parent"] == i] for i in range(len(fs))}
    case.nt(len(fs) > 2 and any(len(k) > 1 for k in kids.values()))
    for i in kids:
        if len({fs[j]["function"] for j in kids[i]}) < len(kids[i]):
            case.label("same function twice in one frame")

    def dump(i):
        f = {k: v for k, v in fs[i].items() if k != "parent"}
        if spec["extra"]:
            f.update({"file_path": "/x/" + f["file_path_short"], "group_id": "g%d" % i})
        if kids[i] or spec["empty"]:
            f["children"] = [dump(j) for j in kids[i]]
        return dict(reversed(f.items())) if spec["rev"] else f

    session = {"start_time": 1601984370.0, "duration": 0.5, "sample_count": 432, "program": "x.py", "cpu_time": 1.25,
               "root_frame": dump(0)}
    cols = ["name", "file", "line", "is_application_code", "time", "time (inc)"]

    def want(i):
        f = fs[i]
        vals = [f["function"], f["file_path_short"], f["line_no"], f["is_application_code"],
                f["time"] - sum(fs[j]["time"] for j in kids[i]), f["time"]]
        frame = (("name", f["function"]), ("type", "function"))
        return (frame, (((), tuple(repr(norm(v)) for v in vals)),), tuple(sorted((want(j) for j in kids[i]), key=repr)))

    with scratch() as tmp:
        d = read("from_pyinstrument", GraphFrame.from_pyinstrument,
                 put(os.path.join(tmp, "x.json"), json.dumps(session, indent=1 if spec["indent"] else None)))
    metrics(d, ["time"], ["time (inc)"], "from_pyinstrument")
    ensure(len(d["roots"]) == 1, "%d roots", len(d["roots"]))
    diff(canon(d, d["roots"][0], cols), want(0), cols, "from_pyinstrument")
    ensure(len(d["nodes"]) == len(fs), "%d nodes for %d frames", len(d["nodes"]), len(fs))
    usable(d["gf"], "the session read")


def diff(got, exp, cols, what):
    ensure(got[0] == exp[0], "%s: node %r, expected %r", what, got[0], exp[0])
    ensure(got[1] == exp[1], "%s: %r at %r is %r, expected %r", what, cols, got[0], got[1], exp[1])
    ensure([c[0] for c in got[2]] == [c[0] for c in exp[2]], "%s: children of %r are %r, expected %r", what, got[0],
           [c[0] for c in got[2]], [c[0] for c in exp[2]])
    for g, e in zip(got[2], exp[2]):
        diff(g, e, cols, what)
