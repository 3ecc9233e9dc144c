import os
import shutil
import tempfile

from hv import strat as st

from .. import gen
from ..build import GraphFrame, assert_unchanged, snap
from ..core import ensure, sut
from ..model import check_links
from ..rt import by_nid, by_uid, compare, prep, rt_gframes
from .c14 import features

EXAMPLES = {"quick": 3600, "thorough": 20000}
RULE = (
    "GraphFrames as in C14 saved to and loaded from HDF5 files in a scratch directory under default or given keys, "
    "alone or two in one file, repeatedly; compared node by node (identified by a column of unique tags); "
    "non-trivial: as C14"
)
ASSUMPTIONS = [
    "the run metadata and node ids are not part of the saved form",
    "the type of a number (int or float) is not compared",
]


@st.composite
def strategy(draw, tier):
    return {"gf": draw(rt_gframes(tier, kinds=gen.ANY_INDEX)), "other": draw(rt_gframes(tier, max_nodes=4)) if draw(gen.weighted((True, 1), (False, 2))) else None,
            "keys": [draw(st.sampled_from([None, "k", "hatchet_graphframe", "a_b"])), "second"],
            "default": draw(st.sampled_from([None, "time", "peak x"])), "twice": draw(gen.weighted((False, 3), (True, 1)))}


def check(spec, case):
    gf = prep(spec["gf"])
    if spec["default"]:
        gf.default_metric = spec["default"]
    want = by_uid(gf, "input")
    features(by_nid(gf, "input"), case)
    jobs = [(gf, want, spec["keys"][0], snap(gf))]
    if spec["other"]:
        case.label("two in one file")
        b = prep(spec["other"])
        jobs.append((b, by_uid(b, "input"), spec["keys"][1], snap(b)))
    tmp = tempfile.mkdtemp(prefix="hv-c16-")
    try:
        path = os.path.join(tmp, "gf.h5")
        for g, w, key, before in jobs:
            with sut("to_hdf"):
                g.to_hdf(path, **({"key": key} if key else {}))
            assert_unchanged(before, g, "to_hdf")
        for turn in range(2 if spec["twice"] else 1):
            loaded = []
            for g, w, key, before in jobs:
                kw = {"key": key or "hatchet_graphframe"} if len(jobs) > 1 or turn else ({"key": key} if key and key != "k" else {})
                with sut("from_hdf"):
                    back = GraphFrame.from_hdf(path, **kw)
                check_links(back.graph, "from_hdf")
                compare(w, by_uid(back, "from_hdf"), "from_hdf")
                ensure(back.default_metric == g.default_metric, "from_hdf: default metric is %r, expected %r", back.default_metric, g.default_metric)
                with sut("graph comparison"):
                    ensure(back.graph == g.graph, "the graph read back is not equal to the source's")
                loaded.append(back)
            if turn == 0 and spec["twice"]:
                path = os.path.join(tmp, "again.h5")
                for back, (g, w, key, before) in zip(loaded, jobs):
                    with sut("to_hdf of a loaded GraphFrame"):
                        back.to_hdf(path, key=key or "hatchet_graphframe")
    finally:
        shutil.rmtree(tmp)
