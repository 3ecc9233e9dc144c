"""kf.py fixed ID "<subject part>" "<what>"  |  kf.py open ID name replay "<what>": record a finding."""
import json
import os
import subprocess
import sys

p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
if sys.argv[1] == "fixed":
    pid, sub, what = sys.argv[2:]
    log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
    c = [x.split(" ")[0] for x in log if sub in x]
    assert len(c) == 1, c
    d["fixed"].append("fixed: property=%s %s %s" % (pid, c[0], what))
else:
    pid, name, replay, what = sys.argv[2:]
    d["findings"].append({"id": name, "property": pid, "status": "open", "what": what, "replay": replay})
with open(p, "w") as f:
    json.dump(d, f, indent=2)
    f.write("\n")
