"""mkseed.py SPEC.py: makes seeded/<id>/ from a spec: ID, PROPERTY, EDITS [(file, old, new)], NEEDS, BREAKS, DEMO (python source)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}
exec(open(sys.argv[1]).read(), spec)
out = os.path.join(V, "seeded", spec["ID"])
os.makedirs(out, exist_ok=True)
tmp = tempfile.mkdtemp()
try:
    for f, old, new in spec["EDITS"]:
        a, b = os.path.join(tmp, "a", f), os.path.join(tmp, "b", f)
        if not os.path.exists(b):
            os.makedirs(os.path.dirname(a), exist_ok=True)
            os.makedirs(os.path.dirname(b), exist_ok=True)
            shutil.copy(os.path.join("/repo", f), a)
            shutil.copy(os.path.join("/repo", f), b)
        s = open(b).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(b, "w").write(s.replace(old, new))
    d = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=tmp, stdout=subprocess.PIPE, text=True).stdout
finally:
    shutil.rmtree(tmp)
open(os.path.join(out, "patch.diff"), "w").write(d)
open(os.path.join(out, "demo.py"), "w").write(spec["DEMO"].lstrip("\n"))
p = os.path.join(out, "demo.sh")
open(p, "w").write('#!/bin/bash\n# run in the repository: 0 if the behaviour is right\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
os.chmod(p, 0o755)
json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
