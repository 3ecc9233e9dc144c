"""setprop.py ID [--title T] STATEMENT: set a property's statement in properties.jsonl"""
import json
import sys

a = sys.argv[1:]
pid = a.pop(0)
title = None
if a[0] == "--title":
    title = a[1]
    a = a[2:]
rows = [json.loads(x) for x in open("/verif/properties.jsonl")]
for p in rows:
    if p["id"] == pid:
        p["statement"] = a[0]
        if title:
            p["title"] = title
            assert len(title) <= 80
open("/verif/properties.jsonl", "w").write("".join(json.dumps(p) + "\n" for p in rows))
