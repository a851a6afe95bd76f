#!/usr/bin/env python3
"""Applies every planted bug in turn, runs the quick check of its property and records what caught it in design/seeds.json.
Not a check: run by hand on a clean tree."""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = os.path.join(V, "design/seeds.json")
res = json.load(open(out)) if os.path.exists(out) else {}
todo = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for s in todo:
    prop = json.load(open("%s/seeded/%s/meta.json" % (V, s)))["property"]
    if subprocess.run(["git", "-C", "/repo", "apply", "%s/seeded/%s/patch.diff" % (V, s)]).returncode:
        print(s, "does not apply"); continue
    try:
        r = subprocess.run([V + "/check", prop, "quick"], capture_output=True, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    m = re.search(r"^check ([\w.-]+(?:#\w+)?):", r.stdout, re.M)
    caught = r.returncode == 1 and "VIOLATION property=" + prop in r.stdout
    res[s] = (m.group(1) if m else "crash") if caught else "missed"
    print(s, prop, res[s], flush=True)
res = {k: v for k, v in res.items() if os.path.exists(V + "/seeded/" + k)}
json.dump(res, open(out, "w"), indent=1, sort_keys=True)
