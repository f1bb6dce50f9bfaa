#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md.   mkdesign.py [chk.<id>.txt files with the output of the checks ...]"""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
store = os.path.join(V, "tools", "caught.json")
caught = json.load(open(store)) if os.path.exists(store) else {}
for f in sys.argv[1:]:
    i = os.path.basename(f)[4:-4]
    t = open(f, errors="replace").read()
    m = re.search(r"^# class=(\S+)", t, re.M)
    v = re.search(r"^VIOLATION property=(\S+)", t, re.M)
    caught[i] = "%s `%s`" % (v.group(1), m.group(1)) if m and v else "missed"
rows = []
ids = sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(os.path.join(V, "seeded", "*", "meta.json")))
for i in ids:
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    rows.append("| %s | %s | %s |" % (i, m["needs"].replace("|", "/"), caught.get(i, "?")))
caught = {i: caught[i] for i in ids if i in caught}
json.dump(caught, open(store, "w"), indent=1, sort_keys=True)
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
a, b = "<!-- bugs -->\n", "<!-- /bugs -->"
t = t[:t.index(a) + len(a)] + "| bug | needs | caught by |\n|---|---|---|\n" + "\n".join(rows) + "\n" + t[t.index(b):]
open(p, "w").write(t)
