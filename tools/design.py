#!/usr/bin/env python3
"""Writes DESIGN.md from doc/*.md, lib/props.py, known_findings.jsonl, seeded/*/meta.json and tools/costs.json."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import props, check
R = check.Run
rd = lambda f: open(os.path.join(V, f)).read()
P = {}
for l in open(V + "/properties.jsonl"):
    d = json.loads(l)
    P[d["id"]] = d
costs = json.load(open(V + "/tools/costs.json")) if os.path.exists(V + "/tools/costs.json") else {}
out = [rd("doc/design.head.md")]
body = rd("doc/design.props.md")
i = body.index("## 5. Properties")
out.append(body[:i])
out.append("## 4. Properties and their quick checks\n\nSeconds of run time are those measured here with the whole machine free, without building.\n")
out.append("| id | property | quick runs (driver/port/build/processes × cases) | observed events required | s |\n|---|---|---|---|---|")
for k in sorted(props.PROPS):
    p = props.PROPS[k]
    rs = p["runs"]("quick", R)
    if len(rs) > 12:
        runs = "%d runs of %s" % (len(rs), ", ".join(sorted({r.driver for r in rs})))
    else:
        runs = ", ".join("%s/%s/%s%s/%d×%d" % (r.driver, r.port, r.san, "+env" if r.env else "", r.np, r.n) + ("(%s)" % r.mode if r.mode else "") for r in rs)
    out.append("| %s | %s | %s | %s | %s |" % (k, P[k]["title"], runs, ", ".join("%s≥%d" % x for x in sorted(p["floors"].items())), costs.get(k, "")))
out.append("\n" + body[i:])
out.append("## 6. Genuine defects found\n\nEvery repaired one is a `fix:` commit in `/repo` (the original tree shows the violation, the repaired one does not); `known_findings.jsonl` is the file the checks read.\n")
by = {}
for l in open(V + "/known_findings.jsonl"):
    d = json.loads(l)
    by.setdefault(d["property"], []).append(d)
n = sum(len(x) for x in by.values())
out.append("%d defects, by the property that showed them:\n" % n)
for k in sorted(by):
    out.append("* **%s**" % k)
    for d in by[k]:
        if d.get("status") == "finding":
            out.append("  * recorded, not repaired: **%s** %s" % (d["id"], d["what"]))
        else:
            f = d["what"].split(" ", 3)
            out.append("  * `%s` %s" % (f[2], f[3]))
out.append("")
out.append(rd("doc/design.tail.md"))
out.append("| change | property | needs | caught by |\n|---|---|---|---|")
notes = json.load(open(V + "/tools/seednotes.json")) if os.path.exists(V + "/tools/seednotes.json") else {}
for m in sorted(glob.glob(V + "/seeded*/*/meta.json")):
    s = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    out.append("| %s | %s | %s | %s |" % (s, d["property"], d["needs"].replace("|", "/") + ": " + d["what_it_breaks"].replace("|", "/"), notes.get(s, d["property"])))
x = notes.get("_tail")
if x:
    out.append("\n" + x)
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
