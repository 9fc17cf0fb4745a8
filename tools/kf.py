"""Writes known_findings.jsonl: repaired defects (from the fix: commits of /repo) and recorded findings."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
commits = [l.split(" ", 1) for l in log.splitlines() if " fix: " in l]
exec(open(os.path.join(V, "tools", "findings.py")).read())
out = []
for i, (h, s) in enumerate(commits):
    props = next((p for k, p in FIXED if k in s), None)
    if not props:
        raise SystemExit("no property for: " + s)
    p = props.split()[0]
    out.append({"status": "fixed: property=%s %s" % (p, h), "property": p, "id": "F%02d" % (i + 1), "what": "fixed: property=%s %s %s" % (p, h, s[5:])})
for f in FINDINGS:
    out.append(dict(status="finding", **f))
with open(os.path.join(V, "known_findings.jsonl"), "w") as o:
    for r in out:
        o.write(json.dumps(r) + "\n")
print(len(commits), "fixed,", len(FINDINGS), "findings")
