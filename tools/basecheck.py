"""basecheck OUT.json: stable tests that failed"""
import json, sys
d = json.load(open(sys.argv[1])); b = json.load(open('/opt/vp/BASELINE.json'))
print("missing:", [t for t in b["stable"] if t not in d["passed"]], "passed", len(d["passed"]))
