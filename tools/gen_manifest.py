#!/usr/bin/env python3
"""Writes MANIFEST.json from the harnesses present (PROPS headers) and the property list."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
flav = {}
for f in glob.glob(V + "/h/*.cpp"):
    t = open(f).read()
    m = re.search(r"^// PROPS: (.*)$", t, re.M); fl = re.search(r"^// FLAVOR: (.*)$", t, re.M)
    for p in (m.group(1).split() if m else []):
        flav.setdefault(p, set()).add(fl.group(1).strip() if fl else "asan")
NA = {}
TECH = {
 "sched": "Stateless model checking of the implementation: the real C code runs under a controlled scheduler and every interleaving up to the stated preemption bound is executed and judged.",
 "asan": "Bounded exhaustive exploration of the implementation: every operation sequence, input and environment answer (allocation, read, seek, write or close failing) within the stated bounds is executed on the real code under address sanitizer and compared with a reference model.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in flav:
        na.append({"property": i, "reason": NA.get(i, "The harness for this property is not part of this commit yet.")})
        continue
    fl = sorted(flav[i])
    checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "technique": "model checking. " + " ".join(TECH[x] for x in fl), "level": "model_checking",
        "level_note": "Exhaustive within the bounds named per suite in the evidence file and DESIGN.md; the explored object is the code compiled from the working tree, not a model of it."})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
