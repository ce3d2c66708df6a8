#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and known-findings.txt from props.py, checks.py and findings.py."""
import json, os
from props import P
from checks import CHECKS
V = os.path.dirname(os.path.abspath(__file__))
with open(V + "/properties.jsonl", "w") as f:
    for i in sorted(P):
        p = P[i]
        f.write(json.dumps(dict(id=i, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                         observe_at=p["observe"], hook_needed=None))) + "\n")
TECH = {"C30": "runtime monitoring: AddressSanitizer and UndefinedBehaviorSanitizer over all workloads", "C31": "runtime monitoring: ThreadSanitizer over concurrent workloads with injected delays"}
m = dict(version=1, setup_cmd="python3 vt.py setup",
    checks=[dict(property=i, quick_cmd="python3 vt.py check %s" % i, thorough_cmd="python3 vt.py check %s --tier thorough" % i,
                 technique=TECH.get(i, "runtime monitoring: sanitizer-instrumented workloads decided by " + P[i].get("tech", "a reference-model oracle")),
                 level=CHECKS[i].get("level", P[i]["level"]), level_note=P[i]["note"]) for i in sorted(P) if i in CHECKS],
    not_applicable=[dict(property=i, reason="check not built yet") for i in sorted(P) if i not in CHECKS],
    notes="No hooks are needed in /repo: the harnesses observe the public interface and interpose libc calls in their own executables. See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
