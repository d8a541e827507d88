#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from spec.py, registry.py, known_findings.jsonl and doc/*.md."""
import json, os
from spec import SPEC, NA
from registry import PROPS
V = os.path.dirname(os.path.abspath(__file__))
rows = []
for pid in sorted(set(SPEC) | set(NA)):
    s = SPEC.get(pid) or NA[pid]
    rows.append({"id": pid, "title": s["title"], "statement": s["stmt"], "quantifier": {"over": s["over"], "text": s["qtext"]}, "why_tests_cant": s["why"],
        "anchors": {"files": s["files"], "mechanism": [{"name": a, "where": b} for a, b in s["mech"]], "observe_at": ["language output, error object and exit status"], "hook_needed": None}})
    assert len(s["title"]) <= 80, pid
open(V + "/properties.jsonl", "w").write("".join(json.dumps(r) + "\n" for r in rows))
checks = []
for pid in sorted(SPEC):
    assert pid in PROPS, pid
    s = SPEC[pid]
    checks.append({"property": pid, "quick_cmd": f"python3 check.py {pid}", "thorough_cmd": f"python3 check.py {pid} --tier thorough", "evidence_file": f"evidence/{pid}.json",
        "technique": "bounded symbolic execution of the LLVM bitcode with an SMT solver (z3)", "level": "model_checking",
        "level_note": "Holds for all values within the bounds: " + s["bounds"] + ". Trusts the symbolic executor (every sampled path is re-run natively and must agree), the C library model and z3; nothing is claimed beyond the bounds."})
json.dump({"version": 1, "setup_cmd": "python3 -c \"import vlib; vlib.build()\"", "checks": checks,
    "not_applicable": [{"property": p, "reason": NA[p]["reason"]} for p in sorted(NA)],
    "notes": "No hooks are needed in /repo: the checks compile its sources as they are. See DESIGN.md."}, open(V + "/MANIFEST.json", "w"), indent=1)
out = [open(V + "/doc/head.md").read()]
for pid in sorted(set(SPEC) | set(NA)):
    s = SPEC.get(pid) or NA[pid]
    out.append(f"### {pid} {s['title']}\n{s['stmt']}\n")
    if pid in NA: out.append("*Not applicable:* " + NA[pid]["reason"] + "\n"); continue
    out.append("*Decided by:* " + s["how"] + "\n\n*Entries:* " + ", ".join(h["entry"] for h in PROPS[pid]["harnesses"]) + "\n\n*Bounds:* " + s["bounds"] + "." + (" *Outside:* " + s["outside"] if s["outside"] else "") + "\n\n*Why tests cannot:* " + s["why"] + "\n")
for f in ("findings.md", "seeded.md"):
    if os.path.exists(V + "/doc/" + f): out.append(open(V + "/doc/" + f).read())
KF = [json.loads(l) for l in open(V + "/known_findings.jsonl") if l.strip()]
out.append("## Defects found on the way\n\nEach was reproduced on the real code and repaired in a `fix:` commit (`fixed`) or recorded (`known`); `known_findings.jsonl` is the machine-readable list.\n\n" + "\n".join("* " + (k.get("record") or k["status"] + ": property=" + k["property"] + " " + k.get("what", "")) for k in KF) + "\n")
import glob
rows = [(os.path.basename(os.path.dirname(f)), json.load(open(f))) for f in sorted(glob.glob(V + "/seeded/*/meta.json"))]
out.append("## Planted bugs and the checks that catch them\n\nEach patch builds, passes the tests, fails its own demonstration and is caught by the quick check of its property unless noted.\n\n| bug | check | needs | note |\n|---|---|---|---|\n" + "\n".join(f"| {n} | {m['property']} | {m['needs']} | {m.get('note','')} |" for n, m in rows) + "\n")
open(V + "/DESIGN.md", "w").write("\n".join(out))
print(len(checks), "checks")
