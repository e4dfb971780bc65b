#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/meta.py."""
import json, os
from meta import PROPS, NOT_APPLICABLE
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(H + "/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p.get("observe", []), "hook_needed": None},
        }) + "\n")
checks = []
for p in PROPS:
    if not p.get("check", True):
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s --tier quick" % p["id"], "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": "symbolic execution of the compiled LLVM IR with Z3 (engine/symx), counterexamples replayed on a sanitizer build",
                   "level": "model_checking", "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "python3 -c 'import run; run.build_engine()'", "checks": checks, "not_applicable": NOT_APPLICABLE,
           "notes": "The encoding (LLVM IR) is regenerated from /repo on every run; no hooks in /repo are needed."}, open(H + "/MANIFEST.json", "w"), indent=1)

import re, glob
def entries(pid):
    for f in sorted(glob.glob(H + "/harness/%s*.c" % pid.lower())):
        for m in re.finditer(r"/\* @q (.*?)\|(.*?)\*/\s*void (h_\w+)\(void\)", open(f).read(), re.S):
            yield m.group(3), m.group(1), " ".join(m.group(2).split())
caught = json.load(open(H + "/tools/seeded.json")) if os.path.exists(H + "/tools/seeded.json") else {}
o = open(H + "/tools/design_head.md").read() + "## Properties\n"
for p in PROPS:
    o += "\n### %s %s\n\n%s\n\nQuantified over: %s. %s\n\nAnchors: %s.\n\n%s\n\nEntries and bounds:\n\n" % (
        p["id"], p["title"], p["statement"], p["quant"], p["why"], "; ".join("%s (%s)" % m for m in p["mech"]), p["note"])
    for n, opts, text in entries(p["id"]):
        o += "- `%s`%s: %s\n" % (n, " (thorough)" if "tier=thorough" in opts else "", text)
if NOT_APPLICABLE:
    o += "\n## Not applicable\n\n" + "".join("- %s: %s\n" % (n["property"], n["reason"]) for n in NOT_APPLICABLE)
o += "\n## Findings on the pinned commit\n\nRecorded in `known_findings.txt`; `fixed` entries are repaired by the named commit in /repo.\n\n"
for l in open(H + "/known_findings.txt"):
    if l.startswith("fixed:"):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l); o += "- fixed, %s, %s: %s\n" % m.groups()
    elif l.startswith("KNOWN"):
        m = re.match(r"KNOWN id=(\S+) property=(\S+) .*?\| (.*)", l); o += "- known, %s (%s): %s\n" % (m.group(2), m.group(1), m.group(3))
o += "\n## Planted bugs\n\nEach in `seeded/<id>`; written from the property's text, kept whether caught or not.\n\n| bug | needs | breaks | caught |\n|---|---|---|---|\n"
for d in sorted(glob.glob(H + "/seeded/*")):
    i = os.path.basename(d); m = json.load(open(d + "/meta.json"))
    o += "| %s | %s | %s | %s |\n" % (i, m["needs"], m["what_it_breaks"], caught.get(i, "?"))
o += "\n" + open(H + "/tools/design_tail.md").read()
open(H + "/DESIGN.md", "w").write(o)
