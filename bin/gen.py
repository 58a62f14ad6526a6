#!/usr/bin/env python3
"""Renders properties.jsonl and MANIFEST.json from props.py."""
import json, subprocess, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, V
LEVEL = "Bounded: symbolic execution of the release LLVM IR of /repo with an SMT solver deciding every branch and assertion, exhaustive within the stated bounds (see DESIGN.md); nothing is claimed outside them. Trusts rustc's IR, the engine (cross-validated by native replay of path models on every run) and Z3."
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS.values():
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]: a["observe_at"] = p["observe"]
        a["hook_needed"] = None if p["na"] else "in-memory object store injection (cfg hudi_verif)"
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s", "--reverse"], capture_output=True, text=True).stdout.splitlines()
hooks = [c.split()[0] for c in commits if c.split(" ", 1)[1].startswith("verif:")]
m = {"version": 1, "setup_cmd": "python3 bin/setup.py",
     "hooks": {"guard": "hudi_verif (a rustc --cfg)", "enable": "RUSTFLAGS='--cfg hudi_verif' set by bin/build.py for the harness crates in /verif/harness, which depend on /repo/crates/* by path", "source_commits": hooks},
     "checks": [{"property": p["id"], "quick_cmd": "python3 bin/check.py %s" % p["id"], "thorough_cmd": "python3 bin/check.py %s --thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": "symbolic execution of the real code's LLVM IR + SMT (Z3)", "level": "model_checking", "level_note": p["level_note"] or LEVEL} for p in PROPS.values() if not p["na"]],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS.values() if p["na"]],
     "notes": "Known findings and repaired defects: known-findings.txt. Dev helpers: bin/e (one harness), bin/rt (repo tests), bin/seed.py (planted bugs)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
for p in PROPS.values(): assert len(p["title"]) <= 80, p["id"]; assert p["statement"].count(". ") <= 2, p["id"]
import jsonschema
S = lambda n: json.load(open("/root/.vp/%s.schema.json" % n))
jsonschema.validate(m, S("MANIFEST"))
for l in open(V + "/properties.jsonl"): jsonschema.validate(json.loads(l), S("PROPERTIES"))
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
