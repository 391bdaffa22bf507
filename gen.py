#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from texts.py and spec.py."""
import json, subprocess
import spec
from texts import T, NOT_APPLICABLE
with open("/verif/properties.jsonl", "w") as f:
    for k in sorted(T):
        f.write(json.dumps({"id": k, **T[k]}, ensure_ascii=False) + "\n")
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s", "4c92065..HEAD"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("verif:")]
checks = []
for k in sorted(spec.PROPS):
    pr = spec.PROPS[k]
    checks.append({"property": k, "quick_cmd": "python3 check.py %s quick" % k, "thorough_cmd": "python3 check.py %s thorough" % k, "evidence_file": "evidence/%s.json" % k,
        "technique": "symbolic execution of the compiled code (LLVM IR) with Z3, counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "Decided by the solver for all values within: %s. Outside: %s." % (pr["bounds"], pr["outside"].strip().rstrip(";"))})
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "cfg(monolith_verif)", "enable": "RUSTFLAGS=\"--cfg monolith_verif\"", "source_commits": hooks},
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT_APPLICABLE.items())],
     "notes": "build.sh mirrors /repo/src into build/mirror (leaving out what names the unavailable tikv-client dependency, as /opt/vp does) and compiles it with the harnesses; engine/ is the symbolic executor; see DESIGN.md."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
