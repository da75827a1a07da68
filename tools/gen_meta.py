#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the check table in check/checks.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools")); sys.path.insert(0, os.path.join(ROOT, "harness"))
from props import PROPS
try:
    from checks import CHECKS, NOT_APPLICABLE
except ImportError:
    CHECKS, NOT_APPLICABLE = {}, {}
from_ids = [p["id"] for p in PROPS]
assert len(set(from_ids)) == len(from_ids)
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    for f in p["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), (p["id"], f)
with open(f"{ROOT}/properties.jsonl", "w") as f:
    for p in PROPS: f.write(json.dumps(p, ensure_ascii=False) + "\n")
import subprocess
HOOKS = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines() if "cfg(tailcall_verif)" in l]
m = dict(version=1, setup_cmd="bash harness/setup.sh",
         hooks=dict(guard="cfg(tailcall_verif)", enable="RUSTFLAGS=--cfg tailcall_verif (harness/build.sh)", source_commits=HOOKS),
         checks=[dict(property=i, quick_cmd=f"python3 harness/check.py {i} --tier quick",
                      thorough_cmd=f"python3 harness/check.py {i} --tier thorough",
                      evidence_file=f"evidence/{i}.json", technique=c["technique"], level=c["level"],
                      level_note=c["note"]) for i, c in CHECKS.items()],
         not_applicable=[dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet"))
                         for i in from_ids if i not in CHECKS],
         notes="TLA+ specifications in spec/, checked with TLC and bound to the code by replay and trace validation; see DESIGN.md.")
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(PROPS), "properties;", len(CHECKS), "claimed")
