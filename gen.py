#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, subprocess
from props import PROPS, NA
V = os.path.dirname(os.path.abspath(__file__))


def line(id, p):
    return {"id": id, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
            "observe_at": p.get("observe_at", ["PKCS#11 function list (C_* entry points)"]), "hook_needed": p.get("hook", "cfg(kryoptic_verif): in-memory raw store")}}


with open(f"{V}/properties.jsonl", "w") as f:
    for id, p in sorted(list(PROPS.items()) + NA):
        assert len(p["title"]) <= 80, id
        f.write(json.dumps(line(id, p)) + "\n")
hooks = [c for c in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines() if " hook:" in c or c.split(" ", 1)[1].startswith("hook:")]
man = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "hooks": {"guard": "cfg(kryoptic_verif)", "enable": "build.sh: RUSTFLAGS='--cfg kryoptic_verif' and KRYOPTIC_VERIF_DIR=/verif/harness (the hook includes inlib.rs from there)", "source_commits": [c.split()[0] for c in hooks][::-1]},
    "checks": [],
    "not_applicable": [{"property": id, "reason": p["reason"]} for id, p in sorted(NA)],
    "notes": "solver-based: LLVM IR of the crate, regenerated on every run, executed symbolically by /verif/engine (llsym) with z3; see DESIGN.md",
}
for id, p in sorted(PROPS.items()):
    c = {"property": id, "quick_cmd": f"python3 check.py {id} --tier quick", "technique": p.get("technique", "symbolic execution of the compiled LLVM IR, z3"), "level": p.get("level", "model_checking"),
         "level_note": p.get("note", "Within the stated bounds the solver decides every path of the real code for all symbolic inputs; ") + "Bounds: " + "; ".join(p["bounds"]) + ". Trusts the libcrypto stand-in, the mock record store and the IR interpreter (paths are replayed natively)."}
    c["thorough_cmd"] = f"python3 check.py {id} --tier thorough"
    man["checks"].append(c)
json.dump(man, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(PROPS), "checks", len(NA), "not applicable")
