#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand: python3 tools/props.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NOT_APPLICABLE = []
CLAIMED = []


def prop(pid, title, statement, over, text, why, files, mechanism, note, observe=(), claim=True, level="proof"):
    assert len(title) <= 80, title
    PROPS.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": text},
                  "why_tests_cant": why,
                  "anchors": {"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                              "observe_at": list(observe), "hook_needed": None}})
    if claim:
        CLAIMED.append((pid, note, level))


exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "python3-vt -c \"import z3, sys; sys.exit(0)\"",
        "checks": [{
            "property": pid,
            "quick_cmd": f"python3-vt check.py {pid} --tier quick",
            "thorough_cmd": f"python3-vt check.py {pid} --tier thorough",
            "technique": "contract-based deductive verification (VC generation from /repo's source, z3), contracts also executed on the real code"
            + ("" if level == "proof" else "; most functions of this property are checked by the bounded execution of their contracts"),
            "level": level,
            "level_note": note,
        } for pid, note, level in CLAIMED],
        "not_applicable": NOT_APPLICABLE,
    }, f, indent=1)
    f.write("\n")
