"""reg.py Cxx module[,module] [fix commits…]: register a property's contract modules and the repairs it led to"""
import json, subprocess, sys
pid, mods, commits = sys.argv[1], sys.argv[2].split(","), sys.argv[3:]
p = "/verif/contracts/index.json"
d = json.load(open(p))
d[pid] = mods
open(p, "w").write(json.dumps(d, indent=1) + "\n")
p = "/verif/known_findings.jsonl"
s = open(p).read()
with open(p, "a") as f:
    for c in commits:
        h, _, subj = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h %s", c], text=True).strip().partition(" ")
        subj = subj.removeprefix("fix: ")
        if h not in s:
            f.write(json.dumps({"property": pid, "status": "fixed", "commit": h, "entry": f"fixed: property={pid} {h} {subj}"}) + "\n")
