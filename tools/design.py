"""Rewrites the generated parts of DESIGN.md (coverage table, bounded contracts, planted bugs) from evidence/ and seeded/.
usage: python3 tools/design.py [caught.txt]   (caught.txt: lines '<seed id> caught|missed', written by tools/runseed.sh)"""
import json, pathlib, re
R = pathlib.Path(__file__).resolve().parent.parent
D = R / "DESIGN.md"


def coverage():
    rows = ["| property | contracts proved | obligations (discharged) | functions under contract / executed through their body | bounded contracts | runtime evaluations | back ends |", "|---|---|---|---|---|---|---|"]
    for f in sorted((R / "evidence").glob("C*.json")):
        c = json.loads(f.read_text())["coverage"]
        n = lambda x: len(x) if isinstance(x, (list, dict)) else x
        rows.append(f"| {f.stem} | {n(c['contracts_proved'])} (not proved: {n(c['contracts_not_proved'])}) | {c['obligations']} ({c['discharged']}) "
                    f"| {len(c['functions_under_contract'])} / {n(c['functions_executed_through_their_body'])} | {n(c['bounded_contracts'])} | {c['evaluations']} "
                    f"| {', '.join(f'{k} {v}' for k, v in sorted(c['backends'].items()))} |")
    return rows


def bounded():
    rows = []
    for f in sorted((R / "evidence").glob("C*.json")):
        b = json.loads(f.read_text())["coverage"]["bounded_contracts"]
        rows.append(f"* **{f.stem}**: " + ("; ".join(x.replace("postbound.", "") for x in b) if b else "none"))
    return rows


def seeded():
    rows = ["| planted bug | property | needs | how the check reports it |", "|---|---|---|---|"]
    res = {}
    p = R / "tools" / "caught.txt"
    if p.exists():
        res = dict(l.split(None, 1) for l in p.read_text().splitlines() if l.strip())
    for d in sorted((R / "seeded").iterdir()):
        m = json.loads((d / "meta.json").read_text())
        rows.append(f"| {d.name} | {m['property']} | {m['needs']} | {res.get(d.name, '').strip()} |".replace("\n", " "))
    return rows


t = D.read_text()
for name, fn in (("coverage", coverage), ("bounded", bounded), ("seeded", seeded)):
    a, b = f"<!-- {name} -->", f"<!-- /{name} -->"
    t = re.sub(re.escape(a) + r".*?" + re.escape(b), lambda _: a + "\n" + "\n".join(fn()) + "\n" + b, t, flags=re.S)
D.write_text(t)
