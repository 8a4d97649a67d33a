import sys, time, json
from pydv import verify, api
mods = sys.argv[1].split(",")
only = [a for a in sys.argv[2:] if a != "-v"]
reg = verify.load(mods)
for con in reg.all:
    if con.cls.trusted or con.cls.bounded: continue
    if only and con.name not in only: continue
    for t in con.targets():
        r = verify.verify_one(reg, con, t, time.time() + 300)
        print(f"{r['status']:12} {con.name:28} {t} paths={r['paths']} obl={len(r['obligations'])} t={r.get('time')} solver={r['solver_time']:.2f} {r['reason']}")
        if r.get("trace"): print(r["trace"])
        for o in r["obligations"]:
            if o["status"] != "proved" or "-v" in sys.argv:
                print("     ", o["status"], o["name"], o["time"], str(o.get("detail",""))[:1500 if only else 200])
