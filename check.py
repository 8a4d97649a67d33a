#!/usr/bin/env python3
"""check.py PROPERTY  — decides one property: discharges every obligation of its contracts on /repo's current source
and searches the same contracts at run time on the real code."""
import argparse
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PYDV_REPO", "/repo")
RTPY = os.environ.get("PYDV_PY", "/opt/venv/bin/python")
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

REG = None
SHARDS = 4


def modules_for(prop):
    with open(os.path.join(HERE, "contracts", "index.json")) as f:
        return json.load(f)[prop]


def prove_one(job):
    name, target, budget = job
    from pydv import verify
    con = next(c for c in REG.all if c.name == name)
    try:
        return verify.verify_one(REG, con, target, time.time() + budget)
    except BaseException as e:      # an engine failure is "undecided", never a violation
        return {"contract": name, "target": target or f"lemma {name}", "status": "unsupported", "obligations": [], "paths": 0,
                "solver_time": 0.0, "inlined": [], "used": [], "taint": [], "cover": "unknown",
                "reason": f"engine: {type(e).__name__}: {e}", "trace": traceback.format_exc()[-800:]}


def limit_memory():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def run_proofs(mods, prop, tier, only=None):
    """each module of contracts is loaded and proved on its own: their families of types may overlap"""
    out, trusted, bounded = [], [], []
    ctx = mp.get_context("fork")
    for m in mods:
        here, there = ctx.Pipe(False)
        p = ctx.Process(target=lambda: there.send(prove_module(m, prop, tier, only)))
        p.start()
        there.close()
        try:
            o, t, b = here.recv()
        except EOFError:
            raise RuntimeError(f"proving {m} ended early")
        finally:
            p.join()
        out, trusted, bounded = out + o, trusted + t, bounded + b
    return out, trusted, bounded


def prove_module(m, prop, tier, only=None):
    global REG
    os.environ.setdefault("PYDV_RLIMIT", "4000000" if tier == "quick" else "16000000")
    from pydv import verify
    REG = verify.load([m])
    jobs = []
    budget = 240 if tier == "quick" else 1500
    for con in REG.all:
        if prop not in con.cls.props or con.cls.trusted or con.cls.bounded:
            continue
        if only and con.name not in only:
            continue
        for t in con.targets():
            jobs.append((con.name, t, budget))
    jobs.sort(key=lambda j: -getattr(next(c for c in REG.all if c.name == j[0]).cls, "proof_weight", 1))
    out = []
    trusted = sorted({c.name + " on " + str(c.cls.target) + (": " + c.cls.note if c.cls.note else "") for c in REG.all
                      if c.cls.trusted})
    if jobs:
        ctx = mp.get_context("fork")
        with cf.ProcessPoolExecutor(max_workers=min(8, os.cpu_count() or 4), mp_context=ctx, initializer=limit_memory) as ex:
            futs = {ex.submit(prove_one, j): j for j in jobs}
            for f in cf.as_completed(futs):
                try:
                    out.append(f.result())
                except BaseException as e:
                    j = futs[f]
                    out.append({"contract": j[0], "target": j[1] or f"lemma {j[0]}", "status": "unsupported", "obligations": [],
                                "paths": 0, "solver_time": 0.0, "inlined": [], "used": [], "taint": [], "cover": "unknown",
                                "reason": f"worker: {type(e).__name__}: {e}"})
    # what a worker names its terms depends on the contracts it proved before, which can mislead the solver: once more, in fresh processes
    again = [i for i, r in enumerate(out) if r["status"] == "undischarged"]
    if again and len(again) <= 8:
        names = {(j[0], j[1] or f"lemma {j[0]}"): j for j in jobs}
        redo = [(i, names[out[i]["contract"], out[i]["target"]]) for i in again if (out[i]["contract"], out[i]["target"]) in names]
        try:
            with mp.get_context("fork").Pool(4, initializer=limit_memory, maxtasksperchild=1) as pool:
                for (i, _), r in zip(redo, pool.map_async(prove_one, [j for _, j in redo], chunksize=1).get(timeout=200)):
                    if r["status"] == "proved":
                        out[i] = r
        except Exception:
            pass
    out.sort(key=lambda r: (r["contract"], r["target"]))
    return out, trusted, [c.name + "[" + str(c.cls.target) + "]" + (": " + c.cls.note if c.cls.note else "") for c in REG.all if prop in c.cls.props and c.cls.bounded]


def reject_circular(proofs):
    """a lemma may not be used, directly or through other contracts, in its own proof"""
    uses = {}
    for r in proofs:
        uses.setdefault(r["contract"], set()).update(r["used"])
    for r in proofs:
        todo, seen = [u[6:] for u in r["used"] if u.startswith("lemma ")], set()
        while todo:
            c = todo.pop()
            if c in seen:
                continue
            seen.add(c)
            todo += [u[6:] if u.startswith("lemma ") else u for u in uses.get(c, ())]
        if r["contract"] in seen and r["status"] == "proved":
            r["status"], r["reason"] = "unsupported", "circular use of lemmas"


def start_runtime(mods, prop, seed, tier):
    procs = []
    outdir = os.path.join(HERE, "evidence", "run")
    os.makedirs(outdir, exist_ok=True)
    cases = 400 if tier == "quick" else 12000
    cap = 25 if tier == "quick" else 240
    for k in range(SHARDS):
        out = os.path.join(outdir, f"{prop}.{k}.json")
        if os.path.exists(out):
            os.unlink(out)
        env = dict(os.environ, PYDV_MODE="concrete", PYTHONPATH=f"{REPO}:{HERE}", PYTHONHASHSEED=str((seed + k) % 4294967295),
                   PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.Popen([RTPY, "-m", "pydv.runtime", "--mods", ",".join(mods), "--prop", prop, "--seed", str(seed), "--cases",
                              str(cases), "--cap", str(cap), "--shard", f"{k}/{SHARDS}", "--out", out], cwd=HERE, env=env,
                             stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        procs.append((p, out))
    return procs


def collect_runtime(procs, tier):
    merged, errors = {}, []
    for p, out in procs:
        try:
            _, err = p.communicate(timeout=600 if tier == "quick" else 7200)
        except subprocess.TimeoutExpired:
            p.kill()
            _, err = p.communicate()
            errors.append("runtime search: time limit")
        if p.returncode != 0:
            errors.append("runtime search: " + (err or b"").decode(errors="replace")[-1500:])
        try:
            with open(out) as f:
                d = json.load(f)
            if d.get("load_error"):
                errors.append("runtime search: " + d["load_error"])
            merged.update(d["contracts"])
        except Exception as e:
            errors.append(f"runtime search: no result ({e})")
    return merged, errors


def known_findings(prop):
    p = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def baseline(prop):
    p = os.path.join(HERE, "baseline", f"{prop}.json")
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)
    return {}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--update-baseline", action="store_true")
    ap.add_argument("--only", default="")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    mods = modules_for(prop)
    known = known_findings(prop)
    listed = {(k["contract"], k["id"]) for k in known}
    procs = start_runtime(mods, prop, a.seed, a.tier)
    proofs, trusted, bounded = [], [], []
    engine_error = None
    try:
        proofs, trusted, bounded = run_proofs(mods, prop, a.tier, a.only.split(",") if a.only else None)
        reject_circular(proofs)
    except BaseException as e:
        engine_error = f"{type(e).__name__}: {e}" + traceback.format_exc()[-1500:]
    rt, rt_errors = collect_runtime(procs, a.tier)

    base = baseline(prop)
    replays = os.path.join(HERE, "evidence", "replays")
    os.makedirs(replays, exist_ok=True)
    violations, undecided, knowns = [], [], set()
    for key, r in sorted(rt.items()):
        for v in r["violations"]:
            if v.get("known") and (v["contract"], v["known"]) in listed:
                knowns.add((v["contract"], v["known"]))
                continue
            violations.append(("runtime", v))
    failed_runtime = {v["contract"] for k, v in violations}
    for r in proofs:
        bkey = f"{r['contract']}@{r['target']}"
        was = base.get(bkey, {}).get("status")
        if r["status"] in ("refuted", "undischarged") and was == "proved":
            bad = [o for o in r["obligations"] if o["status"] in ("refuted", "unknown")]
            if r["contract"] not in failed_runtime:
                violations.append(("proof", {"contract": r["contract"], "target": r["target"], "failed": bad}))
        if r["status"] != "proved":
            undecided.append({"contract": r["contract"], "target": r["target"], "status": r["status"], "reason": r.get("reason", ""),
                              "baseline": was, "failed": [o["name"] for o in r["obligations"] if o["status"] != "proved"][:10]})
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")

    lines = []
    seen = set()
    for i, (kind, v) in enumerate(violations):
        ident = (v["contract"], v["target"])
        if ident in seen:
            continue
        seen.add(ident)
        path = os.path.join(replays, f"{prop}-{len(lines)}-{v['contract']}.json")
        rec = {"property": prop, "kind": kind, **v}
        if kind == "runtime":
            rec["replay_cmd"] = (f"cd {HERE} && PYDV_MODE=concrete PYTHONPATH={REPO}:{HERE} PYTHONHASHSEED={a.seed} {RTPY} -m pydv.runtime "
                                 f"--mods {','.join(mods)} --prop {prop} --seed {a.seed} --only {v['contract']} --case {v['case']}")
        else:
            rec["note"] = ("this obligation is discharged on the committed baseline and is not discharged on the current source; "
                           "the runtime search found no failing input")
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        tail = "" if kind == "runtime" else " no-failing-input-found"
        lines.append(f"VIOLATION property={prop} replay={path}{tail}")
        if kind == "runtime":
            print(f"  {v['contract']} on {v['target']}: {v['clause']}: {v['detail'][:300]}")
        else:
            print(f"  {v['contract']} on {v['target']}: not discharged: {[o['name'] for o in v['failed']][:3]}")

    nobl = sum(len(r["obligations"]) for r in proofs)
    ndis = sum(1 for r in proofs for o in r["obligations"] if o["status"] == "proved")
    proved = [r for r in proofs if r["status"] == "proved"]
    evals = sum(r["evaluations"] for r in rt.values())
    samples = [s for r in rt.values() for s in r["samples"][:1]][:6]
    inl = sorted({f for r in proofs for f in r["inlined"]})
    used = sorted({f for r in proofs for f in r["used"]})
    ev = {
        "property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed,
        "level": level_of(prop),
        "coverage": {
            "obligations": nobl, "discharged": ndis,
            "checker_cmd": f"python3-vt check.py {prop} (pydv: VC generation from {REPO} sources, z3 {z3_version()} as back end)",
            "trusted_base": TRUSTED + [f"trusted contract: {t}" for t in trusted],
            "functions_under_contract": sorted({r["target"] for r in proofs if not r["target"].startswith("lemma ")}),
            "lemmas": sorted({r["contract"] for r in proofs if r["target"].startswith("lemma ")}),
            "contracts_proved": sorted({f"{r['contract']}[{r['target']}]" for r in proved}),
            "contracts_not_proved": undecided,
            "functions_executed_through_their_body": inl, "contracts_used_at_calls": used,
            "backends": backends(proofs), "solver_time_s": round(sum(r["solver_time"] for r in proofs), 2),
            "paths": sum(r["paths"] for r in proofs),
            "vacuity": {r["contract"] + "@" + r["target"]: r["cover"] for r in proofs if r["cover"] != "sat"},
            "abstractions": sorted({t for r in proofs for t in r["taint"]}),
            "bounded_contracts": sorted(set(bounded)),
            "evaluations": evals, "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in rt.values()),
            "rule": "runtime-contract search: seeded random arguments per contract (small sizes first, literals mined from the function); "
                    "non-trivial when an argument carries content, distinct by structural fingerprint",
            "skipped_by_precondition": sum(r["skipped"] for r in rt.values()),
            "runtime_contracts": {k: {"evaluations": r["evaluations"], "distinct": r["distinct_nontrivial"]} for k, r in sorted(rt.items())},
            "runtime_errors": [e[:600] for r in rt.values() for e in r["errors"]][:20] + rt_errors,
            "runtime_capped": [c for r in rt.values() for c in r["capped"]][:20],
            "samples": samples or ["none"],
            "explanation": "obligations discharged deductively for all inputs; the runtime search is bounded and replays/complements them",
            "engine_error": engine_error,
        },
        "assumptions": assumptions(mods),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(lines),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if a.update_baseline:
        os.makedirs(os.path.join(HERE, "baseline"), exist_ok=True)
        with open(os.path.join(HERE, "baseline", f"{prop}.json"), "w") as f:
            json.dump({f"{r['contract']}@{r['target']}": {"status": r["status"], "obligations": len(r["obligations"])} for r in proofs}, f,
                      indent=1, sort_keys=True)
    print(f"{prop}: contracts {len(proved)}/{len(proofs)} proved, obligations {ndis}/{nobl} discharged, runtime evaluations {evals}, "
          f"undecided {len(undecided)}, {ev['wall_s']} s")
    if a.v:
        for u in undecided:
            print("   undecided:", u)
        for e in ev["coverage"]["runtime_errors"]:
            print("   runtime error:", e)
        print("   capped:", ev["coverage"]["runtime_capped"])
        print("   engine error:", engine_error)
    for ln in lines:
        print(ln)
    sys.exit(1 if lines else 0)


def z3_version():
    import z3
    return z3.get_version_string()


def backends(proofs):
    out = {}
    for r in proofs:
        for o in r["obligations"]:
            if o["status"] == "proved":
                out[o.get("backend", "z3")] = out.get(o.get("backend", "z3"), 0) + 1
    return out


def level_of(prop):
    try:
        with open(os.path.join(HERE, "MANIFEST.json")) as f:
            for c in json.load(f)["checks"]:
                if c["property"] == prop:
                    return c["level"]
    except Exception:
        pass
    return "proof"


TRUSTED = ["pydv VC generator (Python subset semantics, /verif/pydv)", "z3 SMT solver", "CPython ast parser"]


def assumptions(mods):
    out = ["integers are mathematical; floats are extended reals (nan, +-inf, exact reals): rounding is not modelled",
           "strings are opaque values compared by identity of content (length, case mapping and concatenation uninterpreted unless stated)",
           "declared parameter types hold; objects of the declared immutable families are only changed through their constructors",
           "termination is not proved; recursion is checked against contracts (partial correctness)"]
    try:
        import importlib
        for m in mods:
            out += list(getattr(importlib.import_module(m), "ASSUMPTIONS", ()))
    except Exception:
        pass
    return out


if __name__ == "__main__":
    main()
