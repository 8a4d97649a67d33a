"""Loads contract files, generates and discharges proof obligations."""
from __future__ import annotations
import ast
import importlib
import os
import subprocess
import time
import traceback
import z3

from . import api, types as T, sorts as Z
from .sorts import Unsupported
from .source import REPO, FuncInfo
from .values import *
from .engine import Frame
from .calls import Engine

CVC5_RLIMIT = int(os.environ.get("PYDV_CVC5_RLIMIT", "200000"))
RLIMIT = int(os.environ.get("PYDV_RLIMIT", "4000000"))
PATH_LIMIT = 3000


class ConInfo:
    def __init__(self, cls):
        self.cls = cls
        self.name = cls.__name__
        self.mod = REPO.module(cls.__module__)
        self.ci = self.mod.classes[cls.__name__]
        self.requires, self.ensures, self.raises, self.lemma, self.induct, self.uses = [], [], {}, None, None, None
        self.loop_invs = {}
        seen = set()
        for c in self.ci.mro():
            for n, fi in c.methods.items():
                if n in seen:
                    continue
                seen.add(n)
                if n.startswith("requires"):
                    self.requires.append(fi)
                elif n.startswith("ensures"):
                    self.ensures.append(fi)
                elif n == "lemma":
                    self.lemma = fi
                elif n == "induct":
                    self.induct = fi
                elif n == "uses":
                    self.uses = fi
        for exc, m in (cls.raises.items() if isinstance(cls.raises, dict) else ()):
            self.raises[exc] = self.ci.lookup(m)[1]

    def targets(self):
        if self.lemma is not None:
            return [None]
        return self.cls.verify or [self.cls.target]


class Registry:
    def __init__(self):
        self.enums, self.refs, self.invs = [], [], {}
        self.keep = []
        self.contracts = {}
        self.specfns = {}
        self.const_cache, self.attr_cache = {}, {}
        self.keep = []
        self.loop_invs = {}
        self.axioms = {}
        self.trusted_used = set()
        self.all = []

    def ref_for(self, qual):
        for r in self.refs:
            if qual in r.classes:
                return r
        return None

    def family_contract(self, ty, name):
        """a contract on a common superclass method that every class of the family is verified against"""
        for full, cons in self.contracts.items():
            q = full.split(":")[1]
            if "." not in q or q.split(".")[1] != name:
                continue
            for c in cons:
                if getattr(c.cls, "family", None) == ty.name and c.cls.use_at_calls:
                    return REPO.func(c.cls.target)
        return None


def load(modnames):
    reg = Registry()
    for m in modnames:
        mod = importlib.import_module(m)
    mods = {c.__module__ for c in api.CONTRACTS} | {k[0] for k in api.SPECFNS} | set(modnames)
    import sys
    for m in list(mods) + [x for x in sys.modules if x.startswith("contracts.")]:
        pm = sys.modules.get(m)
        if pm is None:
            continue
        am = REPO.module(m)
        if am is None:
            continue
        for n, imp in getattr(pm, "__pydv_use__", {}).items():
            am.imports[n] = imp
        for v in vars(pm).values():
            collect(v, reg)
    reg.specfns = dict(api.SPECFNS)
    for rn, lst in api.INVARIANTS.items():
        for m, f in lst:
            reg.invs.setdefault(rn, []).append(REPO.module(m).funcs[f])
    for cls in api.CONTRACTS:
        con = ConInfo(cls)
        reg.all.append(con)
        if con.lemma is None:
            try:
                full = REPO.func(cls.target).full
            except KeyError:
                full = cls.target
            reg.contracts.setdefault(full, []).append(con)
            for idx, (meth, havoc) in (cls.invariants or {}).items():
                inv = (con.ci.lookup(meth)[1], havoc)
                reg.loop_invs.setdefault(full, {})[idx] = inv
                con.loop_invs.setdefault(full, {})[idx] = inv
    return reg


def collect(v, reg, seen=None):
    if isinstance(v, T.EnumT):
        if all(v.name != e.name for e in reg.enums):
            reg.enums.append(v)
    elif isinstance(v, T.Ref):
        if all(v.name != e.name for e in reg.refs):
            reg.refs.append(v)


def all_params(fi):
    a = fi.node.args
    out = [x.arg for x in a.posonlyargs + a.args]
    if a.vararg:
        out.append(a.vararg.arg)
    out += [x.arg for x in a.kwonlyargs]
    if a.kwarg:
        out.append(a.kwarg.arg)
    return out


def setup(run, con, fi):
    cls = con.cls
    env = {}
    for p, ty in cls.params.items():
        if isinstance(ty, T.Missing):
            d = run.default_of(fi, p)
            if d is None:
                raise Unsupported(f"parameter {p} of {fi.full} has no default")
            env[p] = d
            continue
        env[p] = run.fresh_value(ty, p)
    if fi is not None and con.lemma is None:
        names = all_params(fi)
        for p in cls.params:
            if p not in names:
                raise Unsupported(f"{fi.full} has no parameter {p}")
        for p in names:
            if p not in env:
                d = run.default_of(fi, p)
                if d is None and fi.node.args.kwarg and p == fi.node.args.kwarg.arg:
                    d = run.new_cell("dict", MapP([]))
                if d is None:
                    raise Unsupported(f"contract gives no value for parameter {p} of {fi.full}")
                env[p] = d
        # dispatch: the receiver is an instance of a class whose method this is
        if fi.cls is not None and not fi.is_static and not fi.is_class:
            s = env.get(names[0])
            if isinstance(s, S) and isinstance(s.ty, T.Ref) and len(s.ty.classes) > 1:
                idx = [i for i, c in enumerate(run.ref_classes(s.ty)) if (lk := c.lookup(fi.name)) and lk[0] == "method" and lk[1].full == fi.full]
                if not idx:
                    raise Unsupported(f"no class of {s.ty.name} uses {fi.full}")
                run.assume(z3.Or(*[run.tag(s) == i for i in idx]))
    return env


def induction(run, con, env):
    """Structural induction for a lemma: `induct` lists argument tuples whose first element is an immutable part of the
    first parameter (finite, hence well-founded); the lemma is assumed for each of them where they exist."""
    fi = con.induct
    body = run.spec_body(fi)
    params = [a.arg for a in fi.node.args.args]
    if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.ListComp):
        return induction_seq(run, con, env, fi, params, body[0].value)
    if len(body) != 1 or not isinstance(body[0], ast.Return) or not isinstance(body[0].value, ast.List):
        raise Unsupported("induct must return a list of tuples")
    for tup in body[0].value.elts:
        elts = tup.elts if isinstance(tup, ast.Tuple) else [tup]
        h = elts[0]
        ty = con.cls.params[params[0]]
        if not (isinstance(h, ast.Attribute) and isinstance(h.value, ast.Name) and h.value.id == params[0]
                and isinstance(ty, T.Ref) and ty.fields.get(h.attr) in (ty, T.Opt(ty))):
            raise Unsupported("induction step is not on a part of the first parameter")
        fr = Frame(fi.module, fi, None, con.ci, spec=True)

        def thunk():
            fr.locals = {p: env[p] for p in params}
            vals = [run.settle(run.eval(e, fr)) for e in elts]
            if any(isinstance(v, K) and v.v is None for v in vals):
                return z3.BoolVal(True)
            env2 = dict(zip(params, vals))
            pre = z3.And(z3.BoolVal(True), *[run.spec_eval(rq, env2) for rq in con.requires])
            return z3.Implies(pre, run.truth_term(run.inline(con.lemma, {a.arg: env2[a.arg] for a in con.lemma.node.args.args})))
        run.spec_depth += 1
        run.folded = True
        try:
            with run.in_assumption():
                res = run.nested([], z3.BoolVal(True), thunk, fr)
                t = run._combine(res, [])
        finally:
            run.folded = False
            run.spec_depth -= 1
        run.assume(t)


def induction_seq(run, con, env, fi, params, comp):
    """`[(c, ...) for c in p.<sequence of parts>]`: the lemma for every part"""
    g = comp.generators[0]
    ty = con.cls.params[params[0]]
    elts = comp.elt.elts if isinstance(comp.elt, ast.Tuple) else [comp.elt]
    it = g.iter
    if len(comp.generators) != 1 or g.ifs or not isinstance(g.target, ast.Name) or not (
            isinstance(elts[0], ast.Name) and elts[0].id == g.target.id) or not (
            isinstance(it, ast.Attribute) and isinstance(it.value, ast.Name) and it.value.id == params[0] and isinstance(ty, T.Ref)
            and isinstance(part := ty.fields.get(it.attr, ty.attrs.get(it.attr)), T.Seq) and part.t == ty):
        raise Unsupported("induction step is not on a part of the first parameter")
    fr = Frame(fi.module, fi, None, con.ci, spec=True)
    fr.locals = {p: env[p] for p in params}
    dom = run.iter_dom(run.eval(it, fr))
    v = z3.Const(f"ih!{run.bump()}", dom.sort)

    def thunk():
        fr.locals = {p: env[p] for p in params}
        fr.locals[g.target.id] = dom.elem(v)
        env2 = dict(zip(params, [run.settle(run.eval(e, fr)) for e in elts]))
        pre = z3.And(z3.BoolVal(True), *[run.spec_eval(rq, env2) for rq in con.requires])
        return z3.Implies(pre, run.truth_term(run.inline(con.lemma, {a.arg: env2[a.arg] for a in con.lemma.node.args.args})))
    run.spec_depth += 1
    run.folded = True
    try:
        with run.in_assumption():
            t = run._quant(True, [v], dom.guard(v), thunk, fr)
    finally:
        run.folded = False
        run.spec_depth -= 1
    run.assume(t)


def use_lemmas(run, con, env):
    """`uses` returns a list of lemma instances `LemmaName(args...)`: proved elsewhere, assumed here where their
    requirements hold.  (check.py rejects circular use.)"""
    fi = con.uses
    body = run.spec_body(fi)
    params = [a.arg for a in fi.node.args.args]
    if len(body) != 1 or not isinstance(body[0], ast.Return) or not isinstance(body[0].value, (ast.List, ast.ListComp)):
        raise Unsupported("uses must return a list of lemma instances")
    comp = body[0].value.generators[0] if isinstance(body[0].value, ast.ListComp) else None
    if comp is not None and (len(body[0].value.generators) != 1 or comp.ifs or not isinstance(comp.target, ast.Name)):
        raise Unsupported("uses: one loop over a collection")
    for call in [body[0].value.elt] if comp is not None else body[0].value.elts:
        lem = next((c for c in run.reg.all if c.name == call.func.id and c.lemma is not None), None)
        if lem is None or lem.cls.bounded or lem.uses is not None:
            raise Unsupported(f"no such lemma: {call.func.id}")
        run.used_contracts.add("lemma " + lem.name)
        fr = Frame(fi.module, fi, None, con.ci, spec=True)
        dom = v = None
        if comp is not None:
            fr.locals = {p: env[p] for p in params}
            dom = run.iter_dom(run.eval(comp.iter, fr))
            v = z3.Const(f"u!{run.bump()}", dom.sort)

        def thunk():
            fr.locals = {p: env[p] for p in params}
            if dom is not None:
                fr.locals[comp.target.id] = dom.elem(v)
            vals = [run.settle(run.eval(e, fr)) for e in call.args]
            if any(isinstance(v, K) and v.v is None for v in vals):
                return z3.BoolVal(True)
            env2 = dict(zip([a.arg for a in lem.lemma.node.args.args], vals))
            pre = z3.And(z3.BoolVal(True), *[run.spec_eval(rq, env2) for rq in lem.requires])
            return z3.Implies(pre, run.truth_term(run.inline(lem.lemma, env2)))
        run.spec_depth += 1
        run.folded = True
        try:
            with run.in_assumption():
                if dom is not None:
                    t = run._quant(True, [v], dom.guard(v), thunk, fr)
                else:
                    res = run.nested([], z3.BoolVal(True), thunk, fr)
                    t = run._combine(res, [])
        finally:
            run.folded = False
            run.spec_depth -= 1
        run.assume(t)


def run_path(run, con, fi):
    cls = con.cls
    env = setup(run, con, fi)
    for rq in con.requires:
        with run.in_assumption():
            t = run.spec_eval(rq, env)
        run.assume(t)
    run.setup_facts = len(run.facts)
    if con.induct is not None:
        induction(run, con, env)
    if con.uses is not None:
        use_lemmas(run, con, env)
    old, memo = {}, {}
    for p, v in env.items():
        old["old_" + p] = run.clone(v, memo)
    prenv = {**env, **old}
    label = con.name if con.lemma is not None else f"{con.name}[{fi.qual}]"
    conds = {exc: None for exc in con.raises}
    try:
        if con.lemma is not None:
            bound = {a.arg: env[a.arg] for a in con.lemma.node.args.args}
            result = run.inline(con.lemma, bound)
        else:
            names = all_params(fi)
            result = run.inline(fi, {p: env[p] for p in names})
        outcome = "return"
    except PyRaise as e:
        outcome = "raise"
        exc = e
    # clones live in cells that were not touched; conditions are over the pre-state
    if outcome == "raise":
        nm = exc.exc.cls
        from .engine import EXC_BASES
        sup = [nm] + EXC_BASES.get(nm, []) + [b for a in exc.exc.args for b in a.all_base_names()]
        hit = [x for x in con.raises if x in sup]
        if hit:
            ts = [run.spec_eval(con.raises[h], old_only(old, env)) for h in hit]
            run.oblige(f"{label}: {nm} only when specified ({exc.where})", z3.Or(*ts))
            if getattr(cls, "raises_unchanged", True):
                frame(run, con, env, old, label + " (exceptional exit)", strict=True)
        elif any(x in sup for x in cls.may_raise):
            pass
        else:
            run.oblige(f"{label}: no {nm} ({exc.where})", False)
        return "raise"
    for excn, cond in con.raises.items():
        t = run.spec_eval(cond, old_only(old, env))
        run.oblige(f"{label}: {excn} raised when specified", z3.Not(t))
    if con.lemma is not None:
        run.oblige(f"{label}: lemma", run.truth_term(result))
    ret = cls.returns
    env2 = {**env, **old, "result": result}
    if isinstance(ret, str):
        run.oblige(f"{label}: returns {ret} itself", run.is_term(result, env[ret]))
    elif ret is not None and con.lemma is None and not isinstance(ret, T.Obj):
        if isinstance(result, C) and result.kind == "generator" and isinstance(ret, T.Seq):
            pass
        elif isinstance(ret, (T.Set, T.Seq)):
            k = run.kind(result)
            if k != ret.kind and not (k == "generator") and not (k in ("set", "frozenset") and isinstance(ret, T.Set)) \
                    and not (isinstance(ret, T.Seq) and ret.kind == "generator"):
                raise Unsupported(f"{label}: result is a {k}, declared {ret}")
        run.coerce(result, ret)
    elif isinstance(ret, T.Obj):
        if run.kind(result) != "obj" or run.heap[result.id].p.ci.qual != ret.cls:
            run.oblige(f"{label}: result is a {ret.cls}", False)
    for en in con.ensures:
        with run.scope():
            run.oblige(f"{label}: {en.name}", run.spec_eval(en, env2))
    frame(run, con, env, old, label)
    return "return"


def old_only(old, env):
    d = {k[4:]: v for k, v in old.items()}
    d.update(old)
    return d


def frame(run, con, env, old, label, strict=False):
    mods = set() if strict else set(con.cls.modifies or ())
    for p, v in env.items():
        if p in mods or not isinstance(v, Loc):
            continue
        o = old["old_" + p]
        frame_cmp(run, p, v, o, mods, label)


def frame_cmp(run, path, v, o, mods, label):
    if not isinstance(v, Loc):
        return
    c = run.heap[v.id]
    if c.kind == "obj":
        op = run.heap[o.id].p
        for fn, fo in op.fields.items():
            sub = f"{path}.{fn}"
            if sub in mods or any(sub.startswith(m + ".") for m in mods):
                continue
            now = c.p.fields.get(fn)
            same_val(run, sub, now, fo, mods, label)
        return
    if path not in mods:
        same_val(run, path, v, o, mods, label)


def same_val(run, path, now, fo, mods, label):
    if now is fo:
        return
    if isinstance(now, Loc) and isinstance(fo, Loc) and run.heap[now.id].kind == "obj":
        return frame_cmp(run, path, now, fo, mods, label)
    run.spec_depth += 1
    try:
        if isinstance(now, S) and isinstance(fo, S) and now.t.eq(fo.t):
            return
        if isinstance(now, Loc) and isinstance(fo, Loc) and run.heap[now.id].p is run.heap[fo.id].p:
            return
        run.oblige(f"{label}: frame: {path} unchanged", run.eq_term(now, fo) if now is not None else False)
    finally:
        run.spec_depth -= 1


def verify_one(reg, con, target, deadline):
    """explore every path and discharge every obligation of one contract on one function"""
    t0 = time.time()
    res = {"contract": con.name, "target": target or f"lemma {con.name}", "paths": 0, "obligations": [], "status": "proved",
           "reason": "", "solver_time": 0.0, "inlined": [], "used": [], "taint": [], "cover": "unknown", "feas_checks": 0}
    try:
        fi = REPO.func(target) if target else None
    except KeyError as e:
        res.update(status="unsupported", reason=f"target not found: {e}")
        return res
    if fi is not None and fi.is_abstract:
        res.update(status="unsupported", reason="target is abstract")
        return res
    work = [[]]
    obls, seen = [], set()
    inl, used, taint = set(), set(), set()
    covers = []
    try:
        while work:
            if time.time() > deadline:
                raise Unsupported("exploration deadline")
            if res["paths"] > PATH_LIMIT:
                raise Unsupported("path limit")
            prefix = work.pop()
            run = Engine(prefix, reg, {"max_rec": getattr(con.cls, "max_rec", 2)})
            run.under_verification = con
            run.spec_fuel = getattr(con.cls, "fuel", 1)
            run.fold_bound = not getattr(con.cls, "unfold_bound", False)
            run.deadline = deadline
            res["paths"] += 1
            outcome = None
            try:
                outcome = run_path(run, con, fi)
            except Infeasible:
                pass
            except PyRaise as e:
                raise Unsupported(f"contract evaluation raises {e.exc.cls} {e.where}")
            work.extend(run.alts)
            res["feas_checks"] += run.nchecks
            inl |= run.inlined
            used |= run.used_contracts
            taint |= set(run.taint)
            if outcome:
                covers.append([f for f, _ in run.facts] + run.axiom_facts())
            for name, facts, goal, info in run.obligations:
                key = (name, tuple(f.get_id() for f in facts), goal.get_id())
                if key in seen:
                    continue
                seen.add(key)
                reg.keep.append((facts, goal))
                obls.append((name, facts, goal))
    except Unsupported as e:
        res.update(status="unsupported", reason=str(e))
    except RecursionError:
        res.update(status="unsupported", reason="recursion limit")
    except z3.Z3Exception as e:
        res.update(status="unsupported", reason=f"z3: {e}")
    except (AttributeError, KeyError, TypeError, AssertionError, IndexError, ValueError) as e:
        res.update(status="unsupported", reason=f"engine: {type(e).__name__}: {e}", trace=traceback.format_exc()[-1500:])
    res["inlined"], res["used"], res["taint"] = sorted(inl), sorted(used), sorted(taint)
    if res["status"] == "unsupported":
        res["time"] = round(time.time() - t0, 2)
        return res
    if not covers:
        res.update(status="vacuous", reason="no path reaches an outcome")
        return res
    # vacuity: some complete path is satisfiable together with every assumed fact
    res["cover"] = "unsat"
    for fs in covers[:6] + covers[6:][::max(1, len(covers) // 12)]:
        s = z3.SimpleSolver()
        s.set("rlimit", 1500000)
        s.add(fs + Z.lit_facts())
        r = s.check()
        if r != z3.unsat:
            res["cover"] = str(r)
            break
    if res["cover"] == "unsat":
        res.update(status="vacuous", reason="assumptions are contradictory on every path examined")
        return res
    worst = "proved"
    for name, facts, goal in obls:
        st, tm, how, detail = discharge(facts, goal, deadline, name, getattr(con.cls, "effort", 1))
        res["solver_time"] += tm
        o = {"name": name, "status": st, "time": round(tm, 3), "backend": how}
        if detail:
            o["detail"] = detail
        res["obligations"].append(o)
        if st == "refuted":
            worst = "refuted"
        elif st in ("unknown", "resource") and worst != "refuted":
            worst = "undischarged" if st == "unknown" or worst == "undischarged" else "resource"
    res["status"] = worst
    if not obls:
        res.update(status="vacuous", reason="no obligations generated")
    res["time"] = round(time.time() - t0, 2)
    res["solver_time"] = round(res["solver_time"], 3)
    return res


# (solver, options, share of the resource limit, may report a model)
STRATS = [("simple", {"smt.mbqi": False, "auto_config": False}, 0.5, False),
          ("cvc5", {}, 1.0, False),
          ("simple", {}, 1.0, True),
          ("simple", {"smt.random_seed": 7, "smt.mbqi": False, "auto_config": False, "smt.qi.eager_threshold": 50.0}, 1.0, False),
          ("full", {}, 1.0, True),
          ("simple", {"smt.random_seed": 3, "smt.mbqi": False, "auto_config": False, "smt.relevancy": 0}, 1.0, False)]


def cvc5_check(facts, goal, effort):
    """the same obligation, given to cvc5"""
    s = z3.SimpleSolver()
    s.add(facts)
    s.add(Z.lit_facts())
    s.add(z3.Not(goal))
    txt = "(set-logic ALL)\n" + s.to_smt2()
    try:
        p = subprocess.run(["cvc5", "--lang=smt2", f"--rlimit={int(CVC5_RLIMIT * effort)}", "--tlimit=60000", "-"], input=txt, capture_output=True, text=True, timeout=90)
    except (OSError, subprocess.TimeoutExpired):
        return "unknown"
    return p.stdout.strip().splitlines()[0] if p.stdout.strip() else "unknown"


def discharge(facts, goal, deadline, name="", effort=1):
    t0 = time.time()
    if os.environ.get("PYDV_DUMP") and os.environ["PYDV_DUMP"] in name:
        print("=== ", name)
        for f in facts:
            print("  F", z3.simplify(f))
        print("  G", goal)
    g = z3.simplify(goal)
    if z3.is_true(g):
        return "proved", 0.0, "simplifier", None
    last = ("unknown", "")
    resource = True
    for i, (which, opts, mult, models) in enumerate(STRATS):
        if time.time() > deadline:
            return "resource", time.time() - t0, "z3", "deadline"
        if which == "cvc5":
            if cvc5_check(facts, goal, effort) == "unsat":
                return "proved", time.time() - t0, "cvc5", None
            continue
        s = z3.Solver() if which == "full" else z3.SimpleSolver()
        for k, v in opts.items():
            s.set(k, v)
        s.set("rlimit", int(RLIMIT * mult * effort))
        s.set("timeout", 60000)
        s.add(facts)
        s.add(Z.lit_facts())
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            return "proved", time.time() - t0, "z3" + (f"#{i}" if i else ""), None
        if r == z3.sat and models:
            m = s.model()
            return "refuted", time.time() - t0, "z3", str(m)[:3000]
        why = s.reason_unknown()
        if "resource" not in why and "timeout" not in why and "canceled" not in why:
            resource = False
        last = ("unknown", why)
    return ("resource" if resource else "unknown"), time.time() - t0, "z3", last[1]
