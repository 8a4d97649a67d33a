"""Runtime-contract search: evaluates the same contracts on the real code under CPython (bounded; finds and replays
failing inputs).  Run with /opt/venv/bin/python, PYDV_MODE=concrete."""
from __future__ import annotations
import copy
import ast
import enum
import hashlib
import importlib
import importlib.machinery
import importlib.util
import inspect
import json
import math
import os
import random
import signal
import sys
import textwrap
import time
import traceback
import types as pytypes
import warnings

from . import api, types as T

REPO_DIR = os.environ.get("PYDV_REPO", "/repo")


class LazyImplies(ast.NodeTransformer):
    """implies(a, b) evaluates b only if a holds"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "implies" and len(n.args) == 2:
            r = ast.BoolOp(ast.Or(), [ast.UnaryOp(ast.Not(), n.args[0]),
                                      ast.Call(ast.Name("bool", ast.Load()), [n.args[1]], [])])
            return ast.copy_location(r, n)
        return n


class ContractLoader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = LazyImplies().visit(ast.parse(data, path))
        return compile(ast.fix_missing_locations(tree), path, "exec", dont_inherit=True, optimize=_optimize)

    def get_code(self, fullname):
        p = self.get_filename(fullname)
        return self.source_to_code(self.get_data(p), p)


class ContractFinder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if not name.startswith("contracts."):
            return None
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), *name.split(".")) + ".py"
        if not os.path.exists(p):
            return None
        return importlib.util.spec_from_file_location(name, p, loader=ContractLoader(name, p))


if api.CONCRETE:
    sys.meta_path.insert(0, ContractFinder)
SCALARS = (int, float, str, bytes, bool, type(None), complex)


def resolve_cls(qual):
    m, c = qual.split(":")
    o = importlib.import_module(m)
    for x in c.split("."):
        o = getattr(o, x)
    return o


def resolve(target):
    """(callable taking the receiver first, owner class or None, kind)"""
    m, q = target.split(":")
    o = importlib.import_module(m)
    parts = q.split(".")
    if len(parts) == 1:
        return getattr(o, parts[0]), None, "func"
    cls = getattr(o, parts[0])
    for k in cls.__mro__:
        if parts[1] in k.__dict__:
            d = k.__dict__[parts[1]]
            break
    else:
        raise AttributeError(target)
    if isinstance(d, property):
        return d.fget, cls, "method"
    if isinstance(d, staticmethod):
        return d.__func__, cls, "static"
    if isinstance(d, classmethod):
        return d.__func__, cls, "class"
    if hasattr(d, "func") and not callable(d):
        return d.func, cls, "method"
    return d, cls, "method"


# -- generation --------------------------------------------------------------------------------------------------------
STRS = ["", "a", "b", "x", "R", "t", "abc", "foo", "A B", "seq"]


class GenFn:
    """arbitrary but fixed pure function"""

    def __init__(self, ret, salt, rng):
        self.ret, self.salt, self.table = ret, salt, {}

    def __call__(self, *args):
        key = repr([fingerprint(a) for a in args])
        if key not in self.table:
            h = hashlib.sha256((self.salt + key).encode()).hexdigest()
            self.table[key] = gen(self.ret, random.Random(h), 2, Mined())
        return self.table[key]

    def __repr__(self):
        return f"GenFn({self.salt})"


class Mined:
    def __init__(self):
        self.strs, self.nums = [], []


def mine(fn):
    m = Mined()
    try:
        tree = ast.parse(textwrap.dedent(inspect.getsource(fn)))
    except Exception:
        return m
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant):
            if isinstance(n.value, str) and 0 < len(n.value) < 40:
                m.strs.append(n.value)
            elif isinstance(n.value, (int, float)) and not isinstance(n.value, bool) and abs(n.value) < 1e7:
                m.nums.append(n.value)
    return m


def gen(ty, rng, size, mined):
    if isinstance(ty, T.Const):
        return ty.value
    if isinstance(ty, (T.Ref, T.Obj)):
        if ty.gen is None and isinstance(ty, T.Obj) and not ty.fields:
            return object.__new__(resolve_cls(ty.cls))
        if ty.gen is None:
            raise NotImplementedError(f"no generator for {ty}")
        return ty.gen(rng, size)
    if ty == T.Bool:
        return rng.random() < 0.5
    if ty == T.Int:
        r = rng.random()
        if mined.nums and r < 0.25:
            return int(rng.choice(mined.nums)) + rng.choice([-1, 0, 0, 1])
        return rng.choice([-3, -2, -1, 0, 0, 1, 1, 2, 2, 3, 4, 5, 7, 10, 13, 100, 1001])
    if ty == T.Flt:
        r = rng.random()
        if mined.nums and r < 0.2:
            return float(rng.choice(mined.nums)) + rng.choice([-0.5, 0, 0, 0.5, 1])
        if r < 0.3:
            return rng.choice([math.nan, math.inf, -math.inf, 0.0, -1.0])
        return rng.choice([0, 1, 2, 3, 5, 10, 0.5, 1.5, 2.25, 100.0, 1234567.0, rng.uniform(-10, 100), rng.randint(0, 10**7)])
    if ty == T.Str:
        if mined.strs and rng.random() < 0.3:
            return rng.choice(mined.strs)
        return rng.choice(STRS)
    if ty == T.NoneT:
        return None
    if ty == T.Any:
        return rng.choice([1, 2, "v", "w", None, 3.5, ("t",)])
    if isinstance(ty, T.Opt):
        return None if rng.random() < 0.3 else gen(ty.t, rng, size, mined)
    if isinstance(ty, T.Set):
        n = rng.randint(0, size)
        xs = [gen(ty.t, rng, max(1, size - 1), mined) for _ in range(n)]
        return frozenset(xs) if ty.kind == "frozenset" else set(xs)
    if isinstance(ty, T.Seq):
        n = max(rng.randint(0, size), ty.minlen)
        xs = [gen(ty.t, rng, max(1, size - 1), mined) for _ in range(n)]
        return tuple(xs) if ty.kind == "tuple" else xs
    if isinstance(ty, T.Map):
        return {gen(ty.k, rng, max(1, size - 1), mined): gen(ty.v, rng, max(1, size - 1), mined) for _ in range(rng.randint(0, size))}
    if isinstance(ty, T.TupT):
        return tuple(gen(t, rng, size, mined) for t in ty.ts)
    if isinstance(ty, T.EnumT):
        ms = []
        for cq in ty.classes:
            ms.extend(resolve_cls(cq))
        return rng.choice(ms)
    if isinstance(ty, T.EnumMember):
        return resolve_cls(ty.cls)[ty.member]
    if isinstance(ty, T.ClassArg):
        return resolve_cls(ty.qual)
    if isinstance(ty, T.Func):
        return ty.gen(rng, size) if ty.gen else GenFn(ty.ret, str(rng.random()), rng)
    if isinstance(ty, T.KwDict):
        return {k: gen(t, rng, size, mined) for k, t in ty.items.items()}
    raise NotImplementedError(str(ty))


# -- structural fingerprints ----------------------------------------------------------------------------------------------
def attrs_of(o):
    out = {}
    for k in type(o).__mro__:
        for s in getattr(k, "__slots__", ()) if not isinstance(getattr(k, "__slots__", ()), str) else (k.__slots__,):
            if s not in ("__dict__", "__weakref__"):
                try:
                    out[s] = object.__getattribute__(o, s)
                except AttributeError:
                    pass
    d = getattr(o, "__dict__", None)
    if isinstance(d, dict):
        out.update(d)
    return out


def fingerprint(o, depth=14, seen=None):
    if isinstance(o, enum.Enum):
        return ("E", type(o).__name__, o.name)
    if isinstance(o, float):
        return ("f", repr(o))
    if isinstance(o, SCALARS):
        return (type(o).__name__, repr(o))
    if isinstance(o, (type, pytypes.FunctionType, pytypes.MethodType, pytypes.BuiltinFunctionType, GenFn)):
        return ("fn", getattr(o, "__qualname__", repr(o)))
    seen = seen or ()
    if id(o) in seen or depth <= 0:
        return ("...",)
    seen = seen + (id(o),)
    if isinstance(o, dict):
        items = sorted(((repr(fingerprint(k, depth - 1, seen)), fingerprint(v, depth - 1, seen)) for k, v in o.items()), key=lambda kv: kv[0])
        return ("d", tuple(items))
    if isinstance(o, (set, frozenset)):
        return ("s", tuple(sorted(repr(fingerprint(x, depth - 1, seen)) for x in o)))
    if isinstance(o, (list, tuple)):
        return ("l", tuple(fingerprint(x, depth - 1, seen) for x in o))
    a = attrs_of(o)
    if not a and not hasattr(o, "__dict__"):
        return ("o", type(o).__name__, id(o))
    return ("o", type(o).__name__, tuple((k, fingerprint(v, depth - 1, seen)) for k, v in sorted(a.items())
                                         if "cache" not in k and v is not None and not k.startswith("__")))


def fp_subset(before, after):
    """attributes that appear (lazily computed private state) are tolerated; changed ones are not"""
    if before == after:
        return True
    if before[0] == "o" and after[0] == "o" and before[1] == after[1] and isinstance(before[2], tuple) and isinstance(after[2], tuple):
        a = dict(after[2])
        return all(k in a and fp_subset(v, a[k]) for k, v in before[2])
    if before[0] == after[0] == "l" and len(before[1]) == len(after[1]):
        return all(fp_subset(x, y) for x, y in zip(before[1], after[1]))
    if before[0] == after[0] == "d" and len(before[1]) == len(after[1]):
        return all(k == k2 and fp_subset(v, v2) for (k, v), (k2, v2) in zip(before[1], after[1]))
    return False


def snapshot(v, ty, memo=None):
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, dict) and type(v) is dict:
        r = {}
        memo[id(v)] = r
        for k, x in v.items():
            r[k] = snapshot(x, None, memo)
        return r
    if type(v) is list:
        r = []
        memo[id(v)] = r
        r.extend(snapshot(x, None, memo) for x in v)
        return r
    if type(v) is set:
        return set(v)
    if isinstance(ty, T.Obj):
        try:
            r = object.__new__(type(v))
        except TypeError:
            return v
        memo[id(v)] = r
        for k, x in attrs_of(v).items():
            sub = ty.fields.get(k)
            try:
                object.__setattr__(r, k, snapshot(x, sub, memo))
            except AttributeError:
                return v
        return r
    return v


def conforms(v, ty):
    if ty is None or isinstance(ty, (T.Func, T.Const)) or ty == T.Any:
        return True
    if isinstance(ty, T.Opt):
        return v is None or conforms(v, ty.t)
    if ty == T.Bool:
        return isinstance(v, bool)
    if ty == T.Int:
        return isinstance(v, int)
    if ty == T.Flt:
        return isinstance(v, (int, float))
    if ty == T.Str:
        return isinstance(v, str)
    if ty == T.NoneT:
        return v is None
    if isinstance(ty, T.Set):
        return isinstance(v, (set, frozenset)) and all(conforms(x, ty.t) for x in v) if ty.kind != "any" else True
    if isinstance(ty, T.Seq):
        return isinstance(v, (list, tuple)) and all(conforms(x, ty.t) for x in v)
    if isinstance(ty, T.Map):
        return isinstance(v, dict) and all(conforms(k, ty.k) and conforms(x, ty.v) for k, x in v.items())
    if isinstance(ty, T.TupT):
        return isinstance(v, tuple) and len(v) == len(ty.ts) and all(conforms(x, t) for x, t in zip(v, ty.ts))
    if isinstance(ty, T.EnumT):
        return any(isinstance(v, resolve_cls(c)) for c in ty.classes)
    if isinstance(ty, T.Ref):
        return any(isinstance(v, resolve_cls(c)) for c in ty.classes)
    if isinstance(ty, T.Obj):
        return isinstance(v, resolve_cls(ty.cls))
    return True


class CaseTimeout(Exception):
    pass


def _alarm(sig, frm):
    raise CaseTimeout()


class Violation(Exception):
    def __init__(self, clause, detail):
        self.clause, self.detail = clause, detail


class ContractError(Exception):
    pass


def innermost_in_repo(e):
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return last is not None and os.path.abspath(last).startswith(os.path.abspath(REPO_DIR) + "/")


def fault_of_repo(e):
    """a missing attribute counts only if the object is one of the repository's own classes (not a stand-in)"""
    return not isinstance(e, AttributeError) or type(getattr(e, "obj", None)).__module__.split(".")[0] == "postbound"


def passes_repo(e):
    tb = e.__traceback__
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(os.path.abspath(REPO_DIR) + "/"):
            return True
        tb = tb.tb_next
    return False


def evaluate(method, env, clause, is_clause=True):
    names = method.__code__.co_varnames[:method.__code__.co_argcount]
    try:
        return method(**{n: env[n] for n in names})
    except CaseTimeout:
        raise
    except RecursionError as e:
        raise ContractError(f"{clause}: {type(e).__name__}")
    except Exception as e:
        txt = f"evaluating {clause}: {type(e).__name__}: {e}"
        if innermost_in_repo(e) and is_clause and fault_of_repo(e):
            raise Violation(clause, "an observer of the real code fails: " + txt + "\n" + traceback.format_exc()[-1200:])
        if is_clause and clause.startswith("ensures") and isinstance(e, (LookupError, ValueError, ArithmeticError, StopIteration)):
            # e.g. a text that cannot be read back; renamed internals show up as AttributeError, ImportError, NameError or TypeError instead
            raise Violation(clause, "the result cannot be interpreted: " + txt + "\n" + traceback.format_exc()[-1200:])
        raise ContractError(txt + traceback.format_exc()[-600:])


class ConcreteContract:
    def __init__(self, cls):
        self.cls = cls
        self.name = cls.__name__
        self.requires, self.ensures, self.known = [], [], []
        seen = set()
        for k in cls.__mro__:
            for n, f in k.__dict__.items():
                if n in seen:
                    continue
                seen.add(n)
                if not isinstance(f, pytypes.FunctionType):
                    continue
                if n.startswith("requires"):
                    self.requires.append((n, f))
                elif n.startswith("ensures"):
                    self.ensures.append((n, f))
                elif n.startswith("known_"):
                    self.known.append((n, f))
        self.lemma = cls.__dict__.get("lemma") if isinstance(cls.__dict__.get("lemma"), pytypes.FunctionType) else None

    def targets(self):
        if self.lemma is not None:
            return [None]
        return self.cls.verify or [self.cls.target]

    def method(self, n):
        for k in self.cls.__mro__:
            if n in k.__dict__:
                return k.__dict__[n]
        raise KeyError(n)


def size_for(i):
    return [1, 2, 2, 3, 3, 4, 3, 2, 6, 4, 3, 9][i % 12]


def build_case(cc, target, seed, i, mined):
    cls = cc.cls
    rng = random.Random(f"{seed}/{cc.name}/{target}/{i}")
    size = size_for(i)
    env = {}
    given = {}
    if cls.gen is not None:
        g = cls.gen
        given = g(rng, size) if isinstance(g, (pytypes.FunctionType, staticmethod)) is False else (g.__func__ if isinstance(g, staticmethod) else g)(rng, size)
        if given is None:
            return None, rng
    seeds = {}
    for p, ty in cls.params.items():
        if isinstance(ty, T.Missing):
            continue
        if p in given:
            env[p] = given[p]
            continue
        sub = rng.random()
        same = [q for q in seeds if cls.params[q] == ty]
        twin = bool(same) and rng.random() < 0.4
        if twin:
            sub = seeds[rng.choice(same)]       # structurally equal arguments are common
        seeds[p] = sub
        own = getattr(cls, "gens", {}).get(p)
        env[p] = own(random.Random(sub), size) if own else gen(ty, random.Random(sub), size, mined)
        if twin and isinstance(ty, T.Obj) and ty.fields and rng.random() < 0.6:
            f = rng.choice(sorted(ty.fields))    # ... and so are arguments that differ in one component
            try:
                setattr(env[p], f, gen(ty.fields[f], rng, size, mined))
            except (NotImplementedError, AttributeError):
                pass
    return env, rng


def call_args(fn, kind, env, params):
    """split an environment by parameter name into positional and keyword arguments"""
    sig = inspect.signature(fn)
    args, kwargs = [], {}
    missing_seen = False
    for p, par in sig.parameters.items():
        if p not in env:
            if par.kind in (par.POSITIONAL_ONLY, par.POSITIONAL_OR_KEYWORD):
                missing_seen = True
            continue
        v = env[p]
        if par.kind == par.VAR_POSITIONAL:
            args.extend(v)
        elif par.kind == par.VAR_KEYWORD:
            kwargs.update(v)
        elif par.kind == par.KEYWORD_ONLY or missing_seen:
            kwargs[p] = v
        else:
            args.append(v)
    unknown = [p for p in env if p not in sig.parameters]
    if unknown:
        raise ContractError(f"parameters {unknown} do not exist any more")
    return args, kwargs


def run_case(cc, target, env):
    """None if skipped, else True; raises Violation / ContractError"""
    cls = cc.cls
    for n, rq in cc.requires:
        if not evaluate(rq, env, n, False):
            return None
    if cc.lemma is not None:
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ok = cc.lemma(**{p: v for p, v in env.items()})
        except (CaseTimeout, RecursionError):
            raise
        except Exception as e:
            if any(k.__name__ in cls.may_raise for k in type(e).__mro__):
                return True
            if passes_repo(e) and not isinstance(e, AttributeError) or innermost_in_repo(e) and fault_of_repo(e):
                raise Violation("lemma", f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:])
            raise ContractError(f"lemma: {type(e).__name__}: {e}" + traceback.format_exc()[-600:])
        if not ok:
            raise Violation("lemma", "evaluates to false")
        return True
    fn, owner, kind = resolve(target)
    if kind == "method" and env and next(iter(env)) == next(iter(inspect.signature(fn).parameters), None):
        # the receiver dispatches to this very function, as for the proof
        nm, recv = target.split(".")[-1], env[next(iter(env))]
        for k in type(recv).__mro__:
            if nm in k.__dict__:
                if k is not next((c for c in owner.__mro__ if nm in c.__dict__), None):
                    return None
                break
    memo = {}
    old = {p: snapshot(v, cls.params.get(p), memo) for p, v in env.items()}
    mods = set(cls.modifies or ())
    if getattr(cls, "bounded", False):  # what is changed has no type that tells how to copy it
        for p in mods & set(env):
            if cls.params.get(p) == T.Any:
                old[p] = copy.deepcopy(env[p])
    paths = {}
    for p, v in env.items():
        ty = cls.params.get(p)
        if isinstance(ty, T.Obj):
            for f in ty.fields:
                try:
                    x = getattr(v, f)
                except AttributeError:
                    continue
                paths[f"{p}.{f}"] = (lambda v=v, f=f: getattr(v, f), fingerprint(x))
        else:
            paths[p] = (lambda v=v: v, fingerprint(v))
    conds = {}
    names0 = {**{f"old_{p}": v for p, v in old.items()}, **env}
    for exc, m in (cls.raises.items() if isinstance(cls.raises, dict) else ()):
        conds[exc] = bool(evaluate(cc.method(m), names0, m, False))
    call_env = dict(env)
    if kind == "class":
        args, kwargs = call_args(fn, kind, {**call_env, next(iter(inspect.signature(fn).parameters)): owner}, cls.params)
    else:
        args, kwargs = call_args(fn, kind, call_env, cls.params)
    raised = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            result = fn(*args, **kwargs)
            if (inspect.isgenerator(result) or isinstance(result, (map, filter, zip))) and not getattr(cls, "endless", False):
                result = list(result)
    except (CaseTimeout, RecursionError):
        raise
    except Exception as e:
        raised = e
    def check_frame(strict):
        for path, (get, before) in paths.items():
            if not strict and (path in mods or any(path.startswith(m + ".") for m in mods) or path.split(".")[0] in mods):
                continue
            after = fingerprint(get())
            if not fp_subset(before, after):
                raise Violation("frame", f"{path} changed: {str(before)[:300]} -> {str(after)[:300]}")
    if raised is not None:
        sup = [k.__name__ for k in type(raised).__mro__]
        hit = [x for x in conds if x in sup]
        if hit:
            if not any(conds[h] for h in hit):
                raise Violation("raises", f"{type(raised).__name__} raised although not specified: {raised}")
            if getattr(cls, "raises_unchanged", True):
                check_frame(True)
            return True
        if any(x in sup for x in cls.may_raise):
            return True
        raise Violation("raises", f"unexpected {type(raised).__name__}: {raised}\n" + "".join(traceback.format_exception(raised))[-1500:])
    for exc, c in conds.items():
        if c:
            raise Violation("raises", f"{exc} not raised although specified; result {result!r}"[:600])
    if isinstance(cls.returns, str):
        if result is not env[cls.returns]:
            raise Violation("returns", f"does not return {cls.returns} itself")
    elif cls.returns is not None and not conforms(result, cls.returns):
        raise Violation("returns", f"result {result!r} is not a {cls.returns}"[:600])
    env2 = {**names0, "result": result}
    for n, en in cc.ensures:
        if not evaluate(en, env2, n):
            raise Violation(n, f"postcondition false; result {safe_repr(result)}")
    check_frame(False)
    return True


def safe_repr(v, limit=1500):
    try:
        r = repr(v)
    except Exception:
        r = str(fingerprint(v, 6))
    return r[:limit]


def describe(env):
    out = {}
    for p, v in env.items():
        r = safe_repr(v)
        if isinstance(getattr(v, "__dict__", None), dict) or " object at 0x" in r:
            r += "   " + str(fingerprint(v, 6))[:1500]
        out[p] = r
    return out


def nontrivial(env):
    """a case counts as non-trivial when some argument carries content (non-empty container, object, number, text)"""
    for v in env.values():
        if isinstance(v, (dict, list, tuple, set, frozenset, str)):
            if len(v):
                return True
        elif v is not None and not isinstance(v, bool):
            return True
    return False


def search(cc, target, seed, cases, cap, result):
    """cases[0] .. evaluated in order"""
    cls = cc.cls
    try:
        fn = resolve(target)[0] if target else None
    except (AttributeError, ImportError) as e:
        result["errors"].append(f"{cc.name}: target not found: {e}")
        return
    mined = mine(fn) if fn is not None else Mined()
    for v in getattr(cls, "mine", ()):
        try:
            m2 = mine(resolve(v)[0])
            mined.strs += m2.strs
            mined.nums += m2.nums
        except Exception:
            pass
    n = int(cases * getattr(cls, "weight", 1))
    t0 = time.time()
    distinct = set()
    for i in range(n):
        if time.time() - t0 > cap * max(1, getattr(cls, "weight", 1)):
            result["capped"].append(f"{cc.name}@{i}")
            break
        signal.setitimer(signal.ITIMER_VIRTUAL, 20)
        env = None
        try:
            try:
                env, rng = build_case(cc, target, seed, i, mined)
            except NotImplementedError as e:
                result["errors"].append(f"{cc.name}: {e}")
                return
            except CaseTimeout:
                raise
            except Exception as e:
                if innermost_in_repo(e) and fault_of_repo(e):
                    result["violations"].append({"contract": cc.name, "target": target or f"lemma {cc.name}", "clause": "construct",
                                                 "detail": f"the real code fails to build a regular input: {type(e).__name__}: {e}\n" + traceback.format_exc()[-2500:],
                                                 "args": {}, "seed": seed, "case": i, "known": None})
                    return
                result["errors"].append(f"{cc.name}: generator: {type(e).__name__}: {e}" + traceback.format_exc()[-700:])
                if len(result["errors"]) > 20:
                    return
                continue
            if env is None:
                result["skipped"] += 1
                continue
            pre = describe(env) if n <= 1 else None
            key = None
            if len(distinct) < 20000:
                key = hashlib.md5(repr(sorted((p, fingerprint(v)) for p, v in env.items())).encode()).hexdigest()
            case_desc = describe(env) if len(result["samples"]) < 2 else None
            r = run_case(cc, target, env)
            if r is None:
                result["skipped"] += 1
                continue
            result["evaluations"] += 1
            if key and key not in distinct and nontrivial(env):
                distinct.add(key)
            if case_desc is not None:
                result["samples"].append({"contract": cc.name, "target": target or "lemma", "args": {k: v[:400] for k, v in case_desc.items()}})
        except Violation as v:
            env2, _ = build_case(cc, target, seed, i, mined)
            known = None
            for kn, kf in cc.known:
                try:
                    if kf(**{x: env2[x] for x in kf.__code__.co_varnames[:kf.__code__.co_argcount]}):
                        known = kn[6:]
                except Exception:
                    pass
            rec = {"contract": cc.name, "target": target or f"lemma {cc.name}", "clause": v.clause, "detail": v.detail[:3000],
                   "args": describe(env2), "seed": seed, "case": i, "known": known}
            result["violations"].append(rec)
            if known is None or len([x for x in result["violations"] if x["known"]]) > 200:
                return
        except ContractError as e:
            result["errors"].append(f"{cc.name} case {i}: {e}")
            if len(result["errors"]) > 20:
                return
        except (CaseTimeout, RecursionError) as e:
            what = "does not terminate within 20 s of CPU time" if isinstance(e, CaseTimeout) else "exceeds the recursion limit"
            if passes_repo(e):
                result["violations"].append({"contract": cc.name, "target": target or f"lemma {cc.name}", "clause": "terminates", "detail": what + "\n" + traceback.format_exc()[-2500:],
                                             "args": {}, "seed": seed, "case": i, "known": None})
                return
            result["errors"].append(f"{cc.name} case {i}: {what}")
            if isinstance(e, CaseTimeout):
                result["capped"].append(f"{cc.name}@{i}")
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    result["distinct_nontrivial"] += len(distinct)


def load(mods):
    for m in mods:
        importlib.import_module(m)
    return [ConcreteContract(c) for c in api.CONTRACTS]


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--mods", required=True)
    ap.add_argument("--prop", required=True)
    ap.add_argument("--seed", default="1")
    ap.add_argument("--cases", type=int, default=300)
    ap.add_argument("--cap", type=float, default=15.0)
    ap.add_argument("--only", default="")
    ap.add_argument("--case", type=int, default=None)
    ap.add_argument("--shard", default="0/1")
    ap.add_argument("--out", default="-")
    a = ap.parse_args()
    warnings.simplefilter("ignore")
    signal.signal(signal.SIGVTALRM, _alarm)
    sys.setrecursionlimit(3000)
    k, n = map(int, a.shard.split("/"))
    jobs = []
    res = {"contracts": {}}
    try:
        ccs = load(a.mods.split(","))
    except Exception as e:
        json.dump({"load_error": f"{type(e).__name__}: {e}" + traceback.format_exc()[-1500:], "contracts": {}},
                  sys.stdout if a.out == "-" else open(a.out, "w"))
        return
    for cc in ccs:
        if a.prop not in cc.cls.props or cc.cls.trusted or not cc.cls.runtime:
            continue
        if a.only and cc.name not in a.only.split(","):
            continue
        for t in cc.targets():
            jobs.append((cc, t))
    for j, (cc, t) in enumerate(jobs):
        if j % n != k:
            continue
        r = {"evaluations": 0, "distinct_nontrivial": 0, "skipped": 0, "violations": [], "errors": [], "samples": [], "capped": []}
        if a.case is not None:
            fn = resolve(t)[0] if t else None
            env, _ = build_case(cc, t, a.seed, a.case, mine(fn) if fn else Mined())
            print("contract ", cc.name, "on", t or "lemma")
            for p, d in describe(env).items():
                print("  ", p, "=", d)
            try:
                print("outcome  ", run_case(cc, t, env))
            except Violation as v:
                print("VIOLATED ", v.clause, "\n", v.detail)
                sys.exit(1)
            continue
        t0 = time.time()
        search(cc, t, a.seed, a.cases, a.cap, r)
        r["time"] = round(time.time() - t0, 2)
        res["contracts"][f"{cc.name}@{t or 'lemma'}"] = r
    if a.case is None:
        json.dump(res, sys.stdout if a.out == "-" else open(a.out, "w"), indent=1)


if __name__ == "__main__":
    main()
