"""What contract files import.  Works under the symbolic engine (python3-vt, z3) and under CPython with the real
code loaded (/opt/venv): `use()` binds repository names to the real objects there, and is read as an import table
by the engine."""
from __future__ import annotations
import importlib
import os
import sys

from .types import (Ty, Bool, Int, Flt, Str, NoneT, Any, Opt, Set, Seq, Map, TupT, EnumT, Ref, Obj, Const, MISSING,
                    EnumMember, Func, ClassArg, KwDict)

CONCRETE = os.environ.get("PYDV_MODE") == "concrete"

CONTRACTS = []      # Contract subclasses in definition order
SPECFNS = {}        # (module, name) -> SpecFn


def use(module, *names):
    """Make repository names available in a contract file."""
    frame = sys._getframe(1)
    table = frame.f_globals.setdefault("__pydv_use__", {})
    for n in names:
        table[n] = (module, n)
    if CONCRETE:
        m = importlib.import_module(module)
        for n in names:
            frame.f_globals[n] = getattr(m, n)


class SpecFn:
    def __init__(self, fn, params, ret):
        self.fn, self.params, self.ret = fn, params, ret
        self.name = fn.__name__
        self.module = fn.__module__

    def __call__(self, *a):
        return self.fn(*a)


def spec(*params, ret):
    """A recursive specification function: uninterpreted for the solver, unfolded on demand."""
    def deco(fn):
        s = SpecFn(fn, params, ret)
        SPECFNS[(fn.__module__, fn.__name__)] = s
        return s
    return deco


INVARIANTS = {}     # Ref name -> [(module, function name)]


def invariant(ref):
    """Class invariant of an immutable family: assumed for arbitrary objects, proved for constructed ones."""
    def deco(fn):
        INVARIANTS.setdefault(ref.name, []).append((fn.__module__, fn.__name__))
        return fn
    return deco


class ContractMeta(type):
    def __new__(mcs, name, bases, ns):
        cls = super().__new__(mcs, name, bases, ns)
        if bases and not ns.get("abstract"):
            CONTRACTS.append(cls)
        return cls


class Contract(metaclass=ContractMeta):
    """target   'module:qualname' of the real function
    props    property ids this contract belongs to
    params   {parameter: Ty}
    returns  Ty of the result, or name of the parameter that is returned (identity), or None
    modifies ['self.field', ...] everything else reachable from the parameters is proved unchanged
    raises   {ExceptionName: method name of the condition (over the pre-state)} ; exception iff condition
    requires/ensures_*: methods without self: parameters by name, old_<param>, result
    """
    target = None
    props = ()
    params = {}
    returns = None
    modifies = ()
    raises = {}
    may_raise = ()       # exceptions permitted without a characterisation
    verify = None        # list of real functions verified against this contract (default [target])
    bounded = False      # only the runtime-contract search
    trusted = False      # assumed contract (environment); listed as an assumption
    use_at_calls = True
    runtime = True       # take part in the runtime search
    lemma = False
    gen = None           # optional concrete generator: gen(rng, size) -> dict of args
    invariants = {}
    weight = 1
    timeout = None
    note = ""


class Lemma(Contract):
    """A statement about several calls of real code: `def lemma(params...)` returns True."""
    abstract = True
    lemma = True


# ---------------------------------------------------------------------------------------------------------------
# specification vocabulary: CPython meaning (the engine has its own meaning for each)

def forall(xs, f):
    for x in (xs.items() if isinstance(xs, dict) and f.__code__.co_argcount == 2 else xs):
        if not (f(*x) if f.__code__.co_argcount == 2 else f(x)):
            return False
    return True


def exists(xs, f):
    for x in (xs.items() if isinstance(xs, dict) and f.__code__.co_argcount == 2 else xs):
        if f(*x) if f.__code__.co_argcount == 2 else f(x):
            return True
    return False


def forall_index(n, f):
    return all(f(i) for i in range(n))


def exists_index(n, f):
    return any(f(i) for i in range(n))


def same(a, b):
    """identity-or-equality of two values (term equality for the solver); NaN is the same as NaN"""
    if a is b:
        return True
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(k in b and same(v, b[k]) for k, v in a.items())
    return a == b


def implies(a, b):
    return (not a) or bool(b)


def mapput(m, k, v):
    r = dict(m)
    r[k] = v
    return r


def mapmerge(a, b):
    return {**a, **b}


def seq_eq(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def is_nan(x):
    return isinstance(x, float) and x != x


def is_instance_exact(x, c):
    return type(x) is c
