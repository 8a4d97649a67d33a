"""Mapping of specification types to z3 sorts, and the primitive theories (floats, strings, enums)."""
from __future__ import annotations
import z3
from . import types as T
from .source import REPO

_cache = {}


class Unsupported(Exception):
    pass


# -- floats: extended reals with nan ------------------------------------------------------------------------------
_F = z3.Datatype("Flt")
_F.declare("fin", ("r", z3.RealSort()))
_F.declare("pinf")
_F.declare("ninf")
_F.declare("nan")
FLT = _F.create()
STR = z3.DeclareSort("Str")
ANY = z3.DeclareSort("Any")

_enum_code = {}      # (enum type name) -> {(cls, member): code}


def clean(name):
    return "".join(c if c.isalnum() else "_" for c in name)


def sort_of(ty):
    if ty.name in _cache:
        return _cache[ty.name]
    s = _mk(ty)
    _cache[ty.name] = s
    return s


def _mk(ty):
    if ty == T.Bool:
        return z3.BoolSort()
    if ty == T.Int:
        return z3.IntSort()
    if ty == T.Flt:
        return FLT
    if ty == T.Str:
        return STR
    if ty == T.Any:
        return ANY
    if ty == T.NoneT:
        return z3.BoolSort()
    if isinstance(ty, (T.EnumT, T.TypeTag)):
        return z3.IntSort()
    if isinstance(ty, T.Ref):
        return z3.DeclareSort(clean(ty.name))
    if isinstance(ty, T.Func):
        return z3.DeclareSort("Fn_" + clean(ty.name))
    if isinstance(ty, T.Opt):
        d = z3.Datatype("Opt_" + clean(ty.t.name))
        d.declare("none")
        d.declare("some", ("val", sort_of(ty.t)))
        return d.create()
    if isinstance(ty, T.Set):
        return z3.ArraySort(sort_of(ty.t), z3.BoolSort())
    if isinstance(ty, T.Seq):
        d = z3.Datatype("Seq_" + clean(ty.t.name))
        d.declare("mk", ("len", z3.IntSort()), ("arr", z3.ArraySort(z3.IntSort(), sort_of(ty.t))))
        return d.create()
    if isinstance(ty, T.Map):
        d = z3.Datatype("Map_" + clean(ty.k.name) + "_" + clean(ty.v.name))
        d.declare("mk", ("dom", z3.ArraySort(sort_of(ty.k), z3.BoolSort())),
                  ("val", z3.ArraySort(sort_of(ty.k), sort_of(ty.v))))
        return d.create()
    if isinstance(ty, T.TupT):
        d = z3.Datatype("Tup_" + clean(ty.name))
        d.declare("mk", *[(f"e{i}", sort_of(t)) for i, t in enumerate(ty.ts)])
        return d.create()
    raise Unsupported(f"no sort for {ty}")


def enum_members(ty):
    """[(cls qual, member, value)] read from the current source"""
    if ty.members is None:
        out = []
        for cq in ty.classes:
            ci = REPO.class_(cq)
            for m, v in ci.enum_members():
                out.append((cq, m, v))
        ty.members = out
    return ty.members


def enum_code(ty, cq, member):
    for i, (c, m, _) in enumerate(enum_members(ty)):
        if c == cq and m == member:
            return i
    raise Unsupported(f"{cq}.{member} not in {ty}")


# -- string literals -----------------------------------------------------------------------------------------------
_lits = {}


def str_lit(s):
    """literals are pairwise distinct constants"""
    if s not in _lits:
        _lits[s] = z3.Const(f"str!{len(_lits)}!{clean(s)[:20]}", STR)
    return _lits[s]


def lit_facts():
    out = []
    ls = list(_lits.values())
    if len(ls) > 1:
        out.append(z3.Distinct(*ls))
    for s, c in list(_lits.items()):
        out.append(str_lower(c) == str_lit_q(s.lower(), c))
        out.append(str_upper(c) == str_lit_q(s.upper(), c))
        out.append(str_len(c) == len(s))
    return out


def str_lit_q(s, default):
    # lower()/upper() of a literal is a literal too; only named if it is already in use
    return _lits.get(s, str_other(default, s))


def str_other(c, s):
    return z3.Const("strx!" + clean(s), STR)


str_lower = z3.Function("str_lower", STR, STR)
str_upper = z3.Function("str_upper", STR, STR)
str_len = z3.Function("str_len", STR, z3.IntSort())
str_concat = z3.Function("str_concat", STR, STR, STR)
str_lt = z3.Function("str_lt", STR, STR, z3.BoolSort())

# -- float helpers -------------------------------------------------------------------------------------------------


def ffin(r):
    return FLT.fin(r)


def f_isnan(x):
    return FLT.is_nan(x)


def f_isinf(x):
    return z3.Or(FLT.is_pinf(x), FLT.is_ninf(x))


def f_isfin(x):
    return FLT.is_fin(x)


def f_eq(a, b):
    return z3.And(z3.Not(FLT.is_nan(a)), a == b)


def f_lt(a, b):
    return z3.If(z3.Or(FLT.is_nan(a), FLT.is_nan(b)), False,
                 z3.If(FLT.is_ninf(a), z3.Not(FLT.is_ninf(b)),
                       z3.If(FLT.is_pinf(b), z3.Not(FLT.is_pinf(a)),
                             z3.And(FLT.is_fin(a), FLT.is_fin(b), FLT.r(a) < FLT.r(b)))))


def f_le(a, b):
    return z3.And(z3.Not(FLT.is_nan(a)), z3.Not(FLT.is_nan(b)), z3.Or(a == b, f_lt(a, b)))


def f_neg(a):
    return z3.If(FLT.is_nan(a), FLT.nan, z3.If(FLT.is_pinf(a), FLT.ninf, z3.If(FLT.is_ninf(a), FLT.pinf, ffin(-FLT.r(a)))))


def f_add(a, b):
    nan = z3.Or(FLT.is_nan(a), FLT.is_nan(b), z3.And(FLT.is_pinf(a), FLT.is_ninf(b)), z3.And(FLT.is_ninf(a), FLT.is_pinf(b)))
    return z3.If(nan, FLT.nan,
                 z3.If(z3.Or(FLT.is_pinf(a), FLT.is_pinf(b)), FLT.pinf,
                       z3.If(z3.Or(FLT.is_ninf(a), FLT.is_ninf(b)), FLT.ninf, ffin(FLT.r(a) + FLT.r(b)))))


def f_sub(a, b):
    return f_add(a, f_neg(b))


def _sgn(a):
    # -1, 0, 1 for non-nan
    return z3.If(FLT.is_pinf(a), 1, z3.If(FLT.is_ninf(a), -1, z3.If(FLT.r(a) > 0, 1, z3.If(FLT.r(a) < 0, -1, 0))))


def f_mul(a, b):
    anyinf = z3.Or(f_isinf(a), f_isinf(b))
    s = _sgn(a) * _sgn(b)
    return z3.If(z3.Or(FLT.is_nan(a), FLT.is_nan(b)), FLT.nan,
                 z3.If(anyinf, z3.If(s == 0, FLT.nan, z3.If(s > 0, FLT.pinf, FLT.ninf)),
                       ffin(FLT.r(a) * FLT.r(b))))


def f_div(a, b):
    """b is not a finite zero (python raises ZeroDivisionError there)"""
    s = _sgn(a) * _sgn(b)
    return z3.If(z3.Or(FLT.is_nan(a), FLT.is_nan(b)), FLT.nan,
                 z3.If(f_isinf(b), z3.If(f_isinf(a), FLT.nan, ffin(z3.RealVal(0))),
                       z3.If(f_isinf(a), z3.If(s >= 0, FLT.pinf, FLT.ninf), ffin(FLT.r(a) / FLT.r(b)))))


def f_of_py(v):
    import math
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return ffin(z3.RealVal(v))
    if math.isnan(v):
        return FLT.nan
    if math.isinf(v):
        return FLT.pinf if v > 0 else FLT.ninf
    from fractions import Fraction
    fr = Fraction(v)
    return ffin(z3.Q(fr.numerator, fr.denominator))
