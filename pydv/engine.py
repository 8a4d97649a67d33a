"""Symbolic executor / verification-condition generator over the real source (Python AST)."""
from __future__ import annotations
import ast
import contextlib
import math
import z3

from . import types as T
from . import sorts as Z
from .sorts import Unsupported, sort_of, FLT
from .source import REPO, FuncInfo, ClassInfo, Module
from .values import *

MAXDEPTH = 40
FEAS_RLIMIT = 400_000


class Frame:
    def __init__(self, module, fi=None, parent=None, cls=None, spec=False):
        self.module, self.fi, self.parent, self.cls, self.spec = module, fi, parent, cls, spec
        self.locals = {}
        self.yields = None
        self.nonlocals = set()
        self.loop_ordinal = {}

    def lookup(self, n):
        f = self
        while f is not None:
            if n in f.locals:
                return f.locals[n]
            f = f.parent
        return None


class Ctx:
    """nested (quantified) execution context"""

    def __init__(self, mark):
        self.mark = mark          # cells with id < mark live outside
        self.log = []
        self.reads = set()
        self.writes = set()


class Dom:
    """iteration domain"""

    def __init__(self, items=None, sort=None, guard=None, elem=None, ordered=False, n=None, keyed=False):
        self.items, self.sort, self.guard, self.elem, self.ordered, self.n = items, sort, guard, elem, ordered, n
        self.keyed = keyed


class Contribution:
    __slots__ = ("binders", "guard", "value", "ordered")

    def __init__(self, binders, guard, value, ordered=True):
        self.binders, self.guard, self.value, self.ordered = binders, guard, value, ordered


EXC_BASES = {
    "StateError": ["RuntimeError", "Exception"], "LogicError": ["AssertionError", "Exception"],
    "VirtualTableError": ["StateError", "RuntimeError", "Exception"],
    "KeyError": ["LookupError", "Exception"], "IndexError": ["LookupError", "Exception"],
    "ZeroDivisionError": ["ArithmeticError", "Exception"], "OverflowError": ["ArithmeticError", "Exception"],
}

BUILTIN_NAMES = set("""len isinstance issubclass set frozenset list tuple dict str int float bool any all sum min max
sorted reversed enumerate zip range map filter next iter hash round abs type super getattr hasattr setattr print repr id
callable divmod pow object property Exception ValueError TypeError KeyError IndexError AttributeError RuntimeError
NotImplementedError StopIteration AssertionError LookupError ZeroDivisionError OverflowError ArithmeticError
UserWarning DeprecationWarning FutureWarning Warning RuntimeWarning NotImplemented Ellipsis vars open complex bytes""".split())


def plain(c):
    return not c.binders and z3.is_true(c.guard)


def contribs_of(p):
    if p.items is not None:
        return [Contribution([], z3.BoolVal(True), x) for x in p.items]
    return p.contribs


class Run:
    """one execution path (re-executed from the start for every path)"""

    def __init__(self, prefix, registry, opts=None):
        self.prefix = list(prefix)
        self.pos = 0
        self.alts = []
        self.facts = []            # (formula, kind)
        self.heap = {}
        self.next_cell = 1
        self.counter = 0
        self.bstack = []
        self.ctxs = []
        self.obligations = []
        self.depth = 0
        self.reg = registry
        self.opts = opts or {}
        self.solver = z3.SimpleSolver()
        self.solver.set("rlimit", FEAS_RLIMIT)
        self.callstack = []
        self.spec_fuel = 1
        self.unfolded = set()
        self.inv_seen = {}
        self.inv_stack = []
        self.assuming = 0
        self.folded = False
        self.fold_bound = True
        self.axioms = set()
        self.nchecks = 0
        self.used_contracts = set()
        self.taint = []
        self.inlined = set()
        self.under_verification = None
        self.spec_depth = 0
        self.sched = []

    # -- solver plumbing -------------------------------------------------------------------------------------------
    def fresh(self, name, sort):
        self.counter += 1
        nm = f"{Z.clean(name)}!{self.counter}"
        if not self.bstack:
            return z3.Const(nm, sort)
        f = z3.Function(nm, *[b.sort() for b in self.bstack], sort)
        return f(*self.bstack)

    def assume(self, f, kind="def"):
        if isinstance(f, bool):
            if not f:
                raise Infeasible()
            return
        if z3.is_true(f):
            return
        if z3.is_false(f):
            raise Infeasible()
        self.facts.append((f, kind))
        if not _has_quant(f):
            self.solver.add(f)

    def feasible(self, c):
        self.nchecks += 1
        self.solver.push()
        self.solver.add(c)
        r = self.solver.check()
        self.solver.pop()
        return r != z3.unsat

    def decide(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.prefix):
            b = self.prefix[self.pos]
            self.pos += 1
        else:
            neg = z3.Not(c)
            quant = _has_quant(c)
            t_ok = quant or self.feasible(c)
            f_ok = quant or self.feasible(neg)
            if t_ok and f_ok:
                self.alts.append(self.prefix[:self.pos] + [False])
                b = True
            elif t_ok:
                b = True
            elif f_ok:
                b = False
            else:
                raise Infeasible()
            self.prefix = self.prefix[:self.pos] + [b]
            self.pos += 1
        self.assume(c if b else z3.Not(c), "pc")
        return b

    def choose(self):
        """non-deterministic fork"""
        return self.decide(self.fresh("choice", z3.BoolSort()))

    def oblige(self, name, goal, info=None):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        self.obligations.append((name, [f for f, _ in self.facts] + self.axiom_facts(), goal, info))

    @contextlib.contextmanager
    def scope(self):
        """definitions made while evaluating one clause do not burden the next one"""
        mark, inv, unf, ax, fuel = len(self.facts), dict(self.inv_seen), set(self.unfolded), set(self.axioms), self.spec_fuel
        self.solver.push()
        try:
            yield
        finally:
            self.solver.pop()
            del self.facts[mark:]
            self.inv_seen, self.unfolded, self.axioms, self.spec_fuel = inv, unf, ax, fuel

    # -- heap --------------------------------------------------------------------------------------------------------
    def new_cell(self, kind, p):
        i = self.next_cell
        self.next_cell += 1
        self.heap[i] = Cell(kind, p)
        return Loc(i)

    def cell(self, loc, read=True):
        if read:
            for c in self.ctxs:
                if loc.id < c.mark:
                    c.reads.add(loc.id)
        return self.heap[loc.id]

    def mutate(self, loc, op, args, newp):
        """op logged when the cell is outside a quantified context, else applied"""
        for c in reversed(self.ctxs):
            if loc.id < c.mark:
                c.writes.add(loc.id)
                c.log.append((loc.id, op, [self.export(a) for a in args]))
                return
        p = newp()
        self.heap[loc.id] = Cell(self.heap[loc.id].kind, p)

    def export(self, sv):
        if isinstance(sv, Loc):
            c = self.heap[sv.id]
            if c.kind == "obj":
                if any(sv.id >= x.mark for x in self.ctxs):
                    raise Unsupported("mutable object escapes a quantified context")
                return sv
            return C(c.kind, self.export_p(c.p))
        if isinstance(sv, Tup):
            return Tup([self.export(x) for x in sv.items])
        if isinstance(sv, C):
            return C(sv.kind, self.export_p(sv.p))
        if isinstance(sv, GenDom):
            return C("list", self.seq_of_contribs(sv.contribs))
        return sv

    def export_p(self, p):
        if isinstance(p, SeqP) and p.items is not None:
            return SeqP([self.export(x) for x in p.items])
        if isinstance(p, SetP) and p.items is not None:
            return SetP([self.export(x) for x in p.items])
        if isinstance(p, MapP) and p.entries is not None:
            return MapP([(self.export(k), self.export(v)) for k, v in p.entries], default=p.default)
        return p

    # -- payload access ------------------------------------------------------------------------------------------------
    def kind(self, sv):
        if isinstance(sv, Tup):
            return "tuple"
        if isinstance(sv, C):
            return sv.kind
        if isinstance(sv, Loc):
            return self.heap[sv.id].kind
        if isinstance(sv, GenDom):
            return "generator"
        return None

    def payload(self, sv):
        if isinstance(sv, Tup):
            return SeqP(sv.items)
        if isinstance(sv, C):
            return sv.p
        if isinstance(sv, Loc):
            return self.cell(sv).p
        if isinstance(sv, GenDom):
            return self.seq_of_contribs(sv.contribs)
        raise Unsupported(f"no container payload: {sv}")

    # -- typing ---------------------------------------------------------------------------------------------------------
    def ty_of(self, sv):
        if isinstance(sv, S):
            return sv.ty
        if isinstance(sv, K):
            v = sv.v
            if v is None:
                return T.NoneT
            if isinstance(v, bool):
                return T.Bool
            if isinstance(v, int):
                return T.Int
            if isinstance(v, float):
                return T.Flt
            if isinstance(v, str):
                return T.Str
        if isinstance(sv, En):
            for e in self.reg.enums:
                if sv.ci.qual in e.classes:
                    return e
            raise Unsupported(f"no enum type declared for {sv}")
        if isinstance(sv, Tup):
            return T.TupT(*[self.ty_of(x) for x in sv.items])
        if isinstance(sv, Loc) and self.heap[sv.id].kind == "obj":
            fam = self.reg.ref_for(self.heap[sv.id].p.ci.qual)
            if fam is None:
                raise Unsupported(f"no type for object of {self.heap[sv.id].p.ci.name}")
            return fam
        if isinstance(sv, (C, Loc)):
            k = self.kind(sv)
            p = sv.p if isinstance(sv, C) else self.heap[sv.id].p
            if isinstance(p, SeqP):
                if p.items is None:
                    return T.Seq(p.ety, k)
                if not p.items:
                    raise Unsupported("type of empty sequence")
                return T.Seq(self.join_tys([self.ty_of(x) for x in p.items]), k)
            if isinstance(p, SetP):
                if p.items is None:
                    return T.Set(p.ety, k)
                if not p.items:
                    raise Unsupported("type of empty set")
                return T.Set(self.join_tys([self.ty_of(x) for x in p.items]), k)
            if isinstance(p, MapP):
                if p.entries is None:
                    return T.Map(p.kty, p.vty)
                if not p.entries:
                    raise Unsupported("type of empty dict")
                return T.Map(self.join_tys([self.ty_of(a) for a, _ in p.entries]),
                             self.join_tys([self.ty_of(b) for _, b in p.entries]))
        if isinstance(sv, TypeOf) and isinstance(sv.sv, S) and isinstance(sv.sv.ty, T.Ref):
            return T.TypeTag(sv.sv.ty)
        raise Unsupported(f"no type for {sv}")

    def join_tys(self, tys):
        r = tys[0]
        for t in tys[1:]:
            r = self.join_ty(r, t)
        return r

    def join_ty(self, a, b):
        if a == b:
            return a
        if a == T.NoneT:
            return b if isinstance(b, T.Opt) else T.Opt(b)
        if b == T.NoneT:
            return a if isinstance(a, T.Opt) else T.Opt(a)
        if isinstance(a, T.Opt):
            return T.Opt(self.join_ty(a.t, b.t if isinstance(b, T.Opt) else b))
        if isinstance(b, T.Opt):
            return T.Opt(self.join_ty(a, b.t))
        if {a.name, b.name} == {"Int", "Flt"}:
            return T.Flt
        if isinstance(a, T.EnumT) and isinstance(b, T.EnumT):
            need = set(a.classes) | set(b.classes)
            for e in sorted(self.reg.enums, key=lambda e: len(e.classes)):
                if need <= set(e.classes):
                    return e
        raise Unsupported(f"no common type for {a} and {b}")

    def func_const(self, sv, ty):
        """a known function passed where an arbitrary one is expected: a constant with the function's meaning"""
        if not isinstance(sv, (FuncV, LamV)):
            raise Unsupported("function value as term")
        if isinstance(sv, FuncV) and sv.closure is None and not sv.bound:
            c = z3.Const("fn!" + Z.clean(sv.fi.full), sort_of(ty))
            if ("fn", c.get_id()) in self.unfolded:
                return c
            self.unfolded.add(("fn", c.get_id()))
            self._keep(c)
        else:
            c = z3.Function(f"fn!{self.bump()}", *[b.sort() for b in self.bstack], sort_of(ty))(*self.bstack)
        bs = [z3.Const(f"fa!{self.bump()}", sort_of(t)) for t in ty.args]
        ap = z3.Function("apply_" + Z.clean(ty.name), c.sort(), *[b.sort() for b in bs], sort_of(ty.ret))(c, *bs)

        def body():
            r = self.call(sv, [self.lift(t, b) for t, b in zip(ty.args, bs)], {})
            return self.truth_term(r) if ty.ret == T.Bool else self.coerce(r, ty.ret)
        fr = Frame(sv.fi.module, sv.fi, None, None) if isinstance(sv, FuncV) else sv.frame
        res = self.nested(bs, z3.BoolVal(True), body, fr)
        for pc, kd, v, log in res:
            if kd == "val" and not log:
                self.assume(z3.ForAll(bs, z3.Implies(pc, ap == v), patterns=[ap]))
        return c

    def coerce(self, sv, ty):
        """solver term of sort_of(ty) denoting sv"""
        if isinstance(sv, Poison):
            raise Unsupported(sv.why)
        if isinstance(sv, GenDom):
            sv = C("list", self.seq_of_contribs(sv.contribs))
        if isinstance(ty, T.Opt):
            s = sort_of(ty)
            if isinstance(sv, K) and sv.v is None:
                return s.none
            if isinstance(sv, S) and sv.ty == ty:
                return sv.t
            return s.some(self.coerce(sv, ty.t))
        if isinstance(sv, S):
            if sv.ty == ty:
                return sv.t
            if isinstance(sv.ty, T.Opt):
                inner = self.resolve_opt(sv)
                return self.coerce(inner, ty)
            if ty == T.Flt and sv.ty == T.Int:
                return FLT.fin(z3.ToReal(sv.t))
            if ty == T.Flt and sv.ty == T.Bool:
                return FLT.fin(z3.If(sv.t, z3.RealVal(1), z3.RealVal(0)))
            if ty == T.Int and sv.ty == T.Bool:
                return z3.If(sv.t, 1, 0)
            if isinstance(ty, T.EnumT) and isinstance(sv.ty, T.EnumT):
                return self._enum_conv(sv, ty)
            if ty == T.Any:
                f = z3.Function(f"inj_{Z.clean(sv.ty.name)}", sort_of(sv.ty), Z.ANY)
                return f(sv.t)
            if isinstance(ty, T.Ref) and isinstance(sv.ty, T.Ref) and set(sv.ty.classes) & set(ty.classes):
                raise Unsupported(f"ref conversion {sv.ty}->{ty}")
            raise Unsupported(f"cannot use {sv.ty} as {ty}")
        if isinstance(ty, T.TypeTag):
            if isinstance(sv, TypeOf) and isinstance(sv.sv, S) and sv.sv.ty == ty.ref:
                return self.tag(sv.sv) if len(ty.ref.classes) > 1 else z3.IntVal(0)
            if isinstance(sv, ClassV) and sv.ci.qual in ty.ref.classes:
                return z3.IntVal(ty.ref.classes.index(sv.ci.qual))
            raise Unsupported(f"cannot use {sv} as {ty.name}")
        if isinstance(sv, K):
            v = sv.v
            if ty == T.Bool and isinstance(v, bool):
                return z3.BoolVal(v)
            if ty == T.Int and isinstance(v, int):
                return z3.IntVal(int(v))
            if ty == T.Flt and isinstance(v, (int, float)):
                return Z.f_of_py(v)
            if ty == T.Str and isinstance(v, str):
                return Z.str_lit(v)
            if ty == T.NoneT and v is None:
                return z3.BoolVal(False)
            if ty == T.Any:
                return z3.Const(f"any_const_{type(v).__name__}_{Z.clean(str(v))}", Z.ANY)
            raise Unsupported(f"cannot use constant {v!r} as {ty}")
        if isinstance(sv, En) and ty == T.Any:
            t = z3.Const(f"any_enum_{Z.clean(sv.ci.qual)}_{sv.m}", Z.ANY)
            members = [m for m, _ in sv.ci.enum_members()]
            self.assume(z3.Function(f"any_enum_code_{Z.clean(sv.ci.qual)}", Z.ANY, z3.IntSort())(t) == members.index(sv.m))
            return t
        if isinstance(sv, En):
            if isinstance(ty, T.EnumT):
                return z3.IntVal(Z.enum_code(ty, sv.ci.qual, sv.m))
            if ty == T.Str and "StrEnum" in sv.ci.all_base_names():
                return Z.str_lit(sv.val)
            raise Unsupported(f"enum {sv} as {ty}")
        if isinstance(ty, T.TupT):
            p = self.payload(sv)
            if p.items is None or len(p.items) != len(ty.ts):
                raise Unsupported(f"tuple shape {sv} as {ty}")
            return sort_of(ty).mk(*[self.coerce(x, t) for x, t in zip(p.items, ty.ts)])
        if isinstance(ty, T.Seq):
            return self.seq_term(self.payload(sv), ty.t)
        if isinstance(ty, T.Set):
            return self.set_term(self.payload(sv), ty.t)
        if isinstance(ty, T.Map):
            p = self.map_sym(self.payload(sv), ty.k, ty.v)
            return sort_of(ty).mk(p.dom, p.val)
        if isinstance(ty, T.Ref) and isinstance(sv, Loc) and self.heap[sv.id].kind == "obj":
            return self.freeze(sv, ty)
        if isinstance(ty, T.Func):
            return self.func_const(sv, ty)
        if ty == T.Any and isinstance(sv, (Loc, C, Tup)):
            try:
                t = self.ty_of(sv)
            except Unsupported:
                return self.fresh("anyobj", Z.ANY)
            f = z3.Function(f"inj_{Z.clean(t.name)}", sort_of(t), Z.ANY)
            return f(self.coerce(sv, t))
        raise Unsupported(f"cannot use {sv} as {ty}")

    def _enum_conv(self, sv, ty):
        src = Z.enum_members(sv.ty)
        out = z3.IntVal(-1)
        for i, (c, m, _) in enumerate(src):
            try:
                code = Z.enum_code(ty, c, m)
            except Unsupported:
                continue
            out = z3.If(sv.t == i, code, out)
        return out

    def seq_term(self, p, ety):
        s = sort_of(T.Seq(ety))
        if isinstance(p, SetP):
            p = self.enumerate_set(p)
        if isinstance(p, MapP):
            p = self.enumerate_set(SetP(None, p.kty, p.dom) if p.entries is None else SetP([k for k, _ in p.entries]))
        if p.items is not None:
            arr = self._dummy_arr(ety)
            for i, x in enumerate(p.items):
                arr = z3.Store(arr, i, self.coerce(x, ety))
            return s.mk(z3.IntVal(len(p.items)), arr)
        if p.ety == ety:
            return s.mk(p.n, p.arr)
        # element conversion
        v = z3.Int(f"ci!{self.bump()}")
        arr = self.fresh("conv", z3.ArraySort(z3.IntSort(), sort_of(ety)))
        pats = [z3.Select(arr, v)]
        if z3.is_const(p.arr):
            pats.append(z3.Select(p.arr, v))
        self.assume(z3.ForAll([v], z3.Select(arr, v) == self.conv_term(z3.Select(p.arr, v), p.ety, ety), patterns=pats))
        return s.mk(p.n, arr)

    def bump(self):
        self.counter += 1
        return self.counter

    def conv_term(self, t, src, dst):
        if src == dst:
            return t
        if isinstance(dst, T.Opt) and not isinstance(src, T.Opt):
            return sort_of(dst).some(self.conv_term(t, src, dst.t))
        if dst == T.Flt and src == T.Int:
            return FLT.fin(z3.ToReal(t))
        if isinstance(src, T.EnumT) and isinstance(dst, T.EnumT):
            return self._enum_conv(S(src, t), dst)
        raise Unsupported(f"element conversion {src}->{dst}")

    def _dummy_arr(self, ety):
        return z3.K(z3.IntSort(), z3.Const("dummy_" + Z.clean(ety.name), sort_of(ety)))

    def set_term(self, p, ety):
        if isinstance(p, MapP):
            p = SetP(None, p.kty, p.dom) if p.entries is None else SetP([k for k, _ in p.entries])
        if isinstance(p, SeqP):
            p = self.set_of_seq(p)
        if p.items is not None:
            arr = z3.K(sort_of(ety), z3.BoolVal(False))
            for x in p.items:
                arr = z3.Store(arr, self.coerce(x, ety), True)
            return arr
        if p.ety != ety:
            if isinstance(p.ety, T.EnumT) and isinstance(ety, T.EnumT):
                arr = z3.K(sort_of(ety), z3.BoolVal(False))
                for i, (c, m, _) in enumerate(Z.enum_members(p.ety)):
                    arr = z3.Store(arr, Z.enum_code(ety, c, m), z3.Select(p.arr, i))
                return arr
            raise Unsupported(f"set of {p.ety} as set of {ety}")
        return p.arr

    def set_of_seq(self, p):
        if p.items is not None:
            return SetP(list(p.items))
        if p.contribs is not None:
            return self.set_of_contribs(p.contribs)
        x = z3.Const(f"x!{self.bump()}", sort_of(p.ety))
        i = z3.Int(f"i!{self.bump()}")
        arr = self.fresh("setof", z3.ArraySort(sort_of(p.ety), z3.BoolSort()))
        self.assume(z3.ForAll([x], z3.Select(arr, x) == z3.Exists([i], z3.And(0 <= i, i < p.n, z3.Select(p.arr, i) == x)),
                              patterns=[z3.Select(arr, x)]))
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p.n), z3.Select(arr, z3.Select(p.arr, i))),
                              patterns=[z3.Select(p.arr, i)]))
        return SetP(None, p.ety, arr)

    def map_sym(self, p, kty, vty):
        if p.entries is not None:
            dom = z3.K(sort_of(kty), z3.BoolVal(False))
            val = z3.K(sort_of(kty), z3.Const("dummy_" + Z.clean(vty.name), sort_of(vty)))
            for k, v in p.entries:
                kt = self.coerce(k, kty)
                dom = z3.Store(dom, kt, True)
                val = z3.Store(val, kt, self.coerce(v, vty))
            return MapP(None, kty, vty, dom, val, default=p.default)
        if p.kty == kty and p.vty == vty:
            return p
        if p.kty == kty:
            k = z3.Const(f"k!{self.bump()}", sort_of(kty))
            val = self.fresh("mconv", z3.ArraySort(sort_of(kty), sort_of(vty)))
            self.assume(z3.ForAll([k], z3.Select(val, k) == self.conv_term(z3.Select(p.val, k), p.vty, vty)))
            return MapP(None, kty, vty, p.dom, val)
        raise Unsupported(f"map {p.kty}->{p.vty} as {kty}->{vty}")

    def lift(self, ty, t):
        """value denoted by a solver term"""
        if isinstance(ty, T.Seq):
            s = sort_of(ty)
            n = z3.simplify(s.len(t))
            self.assume(n >= ty.minlen)
            return C(ty.kind, SeqP(None, ty.t, n, z3.simplify(s.arr(t))))
        if isinstance(ty, T.Set):
            return C(ty.kind, SetP(None, ty.t, t))
        if isinstance(ty, T.Map):
            s = sort_of(ty)
            return C("dict", MapP(None, ty.k, ty.v, z3.simplify(s.dom(t)), z3.simplify(s.val(t))))
        if isinstance(ty, T.TupT):
            s = sort_of(ty)
            return Tup([self.lift(x, z3.simplify(s.accessor(0, i)(t))) for i, x in enumerate(ty.ts)])
        if ty == T.NoneT:
            return K(None)
        v = S(ty, t)
        if isinstance(ty, T.EnumT):
            if not z3.is_int_value(t):
                self.assume(z3.And(t >= 0, t < len(Z.enum_members(ty))))
        if isinstance(ty, T.Ref):
            self.ref_facts(v)
        return v

    # -- reference families ---------------------------------------------------------------------------------------------
    def tag(self, sv):
        f = z3.Function("tag_" + Z.clean(sv.ty.name), sort_of(sv.ty), z3.IntSort())
        return f(sv.t)

    def ref_classes(self, ty):
        return [REPO.class_(c) for c in ty.classes]

    def ref_facts(self, v):
        ty = v.ty
        key = (ty.name, v.t.get_id())
        if key in self.inv_seen or ty.name in self.inv_stack:
            return
        if self.bstack and _mentions(v.t, self.bstack):
            # terms under a binder: one universally quantified axiom per family
            self.type_axiom(ty)
            return
        self.inv_seen[key] = v.t
        self.ref_facts_of(v)

    def ref_facts_of(self, v):
        ty = v.ty
        if len(ty.classes) > 1:
            tg = self.tag(v)
            self.assume(z3.And(tg >= 0, tg < len(ty.classes)))
        if ty.eq == "struct":
            self.struct_facts(v)
        self.inv_stack.append(ty.name)       # parts of the same family get their facts when code touches them
        try:
            for inv in self.reg.invs.get(ty.name, ()):
                self.assume_spec(inv, [v])
        finally:
            self.inv_stack.pop()

    def type_axiom(self, ty):
        if ty.name in self.axioms:
            return
        self.axioms.add(ty.name)
        if ty.name in self.reg.axioms:
            for dep in self.reg.axioms[ty.name][1]:
                self.type_axiom(dep)
            return
        if len(ty.classes) <= 1 and ty.eq != "struct" and not self.reg.invs.get(ty.name):
            self.reg.axioms[ty.name] = ([], [])
            return
        saved = (self.facts, self.bstack, self.ctxs, self.solver, self.counter, self.inv_seen, self.unfolded, self.prefix,
                 self.pos, self.alts, self.spec_fuel, self.axioms)
        x = z3.Const(f"x!{Z.clean(ty.name)}", sort_of(ty))
        try:
            self.facts, self.bstack, self.ctxs, self.inv_seen, self.unfolded = [], [x], [], {}, set()
            self.solver = z3.SimpleSolver()
            self.solver.set("rlimit", FEAS_RLIMIT)
            self.counter = 10_000_000 + 100_000 * len(self.reg.axioms)
            self.axioms = {ty.name}
            self.reg.axioms[ty.name] = ([], [])
            v = S(ty, x)
            self.inv_seen[(ty.name, x.get_id())] = x
            self.ref_facts_of(v)
            body = z3.simplify(z3.And(*[f for f, _ in self.facts])) if self.facts else z3.BoolVal(True)
            pats = [self.field_term(ty, x, fn, ft) for fn, ft in ty.fields.items()]
            if len(ty.classes) > 1:
                pats.append(self.tag(v))
            deps = [r for r in self.reg.refs if r.name in self.axioms and r.name != ty.name]
            ax = [] if z3.is_true(body) else [z3.ForAll([x], body, patterns=pats) if pats else z3.ForAll([x], body)]
            self.reg.axioms[ty.name] = (ax, deps)
        finally:
            (self.facts, self.bstack, self.ctxs, self.solver, self.counter, self.inv_seen, self.unfolded, self.prefix,
             self.pos, self.alts, self.spec_fuel, self.axioms) = saved
        for dep in self.reg.axioms[ty.name][1]:
            self.type_axiom(dep)

    def axiom_facts(self):
        return [f for n in sorted(self.axioms) for f in self.reg.axioms[n][0]]

    def struct_ctor(self, ty):
        sorts = [z3.IntSort()] + [sort_of(t) for t in ty.fields.values()]
        return z3.Function("mk_" + Z.clean(ty.name), *sorts, sort_of(ty))

    def absent(self, ty, fn):
        return z3.Const(f"absent_{Z.clean(ty.name)}_{fn}", sort_of(ty.fields[fn]))

    def struct_facts(self, v):
        """an object of a structural family is determined by its class and fields"""
        ty = v.ty
        cis = self.ref_classes(ty)
        tg = self.tag(v) if len(cis) > 1 else z3.IntVal(0)
        self.assume(v.t == self.struct_ctor(ty)(tg, *[self.field_term(ty, v.t, fn, ft) for fn, ft in ty.fields.items()]))
        if len(cis) > 1:
            for fn, ft in ty.fields.items():
                lack = [i for i, c in enumerate(cis) if not self.class_has_attr(c, fn)]
                if lack:
                    self.assume(z3.Implies(z3.Or(*[tg == i for i in lack]), self.field_term(ty, v.t, fn, ft) == self.absent(ty, fn)))

    def assume_spec(self, fnode, args):
        with self.in_assumption():
            r = self.eval_specfn_body(fnode, args)
        self.assume(self.truth_term(r))

    @contextlib.contextmanager
    def in_assumption(self):
        """an undefined sub-formula of a proved statement may be read as false where the statement is used: it was proved
        for every reading"""
        self.assuming += 1
        try:
            yield
        finally:
            self.assuming -= 1

    def field(self, sv, name, fty):
        f = z3.Function(f"{Z.clean(sv.ty.name)}_{name}", sort_of(sv.ty), sort_of(fty))
        return self.lift(fty, f(sv.t))

    def field_term(self, ty, t, name, fty):
        f = z3.Function(f"{Z.clean(ty.name)}_{name}", sort_of(ty), sort_of(fty))
        return f(t)

    def freeze(self, loc, ty):
        """turn a constructed heap object of an immutable class into a term"""
        p = self.heap[loc.id].p
        cached = getattr(p, "ty", None)
        if isinstance(cached, S):
            return cached.t
        if p.ci.qual not in ty.classes:
            raise Unsupported(f"{p.ci.qual} is not in family {ty}")
        idx = ty.classes.index(p.ci.qual)
        if ty.opaque:
            p.ty = S(ty, self.fresh(f"some_{ty.name}", sort_of(ty)))   # nothing is known about it
            return p.ty.t
        vals = {fn: self.coerce(p.fields[fn], fty) if fn in p.fields else self.absent(ty, fn) for fn, fty in ty.fields.items()}
        t = self.struct_ctor(ty)(z3.IntVal(idx), *vals.values()) if ty.eq == "struct" else self.fresh(ty.name, sort_of(ty))
        v = S(ty, t)
        self._keep(t)
        for fn, fty in ty.fields.items():
            if fn in p.fields or ty.eq == "struct":
                self.assume(self.field_term(ty, t, fn, fty) == vals[fn])
        if len(ty.classes) > 1:
            self.assume(self.tag(v) == ty.classes.index(p.ci.qual))
        self.inv_seen[(ty.name, t.get_id())] = t
        for inv in self.reg.invs.get(ty.name, ()):
            r = self.eval_specfn_body(inv, [v])
            self.oblige(f"class invariant {inv.name} of {ty.name} established", self.truth_term(r))
            self.assume(self.truth_term(r))
        self.heap[loc.id] = Cell("obj", ObjP(p.ci, p.fields, v))
        return t

    def resolve_opt(self, sv):
        """case split an optional value"""
        while isinstance(sv, S) and isinstance(sv.ty, T.Opt):
            s = sort_of(sv.ty)
            if self.decide(s.is_none(sv.t)):
                return K(None)
            sv = self.lift(sv.ty.t, z3.simplify(s.val(sv.t)))
        return sv

    # -- contributions ------------------------------------------------------------------------------------------------
    def nested(self, binders, guard, body, frame, ctx=None):
        """explore `body` for arbitrary binder values; returns [(pc formula, outcome kind, value, ctx log)]"""
        outer = (self.prefix, self.pos, self.alts)
        mark = len(self.facts)
        heap0 = dict(self.heap)
        saved_locals = []
        f = frame
        while f is not None:
            saved_locals.append((f, dict(f.locals)))
            f = f.parent
        cell0, counter0 = self.next_cell, self.counter
        maxcell, maxcounter = cell0, counter0
        inv0 = dict(self.inv_seen)
        unf0 = set(self.unfolded)
        self.bstack.extend(binders)
        self.solver.push()
        self.ctxs.append(ctx or Ctx(self.next_cell))
        c = self.ctxs[-1]
        results, generalized = [], {}
        self.facts.append((guard, "pc"))
        if not _has_quant(guard):
            self.solver.add(guard)
        worklist = [[]]
        n = 0
        try:
            while worklist:
                n += 1
                if n > 200:
                    raise Unsupported("too many paths in quantified context")
                self.prefix, self.pos, self.alts = worklist.pop(), 0, []
                self.heap = dict(heap0)
                for fr, loc in saved_locals:
                    fr.locals = dict(loc)
                self.next_cell, self.counter = cell0, counter0
                self.inv_seen, self.unfolded = dict(inv0), set(unf0)
                c.log = []
                self.solver.push()
                out = None
                try:
                    r = body()
                    out = ("val", r)
                except Infeasible:
                    out = None
                except PyRaise as e:
                    out = ("raise", e)
                except ReturnEx as e:
                    out = ("return", e)
                except BreakEx as e:
                    out = ("break", e)
                except ContinueEx:
                    out = ("val", None)
                finally:
                    self.solver.pop()
                maxcell = max(maxcell, self.next_cell)
                maxcounter = max(maxcounter, self.counter)
                new = self.facts[mark + 1:]
                del self.facts[mark + 1:]
                pcs = []
                for fct, kd in new:
                    if kd == "pc":
                        pcs.append(fct)
                    else:
                        g = z3.Implies(z3.And(guard, *pcs) if pcs else guard, fct)
                        q = _forall(binders, g)
                        generalized.setdefault(q.get_id(), q)
                if out is not None:
                    results.append((z3.And(*pcs) if pcs else z3.BoolVal(True), out[0], out[1], c.log))
                worklist.extend(self.alts)
        finally:
            self.prefix, self.pos, self.alts = outer
            self.heap = heap0
            for fr, loc in saved_locals:
                fr.locals = loc
            self.ctxs.pop()
            del self.bstack[len(self.bstack) - len(binders):]
            self.solver.pop()
            del self.facts[mark:]
            self.next_cell, self.counter = maxcell, maxcounter
            self.inv_seen, self.unfolded = inv0, unf0
        if c.reads & c.writes:
            raise Unsupported("loop-carried container (read and written in the loop body)")
        for q in generalized.values():
            self.facts.append((q, "def"))
            if not _has_quant(q):
                self.solver.add(q)
        return results

    def raise_from(self, results, binders, guard):
        """exceptions inside a quantified evaluation"""
        for pc, kd, v, _ in results:
            if kd == "raise":
                if self.decide(_exists(binders, z3.And(guard, pc))):
                    raise v

    def product_contribs(self, prod, body, frame):
        """contributions of nested loops over all parts of a product"""
        def level(i, acc):
            if i == len(prod.parts):
                return body(Tup(acc))
            dom = self.iter_dom(prod.parts[i])
            if dom.items is not None:
                return [c for it in dom.items for c in level(i + 1, acc + [it])]
            v = z3.Const(f"v!{self.bump()}", dom.sort)
            guard = dom.guard(v)
            res = self.nested([v], guard, lambda: level(i + 1, acc + [dom.elem(v)]), frame)
            self.raise_from(res, [v], guard)
            return [Contribution([v] + cc.binders, z3.And(guard, pc, cc.guard), cc.value, False)
                    for pc, kd, cs, _ in res if kd == "val" for cc in cs]
        return level(0, [])

    def comprehend(self, gens, elt, frame):
        """list of Contributions of a (nested) comprehension"""
        if not gens:
            return [Contribution([], z3.BoolVal(True), self.export(elt()))]
        g, rest = gens[0], gens[1:]
        src = self.eval(g.iter, frame)
        if isinstance(src, ProdV):
            def one(t):
                self.bind(g.target, t, frame)
                for c in g.ifs:
                    if not self.truthy(self.eval(c, frame)):
                        return []
                return self.comprehend(rest, elt, frame)
            return self.product_contribs(src, one, frame)
        dom = self.iter_dom(src)
        if dom.items is not None:
            out = []
            if g.ifs and len(dom.items) > 2:
                # symbolic filters over a literal domain: guarded contributions instead of 2^n paths
                for it in dom.items:
                    def body1():
                        self.bind(g.target, it, frame)
                        for c in g.ifs:
                            if not self.truthy(self.eval(c, frame)):
                                return []
                        return self.comprehend(rest, elt, frame)
                    res = self.nested([], z3.BoolVal(True), body1, frame)
                    self.raise_from(res, [], z3.BoolVal(True))
                    for pc, kd, cs, _ in res:
                        if kd == "val":
                            for cc in cs:
                                out.append(Contribution(cc.binders, z3.simplify(z3.And(pc, cc.guard)), cc.value, cc.ordered))
                return out
            for it in dom.items:
                self.bind(g.target, it, frame)
                if all(self.truthy(self.eval(c, frame)) for c in g.ifs):
                    out.extend(self.comprehend(rest, elt, frame))
            return out
        v = z3.Const(f"v!{self.bump()}", dom.sort)
        guard = dom.guard(v)

        def body():
            self.bind(g.target, dom.elem(v), frame)
            for c in g.ifs:
                if not self.truthy(self.eval(c, frame)):
                    return []
            return self.comprehend(rest, elt, frame)
        res = self.nested([v], guard, body, frame)
        self.raise_from(res, [v], guard)
        out = []
        for pc, kd, cs, _ in res:
            if kd != "val":
                continue
            for cc in cs:
                out.append(Contribution([v] + cc.binders, z3.And(guard, pc, cc.guard), cc.value, dom.ordered))
        for o in out:
            o.ordered = o.ordered and dom.ordered and len(o.binders) == 1
        self._tag_exhaustive(out, dom, res, v)
        return out

    def _tag_exhaustive(self, out, dom, res, v):
        """mark the unconditional element-wise map case"""
        if dom.ordered and out and all(len(o.binders) == 1 for o in out) and \
                all(kd == "val" and len(cs) == 1 for _, kd, cs, _ in res if kd != "raise") :
            for o in out:
                o.ordered = ("map", dom.n)

    def elem_ty(self, values):
        return self.join_tys([self.ty_of(x) for x in values])

    def narrowed(self, cs):
        """elements that are only contributed if they are not None"""
        import copy
        out = []
        for c in cs:
            v = c.value
            if isinstance(v, S) and isinstance(v.ty, T.Opt) and not isinstance(v.ty.t, T.Opt):
                s = sort_of(v.ty)
                if not _has_quant(c.guard) and not self.feasible(z3.And(c.guard, s.is_none(v.t))):
                    c = copy.copy(c)
                    c.value = self.lift(v.ty.t, z3.simplify(s.val(v.t)))
            out.append(c)
        return out

    def seq_of_contribs(self, cs):
        cs = self.narrowed(cs)
        if all(plain(c) for c in cs):
            return SeqP([c.value for c in cs])
        r = self._seq_of_contribs(cs)
        r.contribs = cs
        return r

    def _seq_of_contribs(self, cs):
        ety = self.elem_ty([c.value for c in cs])
        es = sort_of(ety)
        terms = [(c, self.coerce(c.value, ety)) for c in cs]
        first = cs[0]
        if isinstance(first.ordered, tuple) and first.ordered[0] == "map" and all(c.ordered == first.ordered and len(c.binders) == 1 and c.binders[0].eq(first.binders[0]) for c in cs):
            v = first.binders[0]
            arr = self.fresh("map", z3.ArraySort(z3.IntSort(), es))
            for c, t in terms:
                self.assume(z3.ForAll([v], z3.Implies(c.guard, z3.Select(arr, v) == t), patterns=[z3.Select(arr, v)]))
                self.assume_also(v, c.guard, arr, t)
            return SeqP(None, ety, first.ordered[1], arr)
        n = self.fresh("n", z3.IntSort())
        arr = self.fresh("coll", z3.ArraySort(z3.IntSort(), es))
        self.assume(n >= 0)
        j = z3.Int(f"j!{self.bump()}")
        alts = []
        plain, idxs = 0, []
        for c, t in terms:
            if not c.binders:
                plain += 1
            idx_f = z3.Function(f"idx!{self.bump()}", *[b.sort() for b in self.bstack + c.binders], z3.IntSort())
            idx = idx_f(*self.bstack, *c.binders)
            idxs.append(idx)
            body = z3.And(0 <= idx, idx < n, z3.Select(arr, idx) == t)
            self.assume(_forall(c.binders, z3.Implies(c.guard, body)))
            inv = [z3.Function(f"inv!{self.bump()}", *[b.sort() for b in self.bstack], z3.IntSort(), b.sort())(*self.bstack, j) for b in c.binders]
            sub = list(zip(c.binders, inv))
            alts.append(z3.And(z3.substitute(c.guard, *sub) if sub else c.guard,
                               z3.Select(arr, j) == (z3.substitute(t, *sub) if sub else t),
                               (z3.substitute(idx, *sub) if sub else idx) == j))
            if c.ordered and len(c.binders) == 1 and len(cs) == 1:
                v, w = c.binders[0], z3.Const(f"w!{self.bump()}", c.binders[0].sort())
                gw = z3.substitute(c.guard, (v, w))
                iw = z3.substitute(idx, (v, w))
                self.assume(z3.ForAll([v, w], z3.Implies(z3.And(c.guard, gw, v < w), idx < iw)))
        self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Or(*alts)), patterns=[z3.Select(arr, j)]))
        if plain == len(cs):
            self.assume(n == z3.Sum(*[z3.If(c.guard, 1, 0) for c in cs]))
            for i in range(len(cs) - 1):
                # positions follow the order of the literal domain
                for k in range(i + 1, len(cs)):
                    self.assume(z3.Implies(z3.And(cs[i].guard, cs[k].guard), idxs[i] < idxs[k]))
        return SeqP(None, ety, n, arr)

    def assume_also(self, v, guard, arr, t):
        # a second trigger: terms of the source sequence occurring in t
        pass

    def set_of_contribs(self, cs):
        cs = self.narrowed(cs)
        if all(plain(c) for c in cs):
            return SetP([c.value for c in cs])
        ety = self.elem_ty([c.value for c in cs])
        es = sort_of(ety)
        x = z3.Const(f"x!{self.bump()}", es)
        arr = self.fresh("setc", z3.ArraySort(es, z3.BoolSort()))
        alts = []
        for c in cs:
            t = self.coerce(c.value, ety)
            if len(c.binders) == 1 and t.eq(c.binders[0]):
                alts.append(z3.substitute(c.guard, (c.binders[0], x)))
            else:
                alts.append(_exists(c.binders, z3.And(c.guard, x == t)))
                self.assume(_forall(c.binders, z3.Implies(c.guard, z3.Select(arr, t))))
        self.assume(z3.ForAll([x], z3.Select(arr, x) == z3.Or(*alts), patterns=[z3.Select(arr, x)]))
        return SetP(None, ety, arr)

    def map_of_contribs(self, cs):
        if all(plain(c) for c in cs):
            out = MapP([])
            for c in cs:
                k, v = c.value.items
                out = self.map_put(out, k, v)
            return out
        kty = self.elem_ty([c.value.items[0] for c in cs])
        vty = self.elem_ty([c.value.items[1] for c in cs])
        ks, vs = sort_of(kty), sort_of(vty)
        dom = self.fresh("dom", z3.ArraySort(ks, z3.BoolSort()))
        val = self.fresh("val", z3.ArraySort(ks, vs))
        x = z3.Const(f"x!{self.bump()}", ks)
        alts = []
        for c in cs:
            kt, vt = self.coerce(c.value.items[0], kty), self.coerce(c.value.items[1], vty)
            if len(c.binders) == 1 and kt.eq(c.binders[0]):
                b = c.binders[0]
                alts.append(z3.And(z3.substitute(c.guard, (b, x)), z3.Select(val, x) == z3.substitute(vt, (b, x))))
            else:
                last = z3.BoolVal(True)
                if c.ordered and len(cs) == 1 and len(c.binders) == 1:
                    w = z3.Const(f"w!{self.bump()}", c.binders[0].sort())
                    gw = z3.substitute(c.guard, (c.binders[0], w))
                    kw = z3.substitute(kt, (c.binders[0], w))
                    last = z3.ForAll([w], z3.Implies(z3.And(w > c.binders[0], gw), kw != x))
                alts.append(_exists(c.binders, z3.And(c.guard, kt == x, z3.Select(val, x) == vt, last)))
                self.assume(_forall(c.binders, z3.Implies(c.guard, z3.Select(dom, kt))))
        d = z3.Select(dom, x)
        self.assume(z3.ForAll([x], z3.Implies(d, z3.Or(*alts)), patterns=[d]))
        # everything contributed is in the domain
        dalts = []
        for c in cs:
            kt = self.coerce(c.value.items[0], kty)
            if len(c.binders) == 1 and kt.eq(c.binders[0]):
                dalts.append(z3.substitute(c.guard, (c.binders[0], x)))
            else:
                dalts.append(_exists(c.binders, z3.And(c.guard, kt == x)))
        self.assume(z3.ForAll([x], d == z3.Or(*dalts), patterns=[d]))
        return MapP(None, kty, vty, dom, val)

    def any_of(self, cs):
        ds = []
        for c in cs:
            t = self.truth_term(c.value)
            ds.append(_exists(c.binders, z3.And(c.guard, t)))
        return z3.Or(*ds) if ds else z3.BoolVal(False)

    def all_of(self, cs):
        ds = []
        for c in cs:
            t = self.truth_term(c.value)
            ds.append(_forall(c.binders, z3.Implies(c.guard, t)))
        return z3.And(*ds) if ds else z3.BoolVal(True)

    def enumerate_set(self, p):
        """a sequence listing a set in unspecified order"""
        if p.items is not None:
            if len(p.items) <= 1:
                return SeqP(list(p.items))
            ety = self.elem_ty(p.items)
            p = SetP(None, ety, self.set_term(p, ety))
        es = sort_of(p.ety)
        n = self.fresh("cardn", z3.IntSort())
        arr = self.fresh("enum", z3.ArraySort(z3.IntSort(), es))
        idx = z3.Function(f"enumidx!{self.bump()}", *[b.sort() for b in self.bstack], es, z3.IntSort())
        x = z3.Const(f"x!{self.bump()}", es)
        i = z3.Int(f"i!{self.bump()}")
        self.assume(n >= 0)
        self.assume(n == self.card(p))
        ix = idx(*self.bstack, x)
        self.assume(z3.ForAll([x], z3.Implies(z3.Select(p.arr, x), z3.And(0 <= ix, ix < n, z3.Select(arr, ix) == x))))
        ai = z3.Select(arr, i)
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Select(p.arr, ai), idx(*self.bstack, ai) == i)), patterns=[ai]))
        return SeqP(None, p.ety, n, arr)

    def card(self, p):
        """number of elements of a set"""
        if p.items is not None:
            if len(p.items) <= 1:
                return z3.IntVal(len(p.items))
            ety = self.elem_ty(p.items)
            p = SetP(None, ety, self.set_term(p, ety))
        es = sort_of(p.ety)
        f = z3.Function("card_" + Z.clean(p.ety.name), z3.ArraySort(es, z3.BoolSort()), z3.IntSort())
        empty = z3.K(es, z3.BoolVal(False))
        t = f(p.arr)
        key = ("card", p.arr.get_id())
        if key not in self.unfolded:
            self.unfolded.add(key)
            self._keep(p.arr)
            w1 = z3.Function("card_w1_" + Z.clean(p.ety.name), z3.ArraySort(es, z3.BoolSort()), es)(p.arr)
            w2 = z3.Function("card_w2_" + Z.clean(p.ety.name), z3.ArraySort(es, z3.BoolSort()), es)(p.arr)
            x = z3.Const(f"x!{self.bump()}", es)
            self.assume(t >= 0)
            self.assume((t == 0) == (p.arr == empty))
            self.assume(z3.Implies(t >= 1, z3.Select(p.arr, w1)))
            self.assume(z3.Implies(t == 1, p.arr == z3.Store(empty, w1, True)))
            self.assume(z3.Implies(t >= 2, z3.And(z3.Select(p.arr, w1), z3.Select(p.arr, w2), w1 != w2)))
            self.assume(z3.ForAll([x], z3.Implies(z3.Select(p.arr, x), t >= 1)))
            y = z3.Const(f"y!{self.bump()}", es)
            self.assume(z3.Implies(t == 1, z3.ForAll([x], z3.Implies(z3.Select(p.arr, x), x == w1))))
        return t

    def _keep(self, t):
        self.reg.keep.append(t)

    # -- iteration domains -------------------------------------------------------------------------------------------
    def iter_dom(self, sv):
        sv = self.resolve_opt(sv) if isinstance(sv, S) else sv
        if isinstance(sv, ProdV):
            cs = self.product_contribs(sv, lambda t: [Contribution([], z3.BoolVal(True), self.export(t))], self._dummy_frame())
            return self.iter_dom(GenDom(cs, False))
        if isinstance(sv, GenDom):
            if all(plain(c) for c in sv.contribs):
                return Dom(items=[c.value for c in sv.contribs])
            return self.dom_of_seq(self.seq_of_contribs(sv.contribs))
        if isinstance(sv, Tup):
            return Dom(items=list(sv.items))
        if isinstance(sv, (C, Loc)):
            k = self.kind(sv)
            if k == "obj":
                return self.iter_dom(self.call_method(sv, "__iter__", []))
            p = self.payload(sv)
            if k == "dict_items":
                return self.dom_of_map(p, "items")
            if k == "dict_values":
                return self.dom_of_map(p, "values")
            if isinstance(p, SeqP):
                return self.dom_of_seq(p)
            if isinstance(p, SetP):
                return self.dom_of_set(p)
            if isinstance(p, MapP):
                return self.dom_of_map(p, "keys")
        if isinstance(sv, S) and isinstance(sv.ty, T.Ref):
            return self.iter_dom(self.call_method(sv, "__iter__", []))
        if isinstance(sv, ClassV) and sv.ci.is_enum():
            return Dom(items=[En(sv.ci, m, v) for m, v in sv.ci.enum_members()])
        if isinstance(sv, K) and isinstance(sv.v, (tuple, list, str)):
            return Dom(items=[K(x) for x in sv.v])
        if isinstance(sv, K) and sv.v is None:
            raise PyRaise(ExcV("TypeError"), "iteration over None")
        if isinstance(sv, S) and sv.ty == T.Any:
            # an unknown object that turns out to be iterable: some elements, nothing is known about them
            n = z3.Function("any_len", Z.ANY, z3.IntSort())(sv.t)
            self.assume(n >= 0)
            return Dom(sort=z3.IntSort(), guard=lambda v: z3.And(0 <= v, v < n), ordered=True, n=n,
                       elem=lambda v: S(T.Any, z3.Function("any_item", Z.ANY, z3.IntSort(), Z.ANY)(sv.t, v)))
        raise Unsupported(f"iteration over {sv}")

    def dom_of_seq(self, p):
        if p.items is not None:
            return Dom(items=list(p.items))
        n = z3.simplify(p.n)
        if z3.is_int_value(n) and n.as_long() <= 12:
            return Dom(items=[self.lift(p.ety, z3.Select(p.arr, i)) for i in range(n.as_long())])
        return Dom(sort=z3.IntSort(), guard=lambda v: z3.And(0 <= v, v < p.n),
                   elem=lambda v: self.lift(p.ety, z3.Select(p.arr, v)), ordered=True, n=p.n)

    def dom_of_set(self, p):
        if p.items is not None:
            if len(p.items) <= 1:
                return Dom(items=list(p.items))
            if all(isinstance(x, (K, En)) for x in p.items):
                return Dom(items=self._dedupe_const(p.items))
            ety = self.elem_ty(p.items)
            p = SetP(None, ety, self.set_term(p, ety))
        return Dom(sort=sort_of(p.ety), guard=lambda v: z3.Select(p.arr, v), elem=lambda v: self.lift(p.ety, v), keyed=True)

    def _dedupe_const(self, items):
        out = []
        for x in items:
            if not any(repr(x) == repr(y) for y in out):
                out.append(x)
        return out

    def dom_of_map(self, p, what):
        if p.entries is not None:
            if what == "items":
                return Dom(items=[Tup([k, v]) for k, v in p.entries])
            return Dom(items=[(k if what == "keys" else v) for k, v in p.entries])
        if what == "keys":
            el = lambda v: self.lift(p.kty, v)
        elif what == "values":
            el = lambda v: self.lift(p.vty, z3.Select(p.val, v))
        else:
            el = lambda v: Tup([self.lift(p.kty, v), self.lift(p.vty, z3.Select(p.val, v))])
        return Dom(sort=sort_of(p.kty), guard=lambda v: z3.Select(p.dom, v), elem=el, keyed=True)

    # -- map operations ------------------------------------------------------------------------------------------------
    def map_tys(self, p, k=None, v=None):
        if p.entries is None:
            kt, vt = p.kty, p.vty
        else:
            kt = self.elem_ty([a for a, _ in p.entries]) if p.entries else None
            vt = self.elem_ty([b for _, b in p.entries]) if p.entries else None
        if k is not None:
            kk = self.ty_of(k)
            kt = kk if kt is None else (kt if kt == kk or self._fits(k, kt) else self.join_ty(kt, kk))
        if v is not None:
            vv = self.ty_of(v)
            vt = vv if vt is None else (vt if self._fits(v, vt) else self.join_ty(vt, vv))
        return kt, vt

    def _fits(self, v, ty):
        try:
            t = self.ty_of(v)
        except Unsupported:
            return True
        if t == ty:
            return True
        if isinstance(ty, T.Opt) and (t == T.NoneT or self._fits_ty(t, ty.t)):
            return True
        return self._fits_ty(t, ty)

    def _fits_ty(self, t, ty):
        if t == ty:
            return True
        if isinstance(t, T.EnumT) and isinstance(ty, T.EnumT):
            return set(t.classes) <= set(ty.classes)
        if isinstance(t, T.Seq) and isinstance(ty, T.Seq) and t.t == ty.t:
            return True
        return (t, ty) in ((T.Int, T.Flt), (T.Bool, T.Int), (T.Bool, T.Flt))

    def const_keys(self, p):
        return p.entries is not None and all(isinstance(k, (K, En)) for k, _ in p.entries)

    def map_put(self, p, k, v):
        if p.entries is not None and isinstance(k, (K, En)) and self.const_keys(p):
            out, done = [], False
            for a, b in p.entries:
                if repr(a) == repr(k):
                    out.append((a, v))
                    done = True
                else:
                    out.append((a, b))
            if not done:
                out.append((k, v))
            return MapP(out, default=p.default)
        if p.entries is not None and not p.entries:
            return MapP([(k, v)], default=p.default)
        kt, vt = self.map_tys(p, k, v)
        m = self.map_sym(p, kt, vt)
        ks = self.coerce(k, kt)
        return MapP(None, kt, vt, z3.Store(m.dom, ks, True), z3.Store(m.val, ks, self.coerce(v, vt)), default=p.default)

    def map_has(self, p, k):
        if p.entries is not None:
            if not p.entries:
                return z3.BoolVal(False)
            return z3.Or(*[self.eq_term(a, k) for a, _ in p.entries])
        kt = self.key_term(k, p.kty)
        if kt is None:
            return z3.BoolVal(False)
        return z3.Select(p.dom, kt)

    def key_term(self, k, kty):
        """term of a key, or None if it cannot be in a container of that key type"""
        if isinstance(k, S) and isinstance(k.ty, T.Opt) and not isinstance(kty, T.Opt):
            k = self.resolve_opt(k)
        try:
            t = self.ty_of(k)
        except Unsupported:
            t = None
        if isinstance(k, (C, Loc)) and self.kind(k) in ("list", "set", "dict"):
            if not self.spec_mode():
                raise PyRaise(ExcV("TypeError"), "unhashable key")
        if t is not None:
            if t == kty or self._fits_ty(t, kty):
                return self.coerce(k, kty)
            if isinstance(kty, T.Set) and (isinstance(k, (C, Loc, Tup))):
                if self.kind(k) in ("set", "frozenset"):
                    return self.coerce(k, kty)
                return None
            if isinstance(kty, T.Opt):
                return self.coerce(k, kty)
            if isinstance(kty, T.EnumT) and isinstance(t, T.EnumT):
                return self.coerce(k, kty)
            return None
        return self.coerce(k, kty)

    def spec_mode(self):
        return self.spec_depth > 0

    def map_get(self, p, k):
        """value under key k (caller has established membership)"""
        if p.entries is not None:
            for a, b in p.entries:
                if self.decide(self.eq_term(a, k)):
                    return b
            raise Infeasible()
        return self.lift(p.vty, z3.Select(p.val, self.key_term(k, p.kty)))

    def map_merge(self, a, b):
        if a.entries is not None and b.entries is not None and self.const_keys(a) and self.const_keys(b):
            out = a
            for k, v in b.entries:
                out = self.map_put(out, k, v)
            return out
        if a.entries is not None and not a.entries:
            return b
        if b.entries is not None and not b.entries:
            return a
        ka, va = self.map_tys(a)
        kb, vb = self.map_tys(b)
        kt = ka if ka == kb else self.join_ty(ka, kb)
        vt = va if va == vb else self.join_ty(va, vb)
        a, b = self.map_sym(a, kt, vt), self.map_sym(b, kt, vt)
        ks = sort_of(kt)
        dom = self.fresh("mdom", z3.ArraySort(ks, z3.BoolSort()))
        val = self.fresh("mval", z3.ArraySort(ks, sort_of(vt)))
        x = z3.Const(f"x!{self.bump()}", ks)
        self.assume(z3.ForAll([x], z3.Select(dom, x) == z3.Or(z3.Select(a.dom, x), z3.Select(b.dom, x)), patterns=[z3.Select(dom, x)]))
        self.assume(z3.ForAll([x], z3.Select(val, x) == z3.If(z3.Select(b.dom, x), z3.Select(b.val, x), z3.Select(a.val, x)), patterns=[z3.Select(val, x)]))
        return MapP(None, kt, vt, dom, val)

    def map_remove(self, p, k):
        if p.entries is not None and isinstance(k, K) and self.const_keys(p):
            return MapP([(a, b) for a, b in p.entries if repr(a) != repr(k)], default=p.default)
        kt, vt = self.map_tys(p)
        m = self.map_sym(p, kt, vt)
        return MapP(None, kt, vt, z3.Store(m.dom, self.key_term(k, kt), False), m.val, default=p.default)

    # -- set operations -------------------------------------------------------------------------------------------------
    def set_tys(self, *ps):
        ty = None
        for p in ps:
            t = p.ety if p.items is None else (self.elem_ty(p.items) if p.items else None)
            if t is not None:
                ty = t if ty is None else (ty if ty == t else self.join_ty(ty, t))
        return ty

    def to_setp(self, sv):
        if isinstance(sv, GenDom):
            return self.set_of_contribs(sv.contribs)
        if isinstance(sv, S):
            sv = self.resolve_opt(sv)
        if isinstance(sv, K) and sv.v is None:
            raise PyRaise(ExcV("TypeError"), "None is not iterable")
        if isinstance(sv, ClassV):
            return SetP(self.iter_dom(sv).items)
        if isinstance(sv, S) or (isinstance(sv, Loc) and self.heap[sv.id].kind == "obj"):
            sv = self.call_method(sv, "__iter__", [])
            return self.to_setp(sv)
        k = self.kind(sv)
        p = self.payload(sv)
        if k == "dict_items":
            raise Unsupported("set of items view")
        if k == "dict_values":
            d = self.dom_of_map(p, "values")
            if d.items is not None:
                return SetP(d.items)
            v = z3.Const(f"v!{self.bump()}", d.sort)
            return self.set_of_contribs([Contribution([v], d.guard(v), d.elem(v), False)])
        if isinstance(p, SeqP):
            return self.set_of_seq(p)
        if isinstance(p, MapP):
            return SetP(None, p.kty, p.dom) if p.entries is None else SetP([a for a, _ in p.entries])
        return p

    def set_op(self, op, a, b):
        if a.items is not None and b.items is not None:
            if op == "|":
                return SetP(a.items + b.items)
            if not a.items or (op == "&" and not b.items):
                return SetP([]) if op in ("&", "-") else b
            if not b.items:
                return a
        if a.items is not None and not a.items:
            return SetP([]) if op in ("&", "-") else b
        if b.items is not None and not b.items:
            return SetP([]) if op == "&" else a
        ty = self.set_tys(a, b)
        es = sort_of(ty)
        x, y = self.set_term(a, ty), self.set_term(b, ty)
        if op == "|" and b.items is not None and len(b.items) <= 3:
            r = x
            for it in b.items:
                r = z3.Store(r, self.coerce(it, ty), True)
            return SetP(None, ty, r)
        if op == "-" and b.items is not None and len(b.items) <= 3:
            r = x
            for it in b.items:
                r = z3.Store(r, self.coerce(it, ty), False)
            return SetP(None, ty, r)
        u = z3.Const(f"x!{self.bump()}", es)
        r = self.fresh("sop", z3.ArraySort(es, z3.BoolSort()))
        l, m = z3.Select(x, u), z3.Select(y, u)
        rhs = {"|": z3.Or(l, m), "&": z3.And(l, m), "-": z3.And(l, z3.Not(m)), "^": z3.Xor(l, m)}[op]
        self.assume(z3.ForAll([u], z3.Select(r, u) == rhs, patterns=[z3.Select(r, u)]))
        return SetP(None, ty, r)

    def set_has(self, p, x):
        if p.items is not None:
            return z3.Or(*[self.eq_term(a, x) for a in p.items]) if p.items else z3.BoolVal(False)
        t = self.key_term(x, p.ety)
        return z3.BoolVal(False) if t is None else z3.Select(p.arr, t)

    def subset(self, a, b):
        if a.items is not None:
            return z3.And(*[self.set_has(b, x) for x in a.items]) if a.items else z3.BoolVal(True)
        if b.items is not None and not b.items:
            return a.arr == z3.K(sort_of(a.ety), z3.BoolVal(False))
        ty = self.set_tys(a, b)
        x, y = self.set_term(a, ty), self.set_term(b, ty)
        u = z3.Const(f"x!{self.bump()}", sort_of(ty))
        return z3.ForAll([u], z3.Implies(z3.Select(x, u), z3.Select(y, u)))

    def disjoint(self, a, b):
        if a.items is not None:
            return z3.And(*[z3.Not(self.set_has(b, x)) for x in a.items]) if a.items else z3.BoolVal(True)
        if b.items is not None:
            return self.disjoint(b, a)
        u = z3.Const(f"x!{self.bump()}", sort_of(a.ety))
        return z3.ForAll([u], z3.Not(z3.And(z3.Select(a.arr, u), z3.Select(b.arr, u))))

    # -- sequence operations -----------------------------------------------------------------------------------------
    def seq_concat(self, a, b):
        if a.items is not None and b.items is not None:
            return SeqP(a.items + b.items)
        if a.items is not None and not a.items:
            return b
        if b.items is not None and not b.items:
            return a
        ca, cb = contribs_of(a), contribs_of(b)
        if ca is not None and cb is not None and (a.contribs or b.contribs):
            # keep the element-wise description along with the concatenation
            r = self._seq_concat(a, b)
            r.contribs = [Contribution(c.binders, c.guard, c.value, False) for c in ca + cb]
            return r
        return self._seq_concat(a, b)

    def _seq_concat(self, a, b):
        ta = a.ety if a.items is None else self.elem_ty(a.items)
        tb = b.ety if b.items is None else self.elem_ty(b.items)
        ety = ta if ta == tb else self.join_ty(ta, tb)
        sa, sb = self.seq_term(a, ety), self.seq_term(b, ety)
        srt = sort_of(T.Seq(ety))
        na, aa, nb, ab = [z3.simplify(q) for q in (srt.len(sa), srt.arr(sa), srt.len(sb), srt.arr(sb))]
        if b.items is not None:
            arr = aa
            for i, x in enumerate(b.items):
                arr = z3.Store(arr, na + i, self.coerce(x, ety))
            return SeqP(None, ety, z3.simplify(na + len(b.items)), arr)
        arr = self.fresh("cat", z3.ArraySort(z3.IntSort(), sort_of(ety)))
        i = z3.Int(f"i!{self.bump()}")
        n = z3.simplify(na + nb)
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(arr, i) == z3.If(i < na, z3.Select(aa, i), z3.Select(ab, i - na))), patterns=[z3.Select(arr, i)]))
        # also instantiate from the parts
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < na), z3.Select(arr, i) == z3.Select(aa, i)), patterns=[z3.Select(aa, i)]) if not z3.is_K(aa) and not _is_store(aa) else z3.BoolVal(True))
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < nb), z3.Select(arr, i + na) == z3.Select(ab, i)), patterns=[z3.Select(ab, i)]) if not z3.is_K(ab) and not _is_store(ab) else z3.BoolVal(True))
        return SeqP(None, ety, n, arr)

    def to_seqp(self, sv):
        if isinstance(sv, GenDom):
            return self.seq_of_contribs(sv.contribs)
        if isinstance(sv, S):
            sv = self.resolve_opt(sv)
        if isinstance(sv, K) and sv.v is None:
            raise PyRaise(ExcV("TypeError"), "None is not iterable")
        d = self.iter_dom(sv)
        if d.items is not None:
            return SeqP(list(d.items))
        if d.ordered:
            v = z3.Int(f"v!{self.bump()}")
            k = self.kind(sv)
            if isinstance(sv, (C, Loc)) and isinstance(self.payload(sv), SeqP):
                return self.payload(sv)
            return self.seq_of_contribs([Contribution([v], d.guard(v), self.export(d.elem(v)), ("map", d.n))])
        k = self.kind(sv)
        if isinstance(sv, (C, Loc)):
            p = self.payload(sv)
            if isinstance(p, SetP):
                return self.enumerate_set(p)
            if isinstance(p, MapP) and k in ("dict", "dict_keys"):
                return self.enumerate_set(SetP(None, p.kty, p.dom))
        # other keyed domain: enumerate keys then map
        if isinstance(sv, (C, Loc)) and isinstance(self.payload(sv), MapP):
            p = self.payload(sv)
            keys = self.enumerate_set(SetP(None, p.kty, p.dom))
            v = z3.Int(f"v!{self.bump()}")
            val = d.elem(z3.Select(keys.arr, v))
            return self.seq_of_contribs([Contribution([v], z3.And(0 <= v, v < keys.n), val, ("map", keys.n))])
        raise Unsupported(f"sequence of {sv}")

    def seq_len(self, p):
        return z3.IntVal(len(p.items)) if p.items is not None else p.n

    def seq_has(self, p, x):
        if p.items is not None:
            return z3.Or(*[self.eq_term(a, x) for a in p.items]) if p.items else z3.BoolVal(False)
        i = z3.Int(f"i!{self.bump()}")
        t = self.key_term(x, p.ety) if not isinstance(x, (C, Loc)) else self.coerce(x, p.ety)
        if t is None:
            return z3.BoolVal(False)
        return z3.Exists([i], z3.And(0 <= i, i < p.n, z3.Select(p.arr, i) == t))

    # -- equality ---------------------------------------------------------------------------------------------------------
    def eq_term(self, a, b):
        """python == as a formula where no user code runs (term semantics)"""
        if isinstance(a, S) and isinstance(b, S) and a.ty == b.ty:
            if a.ty == T.Flt and not self.spec_depth:
                return Z.f_eq(a.t, b.t)
            if isinstance(a.ty, (T.Seq, T.Map)):
                pass
            else:
                return a.t == b.t
        if isinstance(a, K) and isinstance(b, K):
            return z3.BoolVal(a.v == b.v)
        if isinstance(a, En) and isinstance(b, En):
            return z3.BoolVal(a.ci.qual == b.ci.qual and a.m == b.m)
        if isinstance(a, En) and isinstance(b, S):
            a, b = b, a
        for x, y in ((a, b), (b, a)):
            if isinstance(x, S) and x.ty == T.Any and not (isinstance(y, K) and y.v is None) and not (isinstance(y, S) and isinstance(y.ty, T.Opt)):
                return x.t == self.coerce(y, T.Any)
        if isinstance(a, S) and isinstance(b, En):
            ty = a.ty.t if isinstance(a.ty, T.Opt) else a.ty
            if isinstance(ty, T.EnumT):
                try:
                    code = Z.enum_code(ty, b.ci.qual, b.m)
                except Unsupported:
                    return z3.BoolVal(False)
                return a.t == (sort_of(a.ty).some(code) if isinstance(a.ty, T.Opt) else code)
            if "StrEnum" in b.ci.all_base_names() and ty == T.Str:
                return a.t == Z.str_lit(b.val)
            return z3.BoolVal(False)
        if isinstance(a, En) and isinstance(b, K) or isinstance(b, En) and isinstance(a, K):
            e, k = (a, b) if isinstance(a, En) else (b, a)
            if "StrEnum" in e.ci.all_base_names():
                return z3.BoolVal(e.val == k.v)
            return z3.BoolVal(False)
        if isinstance(a, S) and isinstance(a.ty, T.Opt) or isinstance(b, S) and isinstance(b.ty, T.Opt):
            o, x = (a, b) if isinstance(a, S) and isinstance(a.ty, T.Opt) else (b, a)
            s = sort_of(o.ty)
            if isinstance(x, K) and x.v is None:
                return s.is_none(o.t)
            if isinstance(x, S) and isinstance(x.ty, T.Opt):
                if self.decide(s.is_none(o.t)):
                    return sort_of(x.ty).is_none(x.t)
                return self.eq_term(x, self.lift(o.ty.t, s.val(o.t)))
            if self.decide(s.is_none(o.t)):
                return z3.BoolVal(False)
            return self.eq_term(self.lift(o.ty.t, z3.simplify(s.val(o.t))), x)
        if isinstance(a, K) and isinstance(b, S):
            a, b = b, a
        if isinstance(a, S) and isinstance(b, K):
            v = b.v
            if v is None:
                return z3.BoolVal(False)
            if a.ty == T.Bool and isinstance(v, bool):
                return a.t == v
            if a.ty == T.Int and isinstance(v, int):
                return a.t == int(v)
            if a.ty == T.Str and isinstance(v, str):
                return a.t == Z.str_lit(v)
            if a.ty == T.Flt and isinstance(v, (int, float)):
                if v != v:
                    return Z.f_isnan(a.t) if self.spec_depth else z3.BoolVal(False)
                return a.t == Z.f_of_py(v)
            if a.ty == T.Int and isinstance(v, float):
                return z3.BoolVal(False) if not v.is_integer() else a.t == int(v)
            if a.ty == T.Any:
                return a.t == self.coerce(b, T.Any)
            return z3.BoolVal(False)
        if isinstance(a, S) and isinstance(b, S):
            if {a.ty.name, b.ty.name} <= {"Int", "Flt", "Bool"}:
                return Z.f_eq(self.coerce(a, T.Flt), self.coerce(b, T.Flt))
            if isinstance(a.ty, T.EnumT) and isinstance(b.ty, T.EnumT):
                return z3.Or(*[z3.And(a.t == i, b.t == j) for i, (c, m, _) in enumerate(Z.enum_members(a.ty))
                               for j, (c2, m2, _) in enumerate(Z.enum_members(b.ty)) if (c, m) == (c2, m2)])
            return z3.BoolVal(False)
        ka, kb = self.kind(a), self.kind(b)
        if ka and kb and ka != "obj" and kb != "obj":
            return self.container_eq(a, b)
        if (ka == "obj") != (kb == "obj"):
            o, x = (a, b) if ka == "obj" else (b, a)
            if isinstance(x, S) and isinstance(x.ty, T.Ref):
                return self.freeze(o, x.ty) == x.t
            return z3.BoolVal(False)
        if ka == "obj" and kb == "obj":
            if a.id == b.id:
                return z3.BoolVal(True)
            return self.obj_eq_term(a, b)
        if isinstance(a, ClassV) and isinstance(b, ClassV):
            return z3.BoolVal(a.ci is b.ci)
        if isinstance(a, ExtV) and isinstance(b, ExtV):
            return z3.BoolVal(a.name == b.name)
        if bool(ka) != bool(kb) or type(a) is not type(b):
            return z3.BoolVal(False)
        if isinstance(a, FuncV) and isinstance(b, FuncV) and a.recv is None and b.recv is None and a.closure is None and b.closure is None \
                and not a.bound and not b.bound:
            return z3.BoolVal(a.fi is b.fi)
        raise Unsupported(f"equality of {a} and {b}")

    def obj_eq_term(self, a, b):
        pa, pb = self.heap[a.id].p, self.heap[b.id].p
        for ty in self.reg.refs:
            if pa.ci.qual in ty.classes and pb.ci.qual in ty.classes:
                return self.freeze(a, ty) == self.freeze(b, ty)
        if pa.ci is not pb.ci:
            return z3.BoolVal(False)
        if self.spec_depth:
            return z3.And(*[self.eq_term(pa.fields[f], pb.fields[f]) for f in pa.fields]) if pa.fields else z3.BoolVal(True)
        raise Unsupported("equality of heap objects")

    def container_eq(self, a, b):
        ka, kb = self.kind(a), self.kind(b)
        pa, pb = self.payload(a), self.payload(b)
        fam = {"list": "seq", "tuple": "seq", "generator": "seq", "set": "set", "frozenset": "set", "dict": "map",
               "dict_keys": "set", "dict_items": "items", "dict_values": "values"}
        if fam[ka] != fam[kb]:
            return z3.BoolVal(False)
        if isinstance(pa, SeqP):
            if not self.spec_depth and {ka, kb} == {"list", "tuple"}:
                return z3.BoolVal(False)
            if pa.items is not None and pb.items is not None:
                if len(pa.items) != len(pb.items):
                    return z3.BoolVal(False)
                return z3.And(*[self.eq_term(x, y) for x, y in zip(pa.items, pb.items)]) if pa.items else z3.BoolVal(True)
            if pa.items is not None:
                pa, pb = pb, pa
            if pb.items is not None:
                out = [pa.n == len(pb.items)]
                for i, x in enumerate(pb.items):
                    out.append(self.eq_term(self.lift(pa.ety, z3.Select(pa.arr, i)), x))
                return z3.And(*out)
            if pa.ety != pb.ety:
                ety = self.join_ty(pa.ety, pb.ety)
                s = sort_of(T.Seq(ety))
                ta, tb = self.seq_term(pa, ety), self.seq_term(pb, ety)
                pa, pb = SeqP(None, ety, s.len(ta), s.arr(ta)), SeqP(None, ety, s.len(tb), s.arr(tb))
            i = z3.Int(f"i!{self.bump()}")
            l, r = z3.Select(pa.arr, i), z3.Select(pb.arr, i)
            return z3.And(pa.n == pb.n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < pa.n), self.eq_sorted(pa.ety, l, r)),
                                                   patterns=[l, r] if not (_is_store(pa.arr) or _is_store(pb.arr)) else []))
        if isinstance(pa, SetP) or fam[ka] == "set":
            pa, pb = self.to_setp(a), self.to_setp(b)
            if pa.items is not None and pb.items is not None:
                return z3.And(self.subset(pa, pb), self.subset(pb, pa))
            ty = self.set_tys(pa, pb)
            return self.set_term(pa, ty) == self.set_term(pb, ty)
        if isinstance(pa, MapP):
            if pa.entries is not None and pb.entries is not None and self.const_keys(pa) and self.const_keys(pb):
                da, db = {repr(k): v for k, v in pa.entries}, {repr(k): v for k, v in pb.entries}
                if set(da) != set(db):
                    return z3.BoolVal(False)
                return z3.And(*[self.eq_term(v, db[k]) for k, v in da.items()]) if da else z3.BoolVal(True)
            if pa.entries is not None and not pa.entries:
                pa, pb = pb, pa
            if pb.entries is not None and not pb.entries:
                return pa.dom == z3.K(sort_of(pa.kty), z3.BoolVal(False))
            kt, vt = self.map_tys(pa)
            k2, v2 = self.map_tys(pb)
            kt, vt = (kt if kt == k2 else self.join_ty(kt, k2)), (vt if vt == v2 else self.join_ty(vt, v2))
            pa, pb = self.map_sym(pa, kt, vt), self.map_sym(pb, kt, vt)
            x = z3.Const(f"x!{self.bump()}", sort_of(kt))
            return z3.And(pa.dom == pb.dom,
                          z3.ForAll([x], z3.Implies(z3.Select(pa.dom, x), self.eq_sorted(vt, z3.Select(pa.val, x), z3.Select(pb.val, x)))))
        raise Unsupported("container equality")

    def eq_sorted(self, ty, l, r):
        """element equality inside containers (identity-or-equal, i.e. term equality)"""
        if isinstance(ty, T.Seq):
            s = sort_of(ty)
            i = z3.Int(f"i!{self.bump()}")
            return z3.And(s.len(l) == s.len(r), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.len(l)),
                          self.eq_sorted(ty.t, z3.Select(s.arr(l), i), z3.Select(s.arr(r), i)))))
        if isinstance(ty, T.Map):
            s = sort_of(ty)
            x = z3.Const(f"x!{self.bump()}", sort_of(ty.k))
            return z3.And(s.dom(l) == s.dom(r), z3.ForAll([x], z3.Implies(z3.Select(s.dom(l), x),
                          self.eq_sorted(ty.v, z3.Select(s.val(l), x), z3.Select(s.val(r), x)))))
        return l == r

    # -- truthiness --------------------------------------------------------------------------------------------------------
    def truth_term(self, sv):
        """truth value as formula (may fork for optional values / user code)"""
        if isinstance(sv, K):
            return z3.BoolVal(bool(sv.v))
        if isinstance(sv, S):
            if sv.ty == T.Bool:
                return sv.t
            if sv.ty == T.Int:
                return sv.t != 0
            if sv.ty == T.Flt:
                return sv.t != FLT.fin(z3.RealVal(0))
            if sv.ty == T.Str:
                return sv.t != Z.str_lit("")
            if isinstance(sv.ty, T.Opt):
                s = sort_of(sv.ty)
                inner = sv.ty.t
                if inner in (T.Int, T.Flt, T.Str, T.Bool) or isinstance(inner, T.EnumT) or (isinstance(inner, T.Ref) and self.always_true(inner)):
                    it = self.truth_term(S(inner, s.val(sv.t)))
                    return z3.And(s.is_some(sv.t), it)
                return self.truth_term(self.resolve_opt(sv))
            if isinstance(sv.ty, T.EnumT):
                return z3.BoolVal(True)
            if isinstance(sv.ty, T.Ref):
                if "__bool__()" in sv.ty.attrs:
                    self.reg.trusted_used.add(f"{sv.ty.name}.__bool__()")
                    return self.field(sv, "__bool___m", T.Bool).t
                if self.always_true(sv.ty):
                    return z3.BoolVal(True)
                lk = [c.lookup("__bool__") or c.lookup("__len__") for c in self.ref_classes(sv.ty)]
                name = "__bool__" if self.ref_classes(sv.ty)[0].lookup("__bool__") else "__len__"
                return self.truth_term(self.call_method(sv, name, []))
            if sv.ty == T.Any:
                return z3.Function("any_truth", Z.ANY, z3.BoolSort())(sv.t)
            if isinstance(sv.ty, T.Func):
                return z3.BoolVal(True)
        if isinstance(sv, (En, ClassV, FuncV, LamV, ExtV, BM, ModV, PyFn, ExcV)):
            return z3.BoolVal(True)
        k = self.kind(sv)
        if k == "generator":
            return z3.BoolVal(True)
        if k == "obj":
            ci = self.heap[sv.id].p.ci
            if ci.lookup("__bool__"):
                return self.truth_term(self.call_method(sv, "__bool__", []))
            if ci.lookup("__len__"):
                return self.truth_term(self.call_method(sv, "__len__", []))
            return z3.BoolVal(True)
        if k:
            return self.nonempty(self.payload(sv))
        if isinstance(sv, Poison):
            raise Unsupported(sv.why)
        raise Unsupported(f"truth value of {sv}")

    def always_true(self, ty):
        if ty.truthy is not None:
            return ty.truthy
        cis = self.ref_classes(ty)
        return not any(c.lookup("__bool__") or c.lookup("__len__") for c in cis)

    def nonempty(self, p):
        if isinstance(p, SeqP):
            return z3.BoolVal(bool(p.items)) if p.items is not None else p.n > 0
        if isinstance(p, SetP):
            if p.items is not None:
                return z3.BoolVal(bool(p.items))
            return p.arr != z3.K(sort_of(p.ety), z3.BoolVal(False))
        if p.entries is not None:
            return z3.BoolVal(bool(p.entries))
        return p.dom != z3.K(sort_of(p.kty), z3.BoolVal(False))

    def truthy(self, sv):
        return self.decide(self.truth_term(sv))

    def b(self, f):
        """formula -> value"""
        f = z3.simplify(f) if not isinstance(f, bool) else z3.BoolVal(f)
        if z3.is_true(f):
            return K(True)
        if z3.is_false(f):
            return K(False)
        return S(T.Bool, f)


def _mentions(t, bs):
    ids = {b.get_id() for b in bs}
    seen, stack = set(), [t]
    while stack:
        q = stack.pop()
        i = q.get_id()
        if i in ids:
            return True
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(q):
            stack.append(q.body())
        else:
            stack.extend(q.children())
    return False


def _has_quant(f):
    key = f.get_id()
    r = _hq.get(key)
    if r is not None and r[0].eq(f):
        return r[1]
    seen = set()
    stack = [f]
    res = False
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            res = True
            break
        stack.extend(t.children())
    _hq[key] = (f, res)
    return res


_hq = {}


def _is_store(a):
    return z3.is_app(a) and a.decl().kind() in (z3.Z3_OP_STORE, z3.Z3_OP_CONST_ARRAY)


def _forall(bs, f):
    return z3.ForAll(bs, f) if bs else f


def _exists(bs, f):
    return z3.Exists(bs, f) if bs else f
