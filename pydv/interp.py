"""Expression / statement semantics of the supported Python subset."""
from __future__ import annotations
import ast
import z3

from . import types as T
from . import sorts as Z
from .sorts import Unsupported, sort_of, FLT
from .source import REPO, FuncInfo, ClassInfo, Module
from .values import *
from .engine import Run, Frame, Ctx, Dom, Contribution, EXC_BASES, BUILTIN_NAMES, MAXDEPTH, _has_quant, _forall, _exists

SPEC_VOCAB = {"forall", "exists", "forall_index", "exists_index", "same", "mapput", "mapmerge", "seq_eq", "is_nan",
              "is_instance_exact", "implies"}
NOOP_EXT = ("warnings.", "logging.", "sys.stderr", "print", "gc.", "time.sleep")


class Interp(Run):

    # ---------------------------------------------------------------------------------------------------------------
    # names
    def load(self, name, frame):
        v = frame.lookup(name)
        if v is not None:
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            return v
        return self.load_global(name, frame.module)

    def load_global(self, name, module):
        r = module._resolve1(name)
        if r is not None:
            return self.from_resolved(r, module)
        if name in SPEC_VOCAB and module.name.startswith("contracts"):
            return ExtV("spec." + name)
        if name in BUILTIN_NAMES:
            if name == "NotImplemented":
                return ExtV("NotImplemented")
            return ExtV(name)
        raise Unsupported(f"unknown name {name} in {module.name}")

    def from_resolved(self, r, module):
        k, o = r
        if k == "func":
            if module is not None and (o.module.name, o.name) in self.reg.specfns:
                return SpecV(o)
            if o.module.name == "pydv.api":
                return ExtV("spec." + o.name)
            return FuncV(o)
        if k == "class":
            return ClassV(o)
        if k == "module":
            return ModV(o)
        if k == "const":
            m, node, nm = o
            key = (m.name, nm)
            if key in self.reg.const_cache:
                return self.reg.const_cache[key]
            v = self.eval(node, Frame(m))
            if isinstance(v, (K, En, ClassV, FuncV, ExtV)):
                self.reg.const_cache[key] = v
            return v
        if k == "ext":
            if o.startswith("pydv.api."):
                return ExtV("spec." + o.split(".")[-1])
            if o == "math.nan":
                return K(float("nan"))
            if o == "math.inf":
                return K(float("inf"))
            return ExtV(o)
        if k == "classconst":
            return self.eval(o[1], Frame(o[0].module))
        raise Unsupported(f"resolve {r}")

    # ---------------------------------------------------------------------------------------------------------------
    # expressions
    def eval(self, n, f):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        return m(n, f)

    def e_Constant(self, n, f):
        if n.value is Ellipsis:
            return ExtV("Ellipsis")
        return K(n.value)

    def e_Name(self, n, f):
        return self.load(n.id, f)

    def e_Tuple(self, n, f):
        return Tup(self.eval_list(n.elts, f))

    def eval_list(self, elts, f):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, f)
                p = self.to_seqp(v)
                if p.items is None:
                    raise Unsupported("starred symbolic sequence in display")
                out.extend(p.items)
            else:
                out.append(self.eval(e, f))
        return out

    def e_List(self, n, f):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            p = SeqP([])
            for e in n.elts:
                p = self.seq_concat(p, self.to_seqp(self.eval(e.value, f))) if isinstance(e, ast.Starred) else \
                    self.seq_concat(p, SeqP([self.eval(e, f)]))
            return self.new_cell("list", p)
        return self.new_cell("list", SeqP(self.eval_list(n.elts, f)))

    def settle(self, v):
        """an optional value whose presence is already decided on this path"""
        if isinstance(v, S) and isinstance(v.ty, T.Opt):
            return self.resolve(v)
        return v

    def e_Set(self, n, f):
        p = SetP([])
        for e in n.elts:
            if isinstance(e, ast.Starred):
                p = self.set_op("|", p, self.to_setp(self.eval(e.value, f)))
            else:
                p = self.set_op("|", p, SetP([self.hashable(self.settle(self.eval(e, f)))]))
        return self.new_cell("set", p)

    def e_Dict(self, n, f):
        p = MapP([])
        for k, v in zip(n.keys, n.values):
            if k is None:
                mv = self.resolve(self.eval(v, f))
                p = self.map_merge(p, self.payload(mv))
            else:
                kk = self.hashable(self.eval(k, f))
                p = self.map_put(p, kk, self.eval(v, f))
        return self.new_cell("dict", p)

    def hashable(self, v):
        if isinstance(v, Loc) and self.kind(v) in ("list", "set", "dict") and not self.spec_depth:
            raise PyRaise(ExcV("TypeError"), "unhashable")
        return v

    def resolve(self, v):
        return self.resolve_opt(v) if isinstance(v, S) else v

    def e_Attribute(self, n, f):
        return self.get_attr(self.eval(n.value, f), n.attr, n)

    def e_Subscript(self, n, f):
        base = self.eval(n.value, f)
        if isinstance(base, (ClassV, ExtV)) and not (isinstance(base, ClassV) and base.ci.is_enum()):
            return base            # generic alias
        if isinstance(n.slice, ast.Slice):
            return self.slice(self.resolve(base), n.slice, f)
        return self.get_item(base, self.eval(n.slice, f))

    def slice(self, base, s, f):
        lo = self.eval(s.lower, f) if s.lower else K(None)
        hi = self.eval(s.upper, f) if s.upper else K(None)
        st = self.eval(s.step, f) if s.step else K(None)
        if isinstance(base, K) and isinstance(base.v, str) and all(isinstance(x, K) for x in (lo, hi, st)):
            return K(base.v[lo.v:hi.v:st.v])
        if isinstance(base, S) and base.ty == T.Str:
            fn = z3.Function("str_slice", Z.STR, z3.IntSort(), z3.IntSort(), z3.IntSort(), Z.STR)
            a = [self.coerce(x, T.Int) if not (isinstance(x, K) and x.v is None) else z3.IntVal(-987654) for x in (lo, hi, st)]
            return S(T.Str, fn(base.t, *a))
        k = self.kind(base)
        if k == "obj":
            raise Unsupported("slice of object")
        p = self.payload(base)
        if not isinstance(p, SeqP):
            raise PyRaise(ExcV("TypeError"), "slice")
        if p.items is not None and all(isinstance(x, K) for x in (lo, hi, st)):
            items = p.items[lo.v:hi.v:st.v]
            return Tup(items) if k == "tuple" else self.new_cell("list", SeqP(items))
        if isinstance(st, K) and st.v == -1 and all(isinstance(x, K) and x.v is None for x in (lo, hi)) and p.items is None:
            arr = self.fresh("rev", z3.ArraySort(z3.IntSort(), sort_of(p.ety)))
            i = z3.Int(f"i!{self.bump()}")
            self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p.n), z3.Select(arr, i) == z3.Select(p.arr, p.n - 1 - i)), patterns=[z3.Select(arr, i)]))
            if not Z_is_store(p.arr):
                self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p.n), z3.Select(arr, p.n - 1 - i) == z3.Select(p.arr, i)), patterns=[z3.Select(p.arr, i)]))
            r = SeqP(None, p.ety, p.n, arr)
            return C("tuple", r) if k == "tuple" else self.new_cell("list", r)
        if not (isinstance(st, K) and st.v is None):
            raise Unsupported("slice step")
        if p.items is not None:
            ety = self.elem_ty(p.items)
            t = self.seq_term(p, ety)
            srt = sort_of(T.Seq(ety))
            p = SeqP(None, ety, srt.len(t), srt.arr(t))

        def idx(x, default):
            if isinstance(x, K) and x.v is None:
                return default
            t = self.coerce(x, T.Int)
            t = z3.If(t < 0, z3.If(t + p.n < 0, 0, t + p.n), z3.If(t > p.n, p.n, t))
            return z3.simplify(t)
        a, b = idx(lo, z3.IntVal(0)), idx(hi, p.n)
        n = z3.simplify(z3.If(b > a, b - a, 0))
        if z3.is_int_value(a) and a.as_long() == 0:
            arr = p.arr
        else:
            arr = self.fresh("slice", z3.ArraySort(z3.IntSort(), sort_of(p.ety)))
            i = z3.Int(f"i!{self.bump()}")
            self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(arr, i) == z3.Select(p.arr, i + a)), patterns=[z3.Select(arr, i)]))
            if not Z_is_store(p.arr):
                self.assume(z3.ForAll([i], z3.Implies(z3.And(a <= i, i < a + n), z3.Select(arr, i - a) == z3.Select(p.arr, i)), patterns=[z3.Select(p.arr, i)]))
        r = SeqP(None, p.ety, n, arr)
        return C("tuple", r) if k == "tuple" else self.new_cell("list", r)

    def get_item(self, base, ix):
        base = self.resolve(base)
        if isinstance(base, K) and isinstance(base.v, str):
            if isinstance(ix, K):
                try:
                    return K(base.v[ix.v])
                except IndexError:
                    raise PyRaise(ExcV("IndexError"))
            raise Unsupported("string index")
        if isinstance(base, ClassV) and base.ci.is_enum() and isinstance(ix, K):
            for m, v in base.ci.enum_members():
                if m == ix.v:
                    return En(base.ci, m, v)
            raise PyRaise(ExcV("KeyError"))
        if isinstance(base, S) and base.ty == T.Str:
            fn = z3.Function("str_at", Z.STR, z3.IntSort(), Z.STR)
            i = self.coerce(ix, T.Int)
            ok = z3.And(i < Z.str_len(base.t), i >= -Z.str_len(base.t))
            if not self.decide(ok):
                raise PyRaise(ExcV("IndexError"))
            return S(T.Str, fn(base.t, i))
        if isinstance(base, S) or self.kind(base) == "obj":
            return self.call_method(base, "__getitem__", [ix])
        if isinstance(base, K) and base.v is None:
            raise PyRaise(ExcV("TypeError"), "None is not subscriptable")
        k = self.kind(base)
        p = self.payload(base)
        if isinstance(p, SeqP):
            if k == "generator":
                raise PyRaise(ExcV("TypeError"), "generator is not subscriptable")
            ix = self.resolve(ix)
            if p.items is not None and isinstance(ix, K):
                try:
                    return p.items[ix.v]
                except IndexError:
                    if self.spec_depth:
                        raise Infeasible()
                    raise PyRaise(ExcV("IndexError"))
            i = self.coerce(ix, T.Int)
            n = self.seq_len(p)
            if p.items is not None:
                for j, x in enumerate(p.items):
                    if self.decide(z3.Or(i == j, i == j - len(p.items))):
                        return x
                raise PyRaise(ExcV("IndexError"))
            if not self.spec_depth:
                if not self.decide(z3.And(i < n, i >= -n)):
                    raise PyRaise(ExcV("IndexError"))
            i = z3.simplify(z3.If(i >= 0, i, i + n))
            return self.lift(p.ety, z3.simplify(z3.Select(p.arr, i)))
        if isinstance(p, MapP):
            self.hashable(ix)
            has = self.map_has(p, ix)
            if self.spec_depth and p.entries is None:
                kt = self.key_term(ix, p.kty)
                if kt is None:
                    raise Unsupported("spec: key of wrong type")
                return self.lift(p.vty, z3.Select(p.val, kt))
            if self.decide(has):
                return self.map_get(p, ix)
            if p.default is not None:
                v = self.call(p.default, [], {})
                if isinstance(base, Loc):
                    self.mutate(base, "set", [ix, v], lambda: self.map_put(p, ix, v))
                return v
            raise PyRaise(ExcV("KeyError"), "key")
        raise PyRaise(ExcV("TypeError"), "not subscriptable")

    def e_UnaryOp(self, n, f):
        v = self.eval(n.operand, f)
        if isinstance(n.op, ast.Not):
            return self.b(z3.Not(self.truth_term(v)))
        v = self.resolve(v)
        if isinstance(n.op, ast.USub):
            if isinstance(v, K) and isinstance(v.v, (int, float)):
                return K(-v.v)
            if isinstance(v, S) and v.ty == T.Int:
                return S(T.Int, -v.t)
            if isinstance(v, S) and v.ty == T.Flt:
                return S(T.Flt, Z.f_neg(v.t))
            return self.call_method(v, "__neg__", [])
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            return self.call_method(v, "__invert__", [])
        raise Unsupported("unary op")

    def e_BoolOp(self, n, f):
        isand = isinstance(n.op, ast.And)
        if self.spec_depth:
            acc = None
            for e in n.values:
                if acc is None:
                    acc = self.truth_term(self.eval(e, f))
                    continue
                acc = z3.simplify(acc)
                if (z3.is_false(acc) and isand) or (z3.is_true(acc) and not isand):
                    break
                t = self.formula_under(acc if isand else z3.Not(acc), lambda e=e: self.truth_term(self.eval(e, f)), f)
                acc = z3.And(acc, t) if isand else z3.Or(acc, t)
            return self.b(acc)
        last = None
        for i, e in enumerate(n.values):
            v = self.eval(e, f)
            if i == len(n.values) - 1:
                return v
            t = self.truth_term(v)
            if self.decide(t) != isand:
                return self.settle(v)
        return last

    def formula_under(self, guard, thunk, f):
        """evaluate a formula assuming `guard`, without forking the current path"""
        g = z3.simplify(guard)
        if z3.is_true(g):
            guard = z3.BoolVal(True)
        res = self.nested([], guard, thunk, f)
        return self._combine(res, [])

    def _combine(self, res, binders):
        out = []
        for pc, kd, v, _ in res:
            if kd in ("val",):
                t = v
            elif kd == "return":
                t = self.truth_term(v.v)
            else:
                # evaluation of the specification itself raises here: unknown truth value
                if self.assuming:
                    out.append(z3.Not(pc))
                    continue
                fb = z3.Function(f"undef!{self.bump()}", *[b.sort() for b in self.bstack + list(binders)], z3.BoolSort())
                t = fb(*self.bstack, *binders)
            out.append(z3.Implies(pc, t))
        return z3.And(*out) if out else z3.BoolVal(True)

    def e_IfExp(self, n, f):
        t = self.truth_term(self.eval(n.test, f))
        if self.decide(t):
            return self.eval(n.body, f)
        return self.eval(n.orelse, f)

    def e_NamedExpr(self, n, f):
        v = self.eval(n.value, f)
        fr = f
        while getattr(fr, "is_comp", False):
            fr = fr.parent
        self.bind(n.target, v, fr)
        return v

    def e_Lambda(self, n, f):
        return LamV(n, f)

    def e_JoinedStr(self, n, f):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(K(v.value))
            else:
                x = self.eval(v.value, f)
                if v.conversion == 114:
                    parts.append(self.to_str(x, rep=True))
                elif v.format_spec is not None:
                    parts.append(self.opaque_str("fmt", [x]))
                else:
                    parts.append(self.to_str(x))
        return self.concat_strs(parts)

    def concat_strs(self, parts):
        parts = [p for p in parts if not (isinstance(p, K) and p.v == "")]
        if not parts:
            return K("")
        acc = parts[0]
        for p in parts[1:]:
            acc = self.str_cat(acc, p)
        return acc

    def str_cat(self, a, b):
        if isinstance(a, K) and isinstance(b, K):
            return K(a.v + b.v)
        return S(T.Str, Z.str_concat(self.coerce(a, T.Str), self.coerce(b, T.Str)))

    def to_str(self, v, rep=False):
        if isinstance(v, K):
            if isinstance(v.v, float):
                return K(str(v.v))
            return K(repr(v.v) if rep else str(v.v))
        if isinstance(v, S):
            if v.ty == T.Str:
                return v if not rep else self.opaque_str("repr", [v])
            if isinstance(v.ty, T.Opt):
                return self.to_str(self.resolve_opt(v), rep)
            if isinstance(v.ty, T.Ref):
                cis = self.ref_classes(v.ty)
                bare = v.ty.opaque and v.ty.eq == "term" and not v.ty.fields and not v.ty.attrs
                if cis and all(self._own(c, "__str__") for c in cis) and not rep and not bare:
                    return self.call_method(v, "__str__", [])
            if isinstance(v.ty, T.EnumT):
                return self.opaque_str("str", [v])
        if isinstance(v, En) and "StrEnum" in v.ci.all_base_names():
            return K(v.val)
        if self.kind(v) == "obj" and not rep and self._own(self.heap[v.id].p.ci, "__str__"):
            return self.call_method(v, "__str__", [])
        return self.opaque_str("repr" if rep else "str", [v])

    def _own(self, ci, name):
        lk = ci.lookup(name)
        return lk is not None and lk[0] == "method"

    def opaque_str(self, what, vs):
        """string conversion not modelled: deterministic function of the value where it has a type"""
        try:
            ts = [self.coerce(v, self.ty_of(v)) for v in vs]
            fn = z3.Function(f"{what}_" + "_".join(Z.clean(str(t.sort())) for t in ts), *[t.sort() for t in ts], Z.STR)
            return S(T.Str, fn(*ts))
        except Unsupported:
            return S(T.Str, self.fresh("anystr", Z.STR))

    # comprehensions ------------------------------------------------------------------------------------------------
    def _comp_frame(self, f):
        c = Frame(f.module, f.fi, f, f.cls)
        c.is_comp = True
        return c

    def e_ListComp(self, n, f):
        c = self._comp_frame(f)
        cs = self.comprehend(n.generators, lambda: self.eval(n.elt, c), c)
        return self.new_cell("list", self.seq_of_contribs(cs))

    def e_GeneratorExp(self, n, f):
        c = self._comp_frame(f)
        return GenDom(self.comprehend(n.generators, lambda: self.eval(n.elt, c), c), True)

    def e_SetComp(self, n, f):
        c = self._comp_frame(f)
        cs = self.comprehend(n.generators, lambda: self.hashable(self.eval(n.elt, c)), c)
        return self.new_cell("set", self.set_of_contribs(cs))

    def e_DictComp(self, n, f):
        c = self._comp_frame(f)
        cs = self.comprehend(n.generators, lambda: Tup([self.hashable(self.eval(n.key, c)), self.eval(n.value, c)]), c)
        return self.new_cell("dict", self.map_of_contribs(cs))

    def e_Starred(self, n, f):
        raise Unsupported("starred")

    def e_Await(self, n, f):
        raise Unsupported("await")

    def e_Yield(self, n, f):
        fr = f
        v = self.eval(n.value, f) if n.value is not None else K(None)
        self.list_append(fr.yields, v)
        return K(None)

    def e_YieldFrom(self, n, f):
        v = self.eval(n.value, f)
        self.list_extend(f.yields, v)
        return K(None)

    # operators -----------------------------------------------------------------------------------------------------
    OPS = {ast.Add: ("__add__", "__radd__"), ast.Sub: ("__sub__", "__rsub__"), ast.Mult: ("__mul__", "__rmul__"),
           ast.Div: ("__truediv__", "__rtruediv__"), ast.FloorDiv: ("__floordiv__", "__rfloordiv__"),
           ast.Mod: ("__mod__", "__rmod__"), ast.Pow: ("__pow__", "__rpow__"), ast.BitOr: ("__or__", "__ror__"),
           ast.BitAnd: ("__and__", "__rand__"), ast.BitXor: ("__xor__", "__rxor__"),
           ast.MatMult: ("__matmul__", "__rmatmul__"), ast.LShift: ("__lshift__", "__rlshift__"),
           ast.RShift: ("__rshift__", "__rrshift__")}

    def e_BinOp(self, n, f):
        return self.binop(type(n.op), self.eval(n.left, f), self.eval(n.right, f))

    def is_num(self, v):
        return (isinstance(v, K) and isinstance(v.v, (int, float))) or (isinstance(v, S) and v.ty in (T.Int, T.Flt, T.Bool))

    def is_str(self, v):
        return (isinstance(v, K) and isinstance(v.v, str)) or (isinstance(v, S) and v.ty == T.Str)

    def user_class(self, v):
        """does the operand carry user-defined operators?"""
        if isinstance(v, S) and isinstance(v.ty, T.Ref):
            return self.ref_classes(v.ty)
        if self.kind(v) == "obj":
            return [self.heap[v.id].p.ci]
        return None

    def binop(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if self.is_num(a) and self.is_num(b):
            return self.num_op(op, a, b)
        if op is ast.Add and self.is_str(a) and self.is_str(b):
            return self.str_cat(a, b)
        if op is ast.Mult and (self.is_str(a) or self.is_str(b)):
            if isinstance(a, K) and isinstance(b, K):
                return K(a.v * b.v)
            return self.opaque_str("strmul", [a, b])
        if op is ast.Mod and self.is_str(a):
            return self.opaque_str("fmt", [a, b])
        nm, rnm = self.OPS[op]
        ca, cb = self.user_class(a), self.user_class(b)
        if ca or cb:
            if ca and all(c.lookup(nm) for c in ca):
                r = self.call_method(a, nm, [b])
                if not (isinstance(r, ExtV) and r.name == "NotImplemented"):
                    return r
            if cb and all(c.lookup(rnm) for c in cb):
                r = self.call_method(b, rnm, [a])
                if not (isinstance(r, ExtV) and r.name == "NotImplemented"):
                    return r
            if op is ast.BitOr and isinstance(a, (ClassV, ExtV)):
                return Tup([a, b])
            raise PyRaise(ExcV("TypeError"), f"unsupported operand for {nm}")
        if op is ast.BitOr and isinstance(a, (ClassV, ExtV, Tup)) and isinstance(b, (ClassV, ExtV, K)):
            return Tup((a.items if isinstance(a, Tup) else [a]) + [b])
        ka, kb = self.kind(a), self.kind(b)
        if ka and kb:
            sets = ("set", "frozenset", "dict_keys")
            if op in (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor) and ka in sets and kb in sets:
                o = {ast.BitOr: "|", ast.BitAnd: "&", ast.Sub: "-", ast.BitXor: "^"}[op]
                p = self.set_op(o, self.to_setp(a), self.to_setp(b))
                return C("frozenset", p) if ka == "frozenset" else self.new_cell("set", p)
            if op is ast.BitOr and ka == "dict" and kb == "dict":
                return self.new_cell("dict", self.map_merge(self.payload(a), self.payload(b)))
            if op is ast.Add and ka == kb == "list":
                return self.new_cell("list", self.seq_concat(self.payload(a), self.payload(b)))
            if op is ast.Add and ka == kb == "tuple":
                p = self.seq_concat(self.payload(a), self.payload(b))
                return Tup(p.items) if p.items is not None else C("tuple", p)
            raise PyRaise(ExcV("TypeError"), "unsupported operands")
        if op is ast.Mult and ka in ("list", "tuple") and isinstance(b, K):
            p = self.payload(a)
            if p.items is not None:
                return self.new_cell("list", SeqP(p.items * b.v)) if ka == "list" else Tup(p.items * b.v)
        if any(isinstance(x, K) and x.v is None for x in (a, b)) or ka or kb:
            raise PyRaise(ExcV("TypeError"), "unsupported operands")
        raise Unsupported(f"binary {nm} on {a} {b}")

    def num_op(self, op, a, b):
        if isinstance(a, K) and isinstance(b, K):
            import operator as o
            fn = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv, ast.FloorDiv: o.floordiv,
                  ast.Mod: o.mod, ast.Pow: o.pow}[op]
            try:
                return K(fn(a.v, b.v))
            except ZeroDivisionError:
                raise PyRaise(ExcV("ZeroDivisionError"))
        isf = any((isinstance(x, K) and isinstance(x.v, float)) or (isinstance(x, S) and x.ty == T.Flt) for x in (a, b))
        if not isf and op in (ast.Add, ast.Sub, ast.Mult):
            x, y = self.coerce(a, T.Int), self.coerce(b, T.Int)
            return S(T.Int, {ast.Add: x + y, ast.Sub: x - y, ast.Mult: x * y}[op])
        if not isf and op in (ast.FloorDiv, ast.Mod):
            x, y = self.coerce(a, T.Int), self.coerce(b, T.Int)
            if self.decide(y == 0):
                raise PyRaise(ExcV("ZeroDivisionError"))
            # python floor semantics from euclidean div
            q = z3.If(y > 0, x / y, z3.If(x % y == 0, x / y, x / y - 1))
            q = z3.If(y > 0, x / y, (-x) / (-y))
            return S(T.Int, q if op is ast.FloorDiv else x - q * y)
        x, y = self.coerce(a, T.Flt), self.coerce(b, T.Flt)
        if op is ast.Add:
            return S(T.Flt, Z.f_add(x, y))
        if op is ast.Sub:
            return S(T.Flt, Z.f_sub(x, y))
        if op is ast.Mult:
            return S(T.Flt, Z.f_mul(x, y))
        if op in (ast.Div, ast.FloorDiv, ast.Mod):
            if self.decide(y == Z.ffin(z3.RealVal(0))):
                raise PyRaise(ExcV("ZeroDivisionError"))
            if op is ast.Div:
                return S(T.Flt, Z.f_div(x, y))
            if op is ast.FloorDiv or op is ast.Mod:
                # exact for finite operands; opaque otherwise
                fin = z3.And(Z.f_isfin(x), Z.f_isfin(y))
                if self.decide(fin):
                    q = z3.ToReal(z3.ToInt(FLT.r(x) / FLT.r(y)))
                    return S(T.Flt, Z.ffin(q)) if op is ast.FloorDiv else S(T.Flt, Z.ffin(FLT.r(x) - q * FLT.r(y)))
                zero = z3.RealVal(0)
                if self.decide(z3.And(Z.f_isfin(x), Z.f_isinf(y))):
                    pos = y == FLT.pinf
                    same_sign = z3.Or(FLT.r(x) == zero, pos == (FLT.r(x) > zero))
                    return S(T.Flt, z3.If(same_sign, Z.ffin(zero), Z.ffin(z3.RealVal(-1))) if op is ast.FloorDiv else z3.If(same_sign, x, y))
                return S(T.Flt, FLT.nan)
        if op is ast.Pow:
            fn = z3.Function("f_pow", FLT, FLT, FLT)
            return S(T.Flt, fn(x, y))
        raise Unsupported(f"numeric {op}")

    def e_Compare(self, n, f):
        left = self.eval(n.left, f)
        if len(n.ops) == 1:
            return self.b(self.compare(n.ops[0], left, self.eval(n.comparators[0], f)))
        acc = []
        for op, c in zip(n.ops, n.comparators):
            right = self.eval(c, f)
            t = self.compare(op, left, right)
            acc.append(t)
            left = right
        return self.b(z3.And(*acc))

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_term(a, b)
        if isinstance(op, ast.IsNot):
            return z3.Not(self.is_term(a, b))
        if isinstance(op, ast.Eq):
            return self.py_eq(a, b)
        if isinstance(op, ast.NotEq):
            ca = self.user_class(a)
            if ca and all(self._own(c, "__ne__") for c in ca):
                return self.truth_term(self.call_method(a, "__ne__", [b]))
            return z3.Not(self.py_eq(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return z3.Not(self.contains(b, a))
        return self.order(op, a, b)

    def is_term(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(y, K) and (y.v is None or isinstance(y.v, bool)):
                if isinstance(x, K):
                    return z3.BoolVal(x.v is y.v)
                if isinstance(x, S) and isinstance(x.ty, T.Opt):
                    s = sort_of(x.ty)
                    if y.v is None:
                        return s.is_none(x.t)
                    if x.ty.t == T.Bool:
                        return z3.And(s.is_some(x.t), s.val(x.t) == y.v)
                if isinstance(x, S) and x.ty == T.Bool and y.v is not None:
                    return x.t == y.v
                if isinstance(x, S) and x.ty == T.Any:
                    return x.t == self.coerce(y, T.Any)
                return z3.BoolVal(False)
        if isinstance(a, Loc) and isinstance(b, Loc):
            return z3.BoolVal(a.id == b.id)
        if isinstance(a, En) or isinstance(b, En) or isinstance(a, (ClassV, ExtV, FuncV)):
            return self.eq_term(a, b)
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            return self.type_eq(a, b)
        if isinstance(a, S) and isinstance(b, S) and a.ty == b.ty and (isinstance(a.ty, (T.Ref, T.EnumT)) or a.ty == T.Any):
            if isinstance(a.ty, T.Ref) and not self.spec_depth:
                # identity implies equality; equality does not imply identity
                idn = z3.Function("is_" + Z.clean(a.ty.name), a.t.sort(), a.t.sort(), z3.BoolSort())
                self.assume(z3.Implies(idn(a.t, b.t), a.t == b.t))
                if a.t.eq(b.t):
                    return z3.BoolVal(True)
                return idn(a.t, b.t)
            return a.t == b.t
        if isinstance(a, S) and isinstance(b, S) and (isinstance(a.ty, T.Opt) or isinstance(b.ty, T.Opt)):
            ta, tb = (x.ty.t if isinstance(x.ty, T.Opt) else x.ty for x in (a, b))
            if ta == tb and (isinstance(ta, (T.Ref, T.EnumT)) or ta == T.Any):
                if a.t.sort() == b.t.sort() and a.t.eq(b.t):
                    return z3.BoolVal(True)
                na, nb = (sort_of(x.ty).is_none(x.t) if isinstance(x.ty, T.Opt) else z3.BoolVal(False) for x in (a, b))
                va, vb = (S(ta, sort_of(x.ty).val(x.t)) if isinstance(x.ty, T.Opt) else x for x in (a, b))
                return z3.Or(z3.And(na, nb), z3.And(z3.Not(na), z3.Not(nb), self.is_term(va, vb)))
        raise Unsupported(f"identity of {a} and {b}")

    def type_eq(self, a, b):
        if isinstance(b, TypeOf) and isinstance(a, TypeOf):
            x, y = a.sv, b.sv
            if self.kind(x) == "obj" and self.kind(y) == "obj":
                return z3.BoolVal(self.heap[x.id].p.ci is self.heap[y.id].p.ci)
            if isinstance(x, S) and isinstance(y, S) and x.ty == y.ty and isinstance(x.ty, T.Ref):
                return z3.BoolVal(True) if len(x.ty.classes) <= 1 else self.tag(x) == self.tag(y)
            raise Unsupported("type comparison")
        if isinstance(a, TypeOf):
            a, b = b, a
        x = b.sv
        if isinstance(a, ClassV):
            if self.kind(x) == "obj":
                return z3.BoolVal(self.heap[x.id].p.ci is a.ci)
            if isinstance(x, S) and isinstance(x.ty, T.Ref):
                if a.ci.qual not in x.ty.classes:
                    return z3.BoolVal(False)
                return z3.BoolVal(True) if len(x.ty.classes) == 1 else self.tag(x) == x.ty.classes.index(a.ci.qual)
            return z3.BoolVal(False)
        if isinstance(a, ExtV):
            return self.isinstance_term(x, a)
        raise Unsupported("type comparison")

    def ref_eq_mode(self, ty):
        return ty.eq

    def py_eq(self, a, b):
        """python == including user-defined __eq__"""
        if self.spec_depth:
            return self.eq_term(a, b)
        if isinstance(a, S) and isinstance(a.ty, T.Opt) or isinstance(b, S) and isinstance(b.ty, T.Opt):
            # term equality is right unless the payload runs user code
            oa = [x for x in (a, b) if isinstance(x, S) and isinstance(x.ty, T.Opt)]
            if any(isinstance(x.ty.t, T.Ref) and x.ty.t.eq == "code" for x in oa):
                return self.py_eq(self.resolve(a), self.resolve(b))
            return self.eq_term(a, b)
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            return self.type_eq(a, b)
        ca, cb = self.user_class(a), self.user_class(b)
        if not ca and not cb:
            if self._code_elements(a) or self._code_elements(b):
                return self._elementwise_eq(a, b)
            return self.eq_term(a, b)
        if ca and self._term_eq(a) and cb and self._term_eq(b):
            ra, rb = self._family(a), self._family(b)
            if ra is rb:
                return self.coerce(a, ra) == self.coerce(b, rb)
            if not (set(ra.classes) & set(rb.classes)):
                return z3.BoolVal(False)
        if ca:
            for c in ca:
                pass
            if all(self._own(c, "__eq__") for c in ca):
                r = self.call_method(a, "__eq__", [b])
                if not (isinstance(r, ExtV) and r.name == "NotImplemented"):
                    return self.truth_term(r)
            elif all(c.is_dataclass for c in ca) and self.kind(a) == "obj" and self.kind(b) == "obj":
                pa, pb = self.heap[a.id].p, self.heap[b.id].p
                if pa.ci is not pb.ci:
                    return z3.BoolVal(False)
                return z3.And(*[self.py_eq(pa.fields[x], pb.fields[x]) for x in pa.fields])
            elif self._term_eq(a):
                fam = self._family(a)
                try:
                    return self.coerce(a, fam) == self.coerce(b, fam)
                except Unsupported:
                    return z3.BoolVal(False)
        if cb and all(self._own(c, "__eq__") for c in cb):
            r = self.call_method(b, "__eq__", [a])
            if not (isinstance(r, ExtV) and r.name == "NotImplemented"):
                return self.truth_term(r)
        if isinstance(a, Loc) and isinstance(b, Loc):
            return z3.BoolVal(a.id == b.id)
        return z3.BoolVal(False)

    def _code_elements(self, v):
        """a collection whose members compare by user code"""
        k = self.kind(v)
        if k not in ("list", "tuple", "set", "frozenset", "dict"):
            return False

        def ty(t):
            if isinstance(t, T.Opt):
                return ty(t.t)
            return isinstance(t, T.Ref) and t.eq == "code" or isinstance(t, (T.Seq, T.Set)) and ty(t.t) or isinstance(t, T.TupT) and any(map(ty, t.ts))

        def val(x):
            if isinstance(x, S):
                return ty(x.ty)
            if self.kind(x) == "obj":
                return self._family(x) is None or not self._term_eq(x)
            return self._code_elements(x)
        p = self.payload(v)
        if isinstance(p, (SeqP, SetP)):
            return any(val(i) for i in p.items) if p.items is not None else ty(p.ety)
        if isinstance(p, MapP):
            return any(val(x) for e in p.entries for x in e) if p.entries is not None else ty(p.kty) or ty(p.vty)
        return False

    def _elementwise_eq(self, a, b):
        ka, kb = self.kind(a), self.kind(b)
        if ka not in ("list", "tuple") or kb not in ("list", "tuple"):
            if ka is None or kb is None or (ka in ("list", "tuple")) != (kb in ("list", "tuple")):
                return z3.BoolVal(False)
            return self.eq_term(a, b)   # sets and dictionaries of such objects: their members are identified by equality
        if ka != kb:
            return z3.BoolVal(False)
        p, q = self.payload(a), self.payload(b)
        la, lb = self.seq_len(p), self.seq_len(q)

        def at(r, i):
            return r.items[i] if r.items is not None else self.lift(r.ety, z3.simplify(z3.Select(r.arr, z3.IntVal(i) if isinstance(i, int) else i)))
        if p.items is not None or q.items is not None:
            n = len(p.items) if p.items is not None else len(q.items)
            if not self.decide(la == lb):
                return z3.BoolVal(False)
            return z3.And(*[self.py_eq(at(p, i), at(q, i)) for i in range(n)]) if n else z3.BoolVal(True)
        v = z3.Int(f"q!{self.bump()}")
        return z3.And(la == lb, self._quant(True, [v], z3.And(0 <= v, v < la), lambda: self.py_eq(at(p, v), at(q, v)), self._dummy_frame()))

    def _family(self, v):
        if isinstance(v, S):
            return v.ty
        return self.reg.ref_for(self.heap[v.id].p.ci.qual)

    def _term_eq(self, v):
        fam = self._family(v)
        return fam is not None and fam.eq != "code"

    def contains(self, c, x):
        c = self.resolve(c)
        if isinstance(c, K) and isinstance(c.v, str):
            if isinstance(x, K):
                return z3.BoolVal(x.v in c.v)
        if self.is_str(c):
            fn = z3.Function("str_contains", Z.STR, Z.STR, z3.BoolSort())
            return fn(self.coerce(c, T.Str), self.coerce(x, T.Str))
        if isinstance(c, ClassV) and c.ci.is_enum():
            return z3.Or(*[self.py_eq(En(c.ci, m, v), x) for m, v in c.ci.enum_members()])
        if isinstance(c, GenDom):
            ds = []
            for cc in c.contribs:
                ds.append(_exists(cc.binders, z3.And(cc.guard, self.eq_term(cc.value, x))))
            return z3.Or(*ds) if ds else z3.BoolVal(False)
        if self.user_class(c):
            if all(self._own(ci, "__contains__") for ci in self.user_class(c)):
                return self.truth_term(self.call_method(c, "__contains__", [x]))
            return self.contains(self.call_method(c, "__iter__", []), x)
        k = self.kind(c)
        if k is None:
            if isinstance(c, K) and c.v is None:
                raise PyRaise(ExcV("TypeError"), "argument of type None is not iterable")
            raise Unsupported(f"membership in {c}")
        p = self.payload(c)
        if k == "dict_values":
            d = self.dom_of_map(p, "values")
            if d.items is not None:
                return z3.Or(*[self.py_eq(i, x) for i in d.items]) if d.items else z3.BoolVal(False)
            v = z3.Const(f"v!{self.bump()}", d.sort)
            return z3.Exists([v], z3.And(d.guard(v), self.eq_term(d.elem(v), x)))
        if k == "dict_items":
            kk, vv = self.payload(x).items
            return z3.And(self.map_has(p, kk), self.formula_under(self.map_has(p, kk), lambda: self.eq_term(self.map_get(p, kk), vv), self._dummy_frame()))
        if isinstance(p, SeqP):
            if p.items is not None:
                return z3.Or(*[self.py_eq(i, x) for i in p.items]) if p.items else z3.BoolVal(False)
            return self.seq_has(p, self.exp1(x))
        self.hashable_probe(x)
        if isinstance(p, SetP):
            return self.set_has(p, self.exp1(x))
        return self.map_has(p, self.exp1(x))

    def exp1(self, x):
        if isinstance(x, S) and isinstance(x.ty, T.Opt):
            return self.resolve_opt(x)
        return x

    def hashable_probe(self, x):
        if self.spec_depth:
            return
        # python raises TypeError for unhashable members (a set probe in a set is converted to frozenset)
        if isinstance(x, (Loc, C)) and self.kind(x) in ("list", "dict"):
            raise PyRaise(ExcV("TypeError"), "unhashable")

    def _dummy_frame(self):
        if not hasattr(self, "_df"):
            self._df = Frame(None)
        return self._df

    def order(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        nm = {ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}[type(op)]
        rn = {"__lt__": "__gt__", "__le__": "__ge__", "__gt__": "__lt__", "__ge__": "__le__"}[nm]
        if self.is_num(a) and self.is_num(b):
            if isinstance(a, K) and isinstance(b, K):
                return z3.BoolVal({"__lt__": a.v < b.v, "__le__": a.v <= b.v, "__gt__": a.v > b.v, "__ge__": a.v >= b.v}[nm])
            ta, tb = self.ty_of(a), self.ty_of(b)
            if ta != T.Flt and tb != T.Flt:
                x, y = self.coerce(a, T.Int), self.coerce(b, T.Int)
                return {"__lt__": x < y, "__le__": x <= y, "__gt__": x > y, "__ge__": x >= y}[nm]
            x, y = self.coerce(a, T.Flt), self.coerce(b, T.Flt)
            return {"__lt__": lambda: Z.f_lt(x, y), "__le__": lambda: Z.f_le(x, y), "__gt__": lambda: Z.f_lt(y, x), "__ge__": lambda: Z.f_le(y, x)}[nm]()
        if self.is_str(a) and self.is_str(b):
            if isinstance(a, K) and isinstance(b, K):
                return z3.BoolVal({"__lt__": a.v < b.v, "__le__": a.v <= b.v, "__gt__": a.v > b.v, "__ge__": a.v >= b.v}[nm])
            x, y = self.coerce(a, T.Str), self.coerce(b, T.Str)
            return {"__lt__": Z.str_lt(x, y), "__le__": z3.Not(Z.str_lt(y, x)), "__gt__": Z.str_lt(y, x), "__ge__": z3.Not(Z.str_lt(x, y))}[nm]
        ca, cb = self.user_class(a), self.user_class(b)
        if ca or cb:
            if ca and all(self._own(c, nm) for c in ca):
                r = self.call_method(a, nm, [b])
                if not (isinstance(r, ExtV) and r.name == "NotImplemented"):
                    return self.truth_term(r)
            if cb and all(self._own(c, rn) for c in cb):
                r = self.call_method(b, rn, [a])
                if not (isinstance(r, ExtV) and r.name == "NotImplemented"):
                    return self.truth_term(r)
            raise PyRaise(ExcV("TypeError"), "unorderable")
        ka, kb = self.kind(a), self.kind(b)
        sets = ("set", "frozenset", "dict_keys")
        if ka in sets and kb in sets:
            pa, pb = self.to_setp(a), self.to_setp(b)
            if nm == "__le__":
                return self.subset(pa, pb)
            if nm == "__ge__":
                return self.subset(pb, pa)
            if nm == "__lt__":
                return z3.And(self.subset(pa, pb), z3.Not(self.subset(pb, pa)))
            return z3.And(self.subset(pb, pa), z3.Not(self.subset(pa, pb)))
        raise PyRaise(ExcV("TypeError"), "unorderable")

    # ---------------------------------------------------------------------------------------------------------------
    # binding & statements
    def bind(self, tgt, v, f):
        if isinstance(tgt, ast.Name):
            fr = f
            if tgt.id in f.nonlocals:
                fr = f.parent
                while fr is not None and tgt.id not in fr.locals:
                    fr = fr.parent
            fr.locals[tgt.id] = v
            return
        if isinstance(tgt, (ast.Tuple, ast.List)):
            v = self.resolve(v)
            n = len(tgt.elts)
            star = [i for i, e in enumerate(tgt.elts) if isinstance(e, ast.Starred)]
            if self.user_class(v) and self.kind(v) == "obj" and "NamedTuple" in self.heap[v.id].p.ci.all_base_names():
                p = self.heap[v.id].p
                items = [p.fields[a] for a, _ in p.ci.annotated]
            elif isinstance(v, S) and isinstance(v.ty, T.Ref) and "NamedTuple" in self.ref_classes(v.ty)[0].all_base_names():
                ci = self.ref_classes(v.ty)[0]
                items = [self.get_attr(v, a) for a, _ in ci.annotated]
            else:
                p = self.to_seqp(v)
                if p.items is None:
                    if star:
                        raise Unsupported("starred unpacking of a symbolic sequence")
                    if not self.decide(p.n == n):
                        raise PyRaise(ExcV("ValueError"), "unpack")
                    items = [self.lift(p.ety, z3.simplify(z3.Select(p.arr, i))) for i in range(n)]
                else:
                    items = p.items
            if star:
                i = star[0]
                tail = n - i - 1
                if len(items) < n - 1:
                    raise PyRaise(ExcV("ValueError"), "unpack")
                items = items[:i] + [self.new_cell("list", SeqP(items[i:len(items) - tail]))] + items[len(items) - tail:]
            if len(items) != n:
                raise PyRaise(ExcV("ValueError"), "unpack")
            for e, x in zip(tgt.elts, items):
                self.bind(e.value if isinstance(e, ast.Starred) else e, x, f)
            return
        if isinstance(tgt, ast.Attribute):
            self.set_attr(self.eval(tgt.value, f), tgt.attr, v)
            return
        if isinstance(tgt, ast.Subscript):
            self.set_item(self.eval(tgt.value, f), self.eval(tgt.slice, f), v)
            return
        raise Unsupported(f"assignment target {type(tgt).__name__}")

    def set_attr(self, obj, name, v):
        obj = self.resolve(obj)
        if isinstance(obj, K) and obj.v is None:
            raise PyRaise(ExcV("AttributeError"))
        if isinstance(obj, Loc) and self.kind(obj) == "obj":
            p = self.heap[obj.id].p
            for c in p.ci.mro():
                if name in c.setters:
                    self.call_func(c.setters[name], [obj, v], {})
                    return
            lk = p.ci.lookup(name)
            if lk and lk[0] == "method" and lk[1].is_property:
                raise PyRaise(ExcV("AttributeError"), "can't set")
            if isinstance(p.ty, S):
                raise Unsupported("mutation of an object already used as a value")

            def newp():
                return ObjP(p.ci, {**p.fields, name: v}, p.ty)
            self.mutate(obj, "setattr", [K(name), v], newp)
            return
        if isinstance(obj, (LamV, FuncV)):
            return
        raise Unsupported(f"attribute assignment on {obj}")

    def set_item(self, base, ix, v):
        base = self.resolve(base)
        if self.user_class(base):
            self.call_method(base, "__setitem__", [ix, v])
            return
        k = self.kind(base)
        if k == "dict":
            self.hashable(ix)
            if not isinstance(base, Loc):
                raise Unsupported("mutation of a shared container")
            p = self.heap[base.id].p
            self.mutate(base, "set", [ix, v], lambda: self.map_put(p, self.freeze_key(ix), v))
            return
        if k == "list" and isinstance(base, Loc):
            p = self.cell(base).p
            if p.items is not None and isinstance(ix, K):
                items = list(p.items)
                try:
                    items[ix.v] = v
                except IndexError:
                    raise PyRaise(ExcV("IndexError"))
                self.mutate(base, "setitem", [ix, v], lambda: SeqP(items))
                return
            i = self.coerce(ix, T.Int)
            if p.items is not None:
                ety = self.join_ty(self.elem_ty(p.items), self.ty_of(v)) if p.items else self.ty_of(v)
                t = self.seq_term(p, ety)
                s = sort_of(T.Seq(ety))
                p = SeqP(None, ety, z3.simplify(s.len(t)), z3.simplify(s.arr(t)))
            if not self.decide(z3.And(i < p.n, i >= -p.n)):
                raise PyRaise(ExcV("IndexError"))
            i = z3.simplify(z3.If(i >= 0, i, i + p.n))
            self.mutate(base, "setitem", [ix, v], lambda: SeqP(None, p.ety, p.n, z3.Store(p.arr, i, self.coerce(v, p.ety))))
            return
        if k in ("tuple", "frozenset", "set") or (isinstance(base, K)):
            raise PyRaise(ExcV("TypeError"), "item assignment")
        raise Unsupported(f"item assignment on {base}")

    def freeze_key(self, k):
        return self.export(k) if isinstance(k, (Loc, Tup, C)) and self.kind(k) != "obj" else k

    def exec_block(self, stmts, f):
        for s in stmts:
            self.exec(s, f)

    def exec(self, s, f):
        self.steps = getattr(self, "steps", 0) + 1
        if self.steps > 200000:
            raise Unsupported("step limit")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        self.line = getattr(s, "lineno", 0)
        m(s, f)

    def s_Expr(self, s, f):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, f)

    def s_Pass(self, s, f):
        pass

    def s_Global(self, s, f):
        raise Unsupported("global")

    def s_Nonlocal(self, s, f):
        f.nonlocals.update(s.names)

    def s_Import(self, s, f):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            f.locals[nm] = self._import_val(a.name if a.asname else a.name.split(".")[0], None, f)

    def s_ImportFrom(self, s, f):
        base = s.module or ""
        if s.level:
            p = f.module._pkg().split(".")
            p = p[: len(p) - (s.level - 1)]
            base = ".".join(p + ([s.module] if s.module else []))
        for a in s.names:
            f.locals[a.asname or a.name] = self._import_val(base, a.name, f)

    def _import_val(self, base, attr, f):
        if base.startswith("postbound"):
            m = REPO.module(base)
            if attr is None:
                return ModV(m)
            r = m._resolve1(attr) if m else None
            if r:
                return self.from_resolved(r, m)
            sub = REPO.module(base + "." + attr)
            if sub:
                return ModV(sub)
        return ExtV(base if attr is None else f"{base}.{attr}")

    def s_Assign(self, s, f):
        v = self.eval(s.value, f)
        for t in s.targets:
            self.bind(t, v, f)

    def s_AnnAssign(self, s, f):
        if s.value is not None:
            self.bind(s.target, self.eval(s.value, f), f)

    def s_AugAssign(self, s, f):
        tgt = s.target
        if isinstance(tgt, ast.Name):
            cur = self.load(tgt.id, f)
            r = self.inplace(type(s.op), cur, self.eval(s.value, f))
            if r is not None:
                self.bind(tgt, r, f)
        elif isinstance(tgt, ast.Attribute):
            o = self.eval(tgt.value, f)
            cur = self.get_attr(o, tgt.attr)
            r = self.inplace(type(s.op), cur, self.eval(s.value, f))
            if r is not None:
                self.set_attr(o, tgt.attr, r)
        elif isinstance(tgt, ast.Subscript):
            o = self.eval(tgt.value, f)
            ix = self.eval(tgt.slice, f)
            cur = self.get_item(o, ix)
            r = self.inplace(type(s.op), cur, self.eval(s.value, f))
            if r is not None:
                self.set_item(o, ix, r)
        else:
            raise Unsupported("augmented target")

    def inplace(self, op, cur, v):
        """mutate containers in place; None when nothing has to be rebound"""
        if isinstance(cur, Loc):
            k = self.kind(cur)
            if k == "list" and op is ast.Add:
                self.list_extend(cur, v)
                return None
            if k == "set" and op in (ast.BitOr, ast.BitAnd, ast.Sub):
                if op is ast.BitOr:
                    self.set_update(cur, v)
                else:
                    p = self.set_op("&" if op is ast.BitAnd else "-", self.cell(cur).p, self.to_setp(v))
                    self.mutate(cur, "replace", [], lambda: p)
                return None
            if k == "dict" and op is ast.BitOr:
                v = self.resolve(v)
                self.dict_update(cur, v)
                return None
            if k == "obj":
                nm = {ast.Add: "__iadd__", ast.BitOr: "__ior__"}.get(op)
                if nm and self._own(self.heap[cur.id].p.ci, nm):
                    return self.call_method(cur, nm, [v])
        if isinstance(cur, C) and cur.kind in ("list", "set", "dict"):
            raise Unsupported("in-place change of a shared container")
        return self.binop(op, cur, v)

    def s_Delete(self, s, f):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                base = self.resolve(self.eval(t.value, f))
                ix = self.eval(t.slice, f)
                if self.kind(base) == "dict" and isinstance(base, Loc):
                    p = self.cell(base).p
                    if not self.decide(self.map_has(p, ix)):
                        raise PyRaise(ExcV("KeyError"))
                    self.mutate(base, "replace", [], lambda: self.map_remove(p, ix))
                    continue
            elif isinstance(t, ast.Name):
                f.locals.pop(t.id, None)
                continue
            raise Unsupported("del")

    def s_If(self, s, f):
        t = self.truth_term(self.eval(s.test, f))
        if self.decide(t):
            self.exec_block(s.body, f)
        else:
            self.exec_block(s.orelse, f)

    def s_Return(self, s, f):
        raise ReturnEx(self.eval(s.value, f) if s.value is not None else K(None))

    def s_Break(self, s, f):
        raise BreakEx()

    def s_Continue(self, s, f):
        raise ContinueEx()

    def s_Assert(self, s, f):
        if not self.truthy(self.eval(s.test, f)):
            raise PyRaise(ExcV("AssertionError"), f"line {s.lineno}")

    def s_Raise(self, s, f):
        if s.exc is None:
            e = getattr(f, "current_exc", None)
            fr = f
            while e is None and fr is not None:
                e = getattr(fr, "current_exc", None)
                fr = fr.parent
            if e is None:
                raise Unsupported("bare raise")
            raise PyRaise(e)
        n = s.exc
        if isinstance(n, ast.Call):
            cv = self.eval(n.func, f)
            raise PyRaise(self.mk_exc(cv), f"line {s.lineno}")
        v = self.eval(n, f)
        raise PyRaise(v if isinstance(v, ExcV) else self.mk_exc(v), f"line {s.lineno}")

    def mk_exc(self, cv):
        if isinstance(cv, ExtV):
            return ExcV(cv.name.split(".")[-1])
        if isinstance(cv, ClassV):
            return ExcV(cv.ci.name, [cv.ci])
        if isinstance(cv, ExcV):
            return cv
        raise Unsupported("raised value")

    def exc_matches(self, exc, handler):
        names = {exc.cls, "Exception", "BaseException"}
        names.update(EXC_BASES.get(exc.cls, []))
        for a in exc.args:
            if isinstance(a, ClassInfo):
                names.update(a.all_base_names())
        if isinstance(handler, Tup):
            return any(self.exc_matches(exc, h) for h in handler.items)
        if isinstance(handler, ClassV):
            return handler.ci.name in names
        if isinstance(handler, ExtV):
            return handler.name.split(".")[-1] in names
        raise Unsupported("except type")

    def s_Try(self, s, f):
        try:
            try:
                self.exec_block(s.body, f)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None or self.exc_matches(e.exc, self.eval(h.type, f)):
                        if h.name:
                            f.locals[h.name] = e.exc
                        old = getattr(f, "current_exc", None)
                        f.current_exc = e.exc
                        try:
                            self.exec_block(h.body, f)
                        finally:
                            f.current_exc = old
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, f)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            if s.finalbody:
                self.exec_block(s.finalbody, f)
            raise
        else:
            if s.finalbody:
                self.exec_block(s.finalbody, f)

    def s_With(self, s, f):
        for it in s.items:
            v = self.eval(it.context_expr, f)
            if not (isinstance(v, ExtV) and v.name == "noop"):
                raise Unsupported("with statement")
        self.exec_block(s.body, f)

    def s_FunctionDef(self, s, f):
        fi = FuncInfo(f.module, f"{f.fi.qual if f.fi else ''}.<locals>.{s.name}", s, None)
        f.locals[s.name] = FuncV(fi, closure=f)

    def s_ClassDef(self, s, f):
        raise Unsupported("local class")

    # match -----------------------------------------------------------------------------------------------------------
    def s_Match(self, s, f):
        v = self.eval(s.subject, f)
        for case in s.cases:
            if self.match(case.pattern, v, f):
                if case.guard is not None and not self.truthy(self.eval(case.guard, f)):
                    continue
                self.exec_block(case.body, f)
                return

    def match(self, p, v, f):
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, f):
                return False
            if p.name:
                f.locals[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, f) for q in p.patterns)
        if isinstance(p, ast.MatchValue):
            return self.decide(self.py_eq(v, self.eval(p.value, f)))
        if isinstance(p, ast.MatchSingleton):
            return self.decide(self.is_term(v, K(p.value)))
        if isinstance(p, ast.MatchClass):
            cv = self.eval(p.cls, f)
            v = self.resolve(v)
            if not self.decide(self.isinstance_term(v, cv)):
                return False
            if p.patterns:
                if isinstance(cv, ExtV):
                    return self.match(p.patterns[0], v, f)
                ci = cv.ci
                lk = ci.lookup("__match_args__")
                if lk:
                    names = [e.value for e in lk[1][1].elts]
                elif ci.is_dataclass or "NamedTuple" in ci.all_base_names():
                    names = [a for a, _ in ci.annotated]
                else:
                    raise Unsupported("match positional")
                if len(p.patterns) > len(names):
                    raise PyRaise(ExcV("TypeError"), "match args")
                for nm, q in zip(names, p.patterns):
                    if not self.match(q, self.get_attr(v, nm), f):
                        return False
            for nm, q in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.match(q, self.get_attr(v, nm), f):
                    return False
            return True
        if isinstance(p, ast.MatchSequence):
            v = self.resolve(v)
            if self.kind(v) not in ("list", "tuple"):
                return False
            q = self.payload(v)
            n = len(p.patterns)
            if any(isinstance(x, ast.MatchStar) for x in p.patterns):
                raise Unsupported("match star")
            if q.items is None:
                if not self.decide(q.n == n):
                    return False
                items = [self.lift(q.ety, z3.simplify(z3.Select(q.arr, i))) for i in range(n)]
            else:
                if len(q.items) != n:
                    return False
                items = q.items
            return all(self.match(x, y, f) for x, y in zip(p.patterns, items))
        raise Unsupported(f"pattern {type(p).__name__}")

    # isinstance ----------------------------------------------------------------------------------------------------
    ABC = {"Iterable": ("list", "tuple", "set", "frozenset", "dict", "generator", "dict_keys", "dict_values", "dict_items"),
           "Collection": ("list", "tuple", "set", "frozenset", "dict", "dict_keys", "dict_values", "dict_items"),
           "Container": ("list", "tuple", "set", "frozenset", "dict", "dict_keys", "dict_items"),
           "Sequence": ("list", "tuple"), "Set": ("set", "frozenset", "dict_keys", "dict_items"), "Mapping": ("dict",),
           "Iterator": ("generator",), "Generator": ("generator",), "Sized": ("list", "tuple", "set", "frozenset", "dict"),
           "Hashable": ("tuple", "frozenset"), "Callable": (), "MutableMapping": ("dict",), "MutableSequence": ("list",),
           "List": ("list",), "Dict": ("dict",)}
    ABC_DUNDER = {"Iterable": "__iter__", "Container": "__contains__", "Sized": "__len__", "Callable": "__call__", "Hashable": "__hash__"}

    def isinstance_term(self, v, cv):
        if isinstance(cv, Tup):
            return z3.Or(*[self.isinstance_term(v, c) for c in cv.items])
        if isinstance(cv, K) and cv.v is None:
            cv = ExtV("NoneType")
        if isinstance(v, S) and isinstance(v.ty, T.Opt):
            s = sort_of(v.ty)
            inner = S(v.ty.t, s.val(v.t))
            if isinstance(v.ty.t, (T.Seq, T.Set, T.Map, T.TupT)) or (isinstance(v.ty.t, T.Ref) and len(v.ty.t.classes) > 1):
                inner = self.lift(v.ty.t, inner.t)
            inner = self.isinstance_term(inner, cv)
            none = self.isinstance_term(K(None), cv)
            return z3.If(s.is_none(v.t), none, inner)
        if isinstance(cv, TypeOf):
            x = cv.sv
            if self.kind(x) == "obj":
                return self.isinstance_term(v, ClassV(self.heap[x.id].p.ci))
            if isinstance(x, S) and isinstance(x.ty, T.Ref):
                cis = self.ref_classes(x.ty)
                if len(cis) == 1:
                    return self.isinstance_term(v, ClassV(cis[0]))
                tg = self.tag(x)
                return z3.Or(*[z3.And(tg == i, self.isinstance_term(v, ClassV(c))) for i, c in enumerate(cis)])
            raise Unsupported("isinstance type(x)")
        if isinstance(cv, FuncV):
            raise Unsupported("isinstance of function")
        if isinstance(cv, ClassV):
            ci = cv.ci
            if isinstance(v, S) and isinstance(v.ty, T.Ref):
                cis = self.ref_classes(v.ty)
                hits = [i for i, c in enumerate(cis) if c.issubclass(ci)]
                if len(hits) == len(cis):
                    return z3.BoolVal(True)
                tg = self.tag(v)
                return z3.Or(*[tg == i for i in hits]) if hits else z3.BoolVal(False)
            if isinstance(v, S) and isinstance(v.ty, T.EnumT):
                ms = Z.enum_members(v.ty)
                hits = [i for i, (c, m, _) in enumerate(ms) if REPO.class_(c).issubclass(ci)]
                if len(hits) == len(ms):
                    return z3.BoolVal(True)
                return z3.Or(*[v.t == i for i in hits]) if hits else z3.BoolVal(False)
            if isinstance(v, S) and v.ty == T.Any:
                fn = z3.Function("any_isinstance_" + Z.clean(ci.qual), Z.ANY, z3.BoolSort())
                return fn(v.t)
            if isinstance(v, En):
                return z3.BoolVal(v.ci.issubclass(ci))
            if self.kind(v) == "obj":
                return z3.BoolVal(self.heap[v.id].p.ci.issubclass(ci))
            if isinstance(v, ExcV):
                return z3.BoolVal(self.exc_matches(v, cv))
            return z3.BoolVal(False)
        nm = cv.name.split(".")[-1]
        if isinstance(v, S) and v.ty == T.Any:
            if nm in ("object", "Any"):
                return z3.BoolVal(True)
            return z3.Function("any_isinstance_" + Z.clean(nm), Z.ANY, z3.BoolSort())(v.t)
        prim = {"str": (T.Str,), "int": (T.Int, T.Bool), "float": (T.Flt,), "bool": (T.Bool,), "NoneType": (T.NoneT,),
                "Number": (T.Int, T.Flt, T.Bool), "Real": (T.Int, T.Flt, T.Bool)}
        if nm in ("object",):
            return z3.BoolVal(True)
        if nm in prim:
            if isinstance(v, K):
                return z3.BoolVal(isinstance(v.v, {"str": str, "int": int, "float": float, "bool": bool, "NoneType": type(None), "Number": (int, float), "Real": (int, float)}[nm]))
            if isinstance(v, S):
                if isinstance(v.ty, T.EnumT) and nm == "str":
                    hits = [i for i, (c, m, _) in enumerate(Z.enum_members(v.ty)) if "StrEnum" in REPO.class_(c).all_base_names()]
                    return z3.Or(*[v.t == i for i in hits]) if hits else z3.BoolVal(False)
                return z3.BoolVal(v.ty in prim[nm])
            if isinstance(v, En) and nm == "str":
                return z3.BoolVal("StrEnum" in v.ci.all_base_names())
            return z3.BoolVal(False)
        kinds = {"list": ("list",), "tuple": ("tuple",), "set": ("set",), "frozenset": ("frozenset",), "dict": ("dict",), "type": ()}
        if nm in ("type", "Type"):
            return z3.BoolVal(isinstance(v, (ClassV, TypeOf)))
        if nm in kinds:
            return z3.BoolVal(self.kind(v) in kinds[nm])
        if nm in self.ABC:
            k = self.kind(v)
            if k and k != "obj":
                return z3.BoolVal(k in self.ABC[nm])
            if self.is_str(v):
                return z3.BoolVal(nm in ("Iterable", "Collection", "Container", "Sequence", "Hashable", "Sized"))
            cs = self.user_class(v)
            if cs:
                d = self.ABC_DUNDER.get(nm)
                hits = []
                for i, c in enumerate(cs):
                    bn = c.all_base_names()
                    ok = nm in bn or (d and c.lookup(d) is not None) or (nm == "Hashable") \
                        or (nm == "Iterable" and bn & {"Mapping", "Collection", "Sequence", "dict", "list", "UserString", "NamedTuple", "OrderedDict"}) \
                        or (nm == "Collection" and all(c.lookup(x) for x in ("__iter__", "__len__", "__contains__"))) \
                        or (nm in ("Mapping", "Collection") and bn & {"dict", "UserDict", "Mapping"})
                    if ok:
                        hits.append(i)
                if len(hits) == len(cs):
                    return z3.BoolVal(True)
                if not hits:
                    return z3.BoolVal(False)
                return z3.Or(*[self.tag(v) == i for i in hits])
            if isinstance(v, (LamV, FuncV, BM, PyFn)) and nm == "Callable":
                return z3.BoolVal(True)
            return z3.BoolVal(False)
        if nm in ("UserString",):
            cs = self.user_class(v)
            return z3.BoolVal(bool(cs) and all("UserString" in c.all_base_names() for c in cs))
        if nm in ("bytes", "bytearray", "KeysView", "ValuesView", "ItemsView", "complex"):
            if self.kind(v) in ("keys", "values", "items"):
                raise Unsupported(f"isinstance {nm}")
            return z3.BoolVal(False)
        if nm in ("datetime", "date", "timedelta", "DataFrame", "Graph", "DiGraph", "ndarray", "generic", "Path", "Enum", "Series"):
            if nm == "Enum":
                return z3.BoolVal(isinstance(v, En) or (isinstance(v, S) and isinstance(v.ty, T.EnumT)))
            return z3.BoolVal(False)
        raise Unsupported(f"isinstance {nm}")

    # ---------------------------------------------------------------------------------------------------------------
    # loops
    def assigned(self, stmts):
        names = set()
        for st in stmts:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    names.add(n.id)
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    pass
                if isinstance(n, (ast.MatchAs,)) and n.name:
                    names.add(n.name)
        return names

    def s_While(self, s, f):
        inv = self.loop_contract(s, f)
        if inv is not None:
            return self.while_inv(s, f, inv)
        for _ in range(60):
            if not self.truthy(self.eval(s.test, f)):
                self.exec_block(s.orelse, f)
                return
            try:
                self.exec_block(s.body, f)
            except BreakEx:
                return
            except ContinueEx:
                pass
        raise Unsupported("while loop without invariant")

    def loop_contract(self, s, f):
        if f.fi is None:
            return None
        own = self.under_verification.loop_invs if self.under_verification is not None else {}
        invs = own.get(f.fi.full) or self.reg.loop_invs.get(f.fi.full)
        if not invs:
            return None
        loops = [n for n in ast.walk(f.fi.node) if isinstance(n, (ast.While, ast.For))]
        loops.sort(key=lambda n: (n.lineno, n.col_offset))
        return invs.get(loops.index(s))

    def while_inv(self, s, f, inv):
        """inv: (spec function over named locals, {local: Ty to havoc})"""
        fnode, havoc = inv
        self.check_inv(fnode, f, "loop invariant holds on entry")
        for name, ty in havoc.items():
            f.locals[name] = self.fresh_value(ty, name)
        for nm in self.assigned(s.body):
            if nm not in havoc:
                f.locals[nm] = Poison(f"loop-carried local {nm}")
        self.assume(self.spec_formula(fnode, self.inv_args(fnode, f)))
        if self.truthy(self.eval(s.test, f)):
            try:
                self.exec_block(s.body, f)
            except ContinueEx:
                pass
            except BreakEx:
                return
            self.check_inv(fnode, f, "loop invariant is preserved")
            raise Infeasible()
        self.exec_block(s.orelse, f)

    def inv_args(self, fi, f):
        return [self.load(a.arg, f) for a in fi.node.args.args]

    def check_inv(self, fi, f, what):
        self.oblige(f"{f.fi.full}: {what}", self.spec_formula(fi, self.inv_args(fi, f)))

    def s_For(self, s, f):
        inv = self.loop_contract(s, f)
        it = self.eval(s.iter, f)
        dom = self.iter_dom(it)
        if dom.items is not None:
            for x in dom.items:
                self.bind(s.target, x, f)
                try:
                    self.exec_block(s.body, f)
                except BreakEx:
                    return
                except ContinueEx:
                    continue
            self.exec_block(s.orelse, f)
            return
        if inv is not None:
            return self.for_inv(s, f, dom, inv)
        self.for_sym(s, f, dom)

    def for_inv(self, s, f, dom, inv):
        """inductive invariant over the number of processed elements (`k` in the invariant's parameters)"""
        fnode, havoc = inv
        if not dom.ordered:
            raise Unsupported("invariant over an unordered domain")

        def inv_at(k):
            args = [S(T.Int, k) if a.arg == "k" else self.load(a.arg, f) for a in fnode.node.args.args]
            return self.spec_formula(fnode, args)
        self.oblige(f"{f.fi.full}: loop invariant holds on entry", inv_at(z3.IntVal(0)))
        for name, ty in havoc.items():
            f.locals[name] = self.fresh_value(ty, name)
        for nm in self.assigned(s.body):
            if nm not in havoc:
                f.locals[nm] = Poison(f"loop-carried local {nm}")
        if self.choose():
            k = self.fresh("k", z3.IntSort())
            self.assume(dom.guard(k))
            self.assume(inv_at(k))
            self.bind(s.target, dom.elem(k), f)
            try:
                self.exec_block(s.body, f)
            except ContinueEx:
                pass
            except BreakEx:
                return
            self.oblige(f"{f.fi.full}: loop invariant is preserved", inv_at(k + 1))
            raise Infeasible()
        self.assume(dom.n >= 0)
        self.assume(inv_at(dom.n))
        self.exec_block(s.orelse, f)

    def accumulators(self, s, f):
        """`x = x.union(e)` / `x = x | e` / `x = x + [e]` in a loop are in-place updates of a local copy of x, provided
        every assignment of x in the loop has this form"""
        forms, count = {}, {}
        for n in ast.walk(ast.Module(body=s.body, type_ignores=[])):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                return s
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                count[n.id] = count.get(n.id, 0) + 1
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                x, v = n.targets[0].id, n.value
                isx = lambda e: isinstance(e, ast.Name) and e.id == x
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isx(v.func.value) and v.func.attr == "union" \
                        and len(v.args) == 1 and not v.keywords and not isinstance(v.args[0], ast.Starred):
                    forms.setdefault(x, []).append((n, "update", v.args[0], "set"))
                elif isinstance(v, ast.BinOp) and isx(v.left) and isinstance(v.op, ast.BitOr):
                    forms.setdefault(x, []).append((n, "update", v.right, "set"))
                elif isinstance(v, ast.BinOp) and isx(v.left) and isinstance(v.op, ast.Add):
                    forms.setdefault(x, []).append((n, "extend", v.right, "list"))
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                # in place: the same object is updated
                x, cur = n.target.id, f.locals.get(n.target.id)
                kind = self.kind(cur) if cur is not None and not isinstance(cur, Poison) else None
                if isinstance(n.op, ast.BitOr) and kind in ("set", "dict"):
                    forms.setdefault(x, []).append((n, "update", n.value, kind))
                elif isinstance(n.op, ast.Add) and kind == "list":
                    forms.setdefault(x, []).append((n, "extend", n.value, "list"))
        repl = {}
        for x, fs in forms.items():
            cur = f.locals.get(x)
            want = fs[0][3]
            if cur is None or isinstance(cur, Poison) or self.kind(cur) != want or count.get(x) != len(fs) or any(k[3] != want for k in fs):
                continue
            reads = sum(1 for n in ast.walk(ast.Module(body=s.body, type_ignores=[])) if isinstance(n, ast.Name) and n.id == x and isinstance(n.ctx, ast.Load))
            aug = [isinstance(k[0], ast.AugAssign) for k in fs]
            if reads != aug.count(False) or (any(aug) and not all(aug)):
                continue
            if not (all(aug) and isinstance(cur, Loc)):
                f.locals[x] = self.new_cell(want, self.payload(cur))
            for n, op, e, _ in fs:
                c = ast.Expr(ast.Call(ast.Attribute(ast.Name(x, ast.Load()), op, ast.Load()), [e], []))
                repl[id(n)] = ast.fix_missing_locations(ast.copy_location(c, n))
        if not repl:
            return s

        class Tr(ast.NodeTransformer):
            def visit_Assign(self, n):
                return repl.get(id(n), n)

            visit_AugAssign = visit_Assign

            def generic_visit(self, n):
                n2 = type(n)(**{k: ([self.visit(y) if isinstance(y, ast.AST) else y for y in v] if isinstance(v, list)
                                    else self.visit(v) if isinstance(v, ast.AST) else v) for k, v in ast.iter_fields(n)})
                return ast.copy_location(n2, n) if hasattr(n, "lineno") else n2
        out = ast.copy_location(ast.For(s.target, s.iter, [Tr().visit(b) for b in s.body], s.orelse, getattr(s, "type_comment", None)), s)
        self.reg.keep.append(out)
        return out

    def for_sym(self, s, f, dom):
        s = self.accumulators(s, f)
        names = self.assigned(s.body) | self.assigned_target(s.target)
        before = {}
        for nm in names:
            before[nm] = f.locals.get(nm)
        v = z3.Const(f"v!{self.bump()}", dom.sort)
        guard = dom.guard(v)
        entry_locals = dict(f.locals)
        tnames = self.assigned_target(s.target)

        def body():
            for nm in names:
                f.locals[nm] = Poison(f"local {nm} carried around a loop")
            self.bind(s.target, dom.elem(v), f)
            self.exec_loop_body(s.body, f)
            return {nm: f.locals.get(nm) for nm in names if nm not in tnames and not isinstance(f.locals.get(nm), Poison)}

        def body_wrapped():
            try:
                return body()
            except ContinueEx:
                return {nm: f.locals.get(nm) for nm in names if nm not in tnames and not isinstance(f.locals.get(nm), Poison)}
        res = self.nested([v], guard, body_wrapped, f)
        exits = [(pc, kd, val) for pc, kd, val, log in res if kd in ("return", "break", "raise")]
        normal = [(pc, val, log) for pc, kd, val, log in res if kd == "val"]
        for pc, kd, val, log in res:
            if kd != "val" and log:
                # effects of the exiting iteration happen when it is replayed below
                pass
        if exits:
            ex_pc = z3.Or(*[pc for pc, _, _ in exits])
            some = z3.Exists([v], z3.And(guard, ex_pc))
            if self.decide(some):
                k = self.fresh("k", dom.sort)
                self.assume(z3.substitute(z3.And(guard, ex_pc), (v, k)), "pc")
                if dom.ordered:
                    self.assume(z3.ForAll([v], z3.Implies(z3.And(guard, v < k), z3.Not(ex_pc))))
                    self.apply_effects(normal, v, z3.And(guard, v < k), dom)
                elif any(log for _, _, log in normal):
                    raise Unsupported("effects before an early exit over an unordered collection")
                for nm in names:
                    f.locals[nm] = Poison(f"local {nm} carried around a loop")
                self.bind(s.target, dom.elem(k), f)
                try:
                    self.exec_block(s.body, f)
                except ContinueEx:
                    raise Infeasible()
                except BreakEx:
                    for nm in names:
                        if isinstance(f.locals.get(nm), Poison) and before[nm] is not None:
                            # the iteration that exits did not assign it: earlier iterations may have
                            if not any(nm in val for _, val, _ in normal):
                                f.locals[nm] = before[nm]
                    return
                raise Infeasible()
        # no iteration exits
        self.apply_effects(normal, v, guard, dom)
        for nm in names:
            vals = [(pc, val[nm]) for pc, val, _ in normal if nm in val]
            if not vals:
                if nm in tnames or any(kd != "val" for _, kd, _, _ in res):
                    f.locals[nm] = before[nm] if nm not in tnames and before[nm] is not None else Poison(f"loop variable {nm} after the loop")
                elif before[nm] is not None:
                    f.locals[nm] = before[nm]
                else:
                    f.locals.pop(nm, None)
                continue
            consts = [x for _, x in vals]
            if all(isinstance(x, K) and x.v == consts[0].v and type(x.v) is type(consts[0].v) for x in consts):
                hit = z3.Exists([v], z3.And(guard, z3.Or(*[pc for pc, _ in vals])))
                if before[nm] is not None:
                    f.locals[nm] = consts[0] if self.decide(hit) else before[nm]
                else:
                    f.locals[nm] = Poison(f"local {nm} assigned in a loop")
            else:
                f.locals[nm] = Poison(f"local {nm} assigned in a loop")
        self.exec_block(s.orelse, f)

    def exec_loop_body(self, stmts, f):
        self.exec_block(stmts, f)

    def assigned_target(self, t):
        return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}

    def apply_effects(self, normal, v, guard, dom):
        per_cell = {}
        for pc, val, log in normal:
            for cid, op, args in log:
                per_cell.setdefault(cid, []).append((pc, op, args))
        counts = {}
        for pc, val, log in normal:
            seen = {}
            for cid, op, args in log:
                seen[cid] = seen.get(cid, 0) + 1
            for cid, n in seen.items():
                counts.setdefault(cid, []).append(n)
        for cid, ops in per_cell.items():
            loc = Loc(cid)
            kind = self.heap[cid].kind
            kinds = {o for _, o, _ in ops}
            npaths = len(normal)
            if kind == "list" and kinds <= {"append", "extend"}:
                single = max(counts[cid]) == 1
                cs = []
                for pc, op, args in ops:
                    g = z3.And(guard, pc)
                    if op == "append":
                        ordd = dom.ordered and single
                        if ordd and kinds == {"append"} and len(counts[cid]) == npaths:
                            ordd = ("map", dom.n) if guard.eq(dom.guard(v)) else True
                        cs.append(Contribution([v], g, args[0], ordd))
                    else:
                        p = self.payload(args[0])
                        if p.items is not None:
                            for x in p.items:
                                cs.append(Contribution([v], g, x, False))
                        else:
                            j = z3.Int(f"j!{self.bump()}")
                            cs.append(Contribution([v, j], z3.And(g, 0 <= j, j < p.n), self.lift_raw(p.ety, z3.Select(p.arr, j)), False))
                self.list_extend(loc, C("list", self.seq_of_contribs(cs)))
            elif kind == "set" and kinds <= {"add", "update"}:
                cs = []
                for pc, op, args in ops:
                    g = z3.And(guard, pc)
                    if op == "add":
                        cs.append(Contribution([v], g, args[0], False))
                    else:
                        p = self.to_setp(args[0])
                        if p.items is not None:
                            for x in p.items:
                                cs.append(Contribution([v], g, x, False))
                        else:
                            x = z3.Const(f"x!{self.bump()}", sort_of(p.ety))
                            cs.append(Contribution([v, x], z3.And(g, z3.Select(p.arr, x)), self.lift_raw(p.ety, x), False))
                self.set_update(loc, C("set", self.set_of_contribs(cs)))
            elif kind == "dict" and kinds <= {"set", "update"}:
                if max(counts[cid]) > 1:
                    raise Unsupported("several writes to a dict per iteration")
                cs = []
                for pc, op, args in ops:
                    g = z3.And(guard, pc)
                    if op == "set":
                        cs.append(Contribution([v], g, Tup([args[0], args[1]]), dom.ordered))
                    else:
                        p = self.payload(args[0])
                        if p.entries is not None:
                            for a, b in p.entries:
                                cs.append(Contribution([v], g, Tup([a, b]), False))
                        else:
                            x = z3.Const(f"x!{self.bump()}", sort_of(p.kty))
                            cs.append(Contribution([v, x], z3.And(g, z3.Select(p.dom, x)),
                                                   Tup([self.lift_raw(p.kty, x), self.lift_raw(p.vty, z3.Select(p.val, x))]), False))
                self.dict_update(loc, C("dict", self.map_of_contribs(cs)))
            else:
                raise Unsupported(f"loop effect {kinds} on {kind}")

    def lift_raw(self, ty, t):
        if isinstance(ty, (T.Seq, T.Set, T.Map, T.TupT)):
            return self.lift(ty, t)
        return S(ty, t)

    # -- container mutation -------------------------------------------------------------------------------------------
    def list_append(self, loc, v):
        if not isinstance(loc, Loc):
            raise Unsupported("append to a shared list")
        self.mutate(loc, "append", [v], lambda: self.seq_concat(self.heap[loc.id].p, SeqP([v])))

    def list_extend(self, loc, v):
        p2 = self.to_seqp(v)
        self.mutate(loc, "extend", [C("list", p2)], lambda: self.seq_concat(self.heap[loc.id].p, p2))

    def set_add(self, loc, v):
        v = self.hashable(v)
        self.mutate(loc, "add", [v], lambda: self.set_op("|", self.heap[loc.id].p, SetP([v])))

    def set_update(self, loc, v):
        p2 = self.to_setp(v)
        self.mutate(loc, "update", [C("set", p2)], lambda: self.set_op("|", self.heap[loc.id].p, p2))

    def dict_update(self, loc, v):
        p2 = self.payload(v)
        if isinstance(p2, SeqP):
            p2 = self.map_of_seq(p2)
        self.mutate(loc, "update", [C("dict", p2)], lambda: self.map_merge(self.heap[loc.id].p, p2))

    def map_of_seq(self, p):
        if p.items is not None:
            out = MapP([])
            for it in p.items:
                k, v = self.payload(it).items
                out = self.map_put(out, k, v)
            return out
        v = z3.Int(f"v!{self.bump()}")
        t = self.lift_raw(p.ety, z3.Select(p.arr, v))
        return self.map_of_contribs([Contribution([v], z3.And(0 <= v, v < p.n), t, True)])


def Z_is_store(a):
    return z3.is_app(a) and a.decl().kind() in (z3.Z3_OP_STORE, z3.Z3_OP_CONST_ARRAY)
