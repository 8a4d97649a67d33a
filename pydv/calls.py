"""Attribute access, calls, constructors, contracts at call sites and models of builtins."""
from __future__ import annotations
import ast
import math
import z3

from . import types as T
from . import sorts as Z
from .sorts import Unsupported, sort_of, FLT
from .source import REPO, FuncInfo, ClassInfo, Module
from .values import *
from .engine import Run, Frame, Ctx, Dom, Contribution, EXC_BASES, BUILTIN_NAMES, MAXDEPTH, _has_quant, _forall, _exists, _mentions
from .interp import Interp

EXC_NAMES = {n for n in BUILTIN_NAMES if n.endswith("Error") or n in ("Exception", "StopIteration")}
BUILTIN_TYPES = {"set", "frozenset", "list", "tuple", "dict", "str", "int", "float", "bool", "object", "type"}
SET_KINDS = ("set", "frozenset", "dict_keys")


class StarArg(SV):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Engine(Interp):

    # -- attributes ----------------------------------------------------------------------------------------------------
    def get_attr(self, v, name, node=None):
        v = self.resolve(v)
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        if isinstance(v, K):
            if v.v is None:
                raise PyRaise(ExcV("AttributeError"), f"None.{name}")
            if isinstance(v.v, str):
                return BM(v, name)
            if isinstance(v.v, (int, float)):
                return BM(v, name)
        if isinstance(v, ModV):
            r = v.m._resolve1(name)
            if r is None:
                raise Unsupported(f"{v.m.name}.{name}")
            return self.from_resolved(r, v.m)
        if isinstance(v, ExtV):
            full = f"{v.name}.{name}"
            if full == "math.nan":
                return K(float("nan"))
            if full == "math.inf":
                return K(float("inf"))
            return ExtV(full)
        if isinstance(v, ClassV):
            return self.class_attr(v, name)
        if isinstance(v, En):
            return self.enum_attr(v, name)
        if isinstance(v, TypeOf):
            if name in ("__name__", "__qualname__"):
                return self.opaque_str("tname", [v.sv]) if not self.kind(v.sv) == "obj" else K(self.heap[v.sv.id].p.ci.name)
            x = v.sv
            if self.kind(x) == "obj":
                return self.class_attr(ClassV(self.heap[x.id].p.ci), name)
            raise Unsupported(f"type(x).{name}")
        if isinstance(v, SuperV):
            return self.super_attr(v, name)
        if isinstance(v, (FuncV, LamV)):
            if name == "__name__":
                return K(v.fi.name if isinstance(v, FuncV) else "<lambda>")
            raise Unsupported(f"function attribute {name}")
        if isinstance(v, ExcV):
            return K("") if name == "message" else self.raise_unsup(f"exception attribute {name}")
        if isinstance(v, S):
            if v.ty == T.Str or v.ty in (T.Int, T.Flt, T.Bool):
                return BM(v, name)
            if isinstance(v.ty, T.EnumT):
                return self.enum_s_attr(v, name)
            if isinstance(v.ty, T.Ref):
                return self.ref_attr(v, name)
            if v.ty == T.Any:
                return S(T.Any, z3.Function(f"any_attr_{name}", Z.ANY, Z.ANY)(v.t))
            raise Unsupported(f"attribute {name} of {v.ty}")
        k = self.kind(v)
        if k == "obj":
            return self.obj_attr(v, name)
        if k:
            return BM(v, name)
        raise Unsupported(f"attribute {name} of {v}")

    def raise_unsup(self, msg):
        raise Unsupported(msg)

    def class_attr(self, cv, name):
        ci = cv.ci
        if name in ("__name__", "__qualname__"):
            return K(ci.name)
        if ci.is_enum():
            for m, val in ci.enum_members():
                if m == name:
                    return En(ci, m, val)
        lk = ci.lookup(name)
        if lk is None:
            if name in ("__init__", "__hash__", "__eq__", "__new__", "__setattr__"):
                return ExtV(f"object.{name}")
            raise PyRaise(ExcV("AttributeError"), f"{ci.name}.{name}")
        k, o = lk
        if k == "method":
            if o.is_class:
                return FuncV(o, cv, bound=True)
            return FuncV(o)
        c, node = o
        return self.eval(node, self.class_frame(c))

    def class_frame(self, c):
        fr = Frame(c.module)
        for n, node in c.consts.items():
            fr.locals.setdefault
        return fr

    def enum_attr(self, v, name):
        if name == "value":
            return K(v.val) if not isinstance(v.val, tuple) else K(v.m)
        if name == "name":
            return K(v.m)
        lk = v.ci.lookup(name)
        if lk and lk[0] == "method":
            if lk[1].is_property:
                return self.call_func(lk[1], [v], {})
            return FuncV(lk[1], v, bound=True)
        if "StrEnum" in v.ci.all_base_names():
            return BM(K(v.val), name)
        raise PyRaise(ExcV("AttributeError"), name)

    def enum_s_attr(self, v, name):
        ms = Z.enum_members(v.ty)
        if name in ("value", "name"):
            vals = [(m[1] if name == "name" or isinstance(m[2], tuple) else m[2]) for m in ms]
            ks = [K(x) for x in vals]
            ty = self.join_tys([self.ty_of(x) for x in ks])
            out = self.coerce(ks[-1], ty)
            for i in range(len(ks) - 2, -1, -1):
                out = z3.If(v.t == i, self.coerce(ks[i], ty), out)
            return S(ty, out)
        groups = {}
        for i, (cq, m, val) in enumerate(ms):
            groups.setdefault(cq, []).append(i)
        for cq, idx in groups.items():
            if len(groups) == 1 or self.decide(z3.Or(*[v.t == i for i in idx])):
                lk = REPO.class_(cq).lookup(name)
                if lk and lk[0] == "method":
                    if lk[1].is_property:
                        return self.call_func(lk[1], [v], {})
                    return FuncV(lk[1], v, bound=True)
                if "StrEnum" in REPO.class_(cq).all_base_names():
                    return BM(self.enum_s_attr(v, "value"), name)
                raise PyRaise(ExcV("AttributeError"), name)
        raise Infeasible()

    def class_has_attr(self, ci, name):
        key = (ci.qual, name)
        c = self.reg.attr_cache.get(key)
        if c is None:
            c = False
            for k in ci.mro():
                if any(a == name for a, _ in k.annotated):
                    c = True
                for n in ast.walk(k.node):
                    if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store):
                        c = True
            known = {"object", "ABC", "abc.ABC", "Generic", "Protocol", "typing.Generic", "typing.Protocol"}
            for k in ci.mro():
                for b in k.bases:
                    if k.module.resolve(b) is None or k.module.resolve(b)[0] == "ext":
                        if b.split(".")[-1] not in ("object", "ABC", "Generic", "Protocol", "Enum", "Exception"):
                            c = True
            self.reg.attr_cache[key] = c
        return c

    def ref_attr(self, v, name):
        ty = v.ty
        cis = self.ref_classes(ty)
        if name in ty.fields:
            if len(cis) > 1:
                has = [i for i, c in enumerate(cis) if self.class_has_attr(c, name)]
                if len(has) < len(cis) and not self.spec_depth:
                    tg = self.tag(v)
                    if not self.decide(z3.Or(*[tg == i for i in has])):
                        raise PyRaise(ExcV("AttributeError"), name)
            return self.field(v, name, ty.fields[name])
        if ty.attrs:
            own = [(i, ty.attrs[f"{c.name}.{name}"]) for i, c in enumerate(cis) if f"{c.name}.{name}" in ty.attrs]
            for i, a in own:   # observers of a single class
                if (len(own) == len(cis) and i == own[-1][0]) or self.decide(self.tag(v) == i):
                    self.reg.trusted_used.add(f"{ty.name}.{cis[i].name}.{name}")
                    return self.field(v, f"{cis[i].name}_{name}", a)
            if name in ty.attrs:
                self.reg.trusted_used.add(f"{ty.name}.{name}")
                a = ty.attrs[name]
                if isinstance(a, T.Func):
                    def fn(args, kwargs, a=a):
                        ts = [v.t] + [self.coerce(x, t) for x, t in zip(args, a.args)]
                        f = z3.Function(f"{Z.clean(ty.name)}_call_{name}", *[t.sort() for t in ts], sort_of(a.ret))
                        return self.lift(a.ret, f(*ts))
                    return PyFn(fn, name)
                return self.field(v, name, a)
            if name + "()" in ty.attrs:
                self.reg.trusted_used.add(f"{ty.name}.{name}()")
                a = ty.attrs[name + "()"]
                return PyFn(lambda args, kwargs: self.field(v, name + "_m", a), name)
        if name == "__class__":
            return TypeOf(v)
        if name == "_asdict":
            raise Unsupported("_asdict")
        fc = self.reg.family_contract(ty, name) if len(cis) > 1 else None
        if fc is not None and not (self.opts.get("no_contract") == name):
            fi = fc
            if fi.is_property:
                return self.call_func(fi, [v], {})
            return FuncV(fi, v, bound=True)
        groups = {}
        for i, c in enumerate(cis):
            lk = c.lookup(name)
            key = None if lk is None else (lk[1].full if lk[0] == "method" else lk[1][0].qual + "." + name)
            groups.setdefault(key, (lk, []))[1].append(i)
        items = list(groups.items())
        for j, (key, (lk, idx)) in enumerate(items):
            if len(items) > 1:
                if j < len(items) - 1:
                    if not self.decide(z3.Or(*[self.tag(v) == i for i in idx])):
                        continue
            if lk is None:
                if self.spec_depth:
                    raise Unsupported(f"spec: no attribute {name} on {ty.name}")
                if any(self.class_has_attr(cis[i], name) for i in idx):
                    raise Unsupported(f"undeclared field {ty.name}.{name}")
                raise PyRaise(ExcV("AttributeError"), f"{ty.name}.{name}")
            if lk[0] == "const":
                return self.eval(lk[1][1], Frame(lk[1][0].module))
            fi = lk[1]
            if fi.is_static:
                return FuncV(fi)
            if fi.is_class:
                return FuncV(fi, ClassV(cis[idx[0]]), bound=True)
            if fi.is_property:
                return self.call_func(fi, [v], {})
            return FuncV(fi, v, bound=True)
        raise Infeasible()

    def obj_attr(self, v, name):
        p = self.cell(v).p
        if name in p.fields:
            x = p.fields[name]
            if isinstance(x, Poison):
                raise Unsupported(x.why)
            return x
        if name == "__class__":
            return TypeOf(v)
        if name == "__dict__":
            return self.new_cell("dict", MapP([(K(a), b) for a, b in p.fields.items()]))
        lk = p.ci.lookup(name)
        if lk is None:
            if isinstance(p.ty, T.Obj) and self.class_has_attr(p.ci, name):
                raise Unsupported(f"undeclared field {p.ci.name}.{name}")
            if any(b.split(".")[-1] in ("UserString", "UserDict", "dict", "list") for c in p.ci.mro() for b in c.bases):
                raise Unsupported(f"inherited attribute {name}")
            if name == "_replace" and "NamedTuple" in p.ci.all_base_names():
                def rep(args, kwargs):
                    return self.new_cell("obj", ObjP(p.ci, {**p.fields, **kwargs}))
                return PyFn(rep, "_replace")
            raise PyRaise(ExcV("AttributeError"), f"{p.ci.name}.{name}")
        if lk[0] == "const":
            return self.eval(lk[1][1], Frame(lk[1][0].module))
        fi = lk[1]
        if fi.is_static:
            return FuncV(fi)
        if fi.is_class:
            return FuncV(fi, ClassV(p.ci), bound=True)
        if fi.is_property:
            return self.call_func(fi, [v], {})
        return FuncV(fi, v, bound=True)

    def super_attr(self, sv, name):
        r = sv.recv
        if isinstance(r, ClassV):
            start = r.ci
        elif self.kind(r) == "obj":
            start = self.heap[r.id].p.ci
        elif isinstance(r, S) and isinstance(r.ty, T.Ref):
            start = sv.ci
        else:
            start = sv.ci
        mro = start.mro()
        if sv.ci in mro:
            mro = mro[mro.index(sv.ci) + 1:]
        for c in mro:
            if name in c.methods:
                fi = c.methods[name]
                if fi.is_property:
                    return self.call_func(fi, [r], {})
                if fi.is_static:
                    return FuncV(fi)
                return FuncV(fi, r, bound=True)
            if name in c.consts and isinstance(c.consts[name], ast.Name):
                return FuncV(c.methods[c.consts[name].id], r, bound=True)
        if name == "__init__":
            return PyFn(lambda a, k: K(None), "object.__init__")
        if name == "__new__":
            return PyFn(lambda a, k: self.new_cell("obj", ObjP(a[0].ci, {})), "object.__new__")
        raise Unsupported(f"super().{name}")

    def call_method(self, v, name, args, kwargs=None):
        return self.call(self.get_attr(v, name), args, kwargs or {})

    # -- calls ----------------------------------------------------------------------------------------------------------
    def e_Call(self, n, f):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            fr = f
            while fr is not None and (fr.fi is None or fr.fi.cls is None):
                fr = fr.parent
            if fr is None:
                raise Unsupported("super() outside a method")
            a0 = fr.fi.node.args.args[0].arg
            return SuperV(fr.fi.cls, fr.locals[a0])
        fv = self.eval(n.func, f)
        if isinstance(fv, ExtV) and fv.name.startswith("spec."):
            return self.spec_call(fv.name[5:], n, f)
        if isinstance(fv, ExtV) and (any(fv.name.startswith(p) for p in ("warnings.", "logging."))):
            return K(None)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, f)
                if isinstance(v, ClassV) or not (isinstance(v, GenDom) and any(c.binders for c in v.contribs)):
                    p = self.to_seqp(v) if not self._is_symset(v) else None
                else:
                    p = None
                if p is None or p.items is None:
                    args.append(StarArg(v))
                else:
                    args.extend(p.items)
            else:
                args.append(self.eval(a, f))
        for k in n.keywords:
            v = self.eval(k.value, f)
            if k.arg is None:
                v = self.resolve(v)
                p = self.payload(v)
                if not isinstance(p, MapP):
                    raise Unsupported("** of a non-dict")
                if p.entries is not None and all(isinstance(a, K) for a, _ in p.entries):
                    for a, b in p.entries:
                        kwargs[a.v] = b
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        return self.call(fv, args, kwargs, n)

    def _is_symset(self, v):
        if isinstance(v, (C, Loc)) and self.kind(v) != "obj":
            p = self.payload(v)
            return (isinstance(p, SetP) and p.items is None) or (isinstance(p, MapP) and p.entries is None)
        return False

    def call(self, fv, args, kwargs, node=None):
        if isinstance(fv, S) and isinstance(fv.ty, T.Opt):
            fv = self.resolve_opt(fv)
        if isinstance(fv, K) and fv.v is None:
            raise PyRaise(ExcV("TypeError"), "None is not callable")
        if isinstance(fv, FuncV):
            a = ([fv.recv] + list(args)) if fv.bound else list(args)
            return self.call_func(fv.fi, a, kwargs, fv.closure)
        if isinstance(fv, ClassV):
            return self.construct(fv.ci, args, kwargs)
        if isinstance(fv, LamV):
            fr = Frame(fv.frame.module, fv.frame.fi, fv.frame, fv.frame.cls)
            fr.locals.update(self.bind_args(fv.node.args, args, kwargs, fv.frame, "<lambda>"))
            return self.eval(fv.node.body, fr)
        if isinstance(fv, PyFn):
            return fv.fn(args, kwargs)
        if isinstance(fv, BM):
            return self.bm_call(fv, args, kwargs)
        if isinstance(fv, ExtV):
            return self.ext_call(fv.name, args, kwargs, node)
        if isinstance(fv, SpecV):
            return self.call_spec(fv.fn, args)
        if isinstance(fv, TypeOf):
            x = fv.sv
            if self.kind(x) == "obj":
                return self.construct(self.heap[x.id].p.ci, args, kwargs)
            if isinstance(x, S) and isinstance(x.ty, T.Ref):
                cis = self.ref_classes(x.ty)
                for i, c in enumerate(cis):
                    if i == len(cis) - 1 or self.decide(self.tag(x) == i):
                        return self.construct(c, args, kwargs)
        if isinstance(fv, S) and isinstance(fv.ty, T.Func):
            ts = [fv.t] + [self.coerce(x, t) for x, t in zip(args, fv.ty.args)]
            fn = z3.Function("apply_" + Z.clean(fv.ty.name), *[t.sort() for t in ts], sort_of(fv.ty.ret))
            return self.lift(fv.ty.ret, fn(*ts))
        if isinstance(fv, S) and fv.ty == T.Any:
            return S(T.Any, self.fresh("anycall", Z.ANY))
        if self.user_class(fv):
            return self.call_method(fv, "__call__", args, kwargs)
        raise Unsupported(f"call of {fv}")

    def bind_args(self, a, args, kwargs, defframe, name):
        out = {}
        kwargs = dict(kwargs)
        star_kw = kwargs.pop("**", None)
        pos = [x.arg for x in a.posonlyargs + a.args]
        defaults = a.defaults
        args = list(args)
        i = 0
        for i_, nm in enumerate(pos):
            if args:
                v = args[0]
                if isinstance(v, StarArg):
                    break
                args.pop(0)
                out[nm] = v
        if args:
            if a.vararg:
                if any(isinstance(x, StarArg) for x in args):
                    p = SeqP([])
                    for x in args:
                        p = self.seq_concat(p, self.to_seqp(x.v) if isinstance(x, StarArg) else SeqP([x]))
                    out[a.vararg.arg] = C("tuple", p)
                else:
                    out[a.vararg.arg] = Tup(args)
            elif any(isinstance(x, StarArg) for x in args):
                raise Unsupported("symbolic *args")
            else:
                raise PyRaise(ExcV("TypeError"), f"{name}: too many positional arguments")
        elif a.vararg:
            out[a.vararg.arg] = Tup([])
        kwonly = [x.arg for x in a.kwonlyargs]
        posonly = [x.arg for x in a.posonlyargs]
        extra = []
        for k, v in kwargs.items():
            if k in kwonly or (k in pos and k not in posonly):
                if k in out:
                    raise PyRaise(ExcV("TypeError"), f"{name}: multiple values for {k}")
                out[k] = v
            elif a.kwarg:
                extra.append((K(k), v))
            else:
                raise PyRaise(ExcV("TypeError"), f"{name}: unexpected keyword {k}")
        if a.kwarg:
            if star_kw is not None:
                if extra:
                    raise Unsupported("mixed ** arguments")
                out[a.kwarg.arg] = self.new_cell("dict", self.payload(star_kw))
            else:
                out[a.kwarg.arg] = self.new_cell("dict", MapP(extra))
        elif star_kw is not None:
            raise Unsupported("symbolic **kwargs")
        nd = len(defaults)
        for j, nm in enumerate(pos):
            if nm not in out:
                dj = j - (len(pos) - nd)
                if dj < 0:
                    raise PyRaise(ExcV("TypeError"), f"{name}: missing argument {nm}")
                out[nm] = self.eval(defaults[dj], defframe)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in out:
                if d is None:
                    raise PyRaise(ExcV("TypeError"), f"{name}: missing argument {x.arg}")
                out[x.arg] = self.eval(d, defframe)
        return out

    def call_func(self, fi, args, kwargs, closure=None):
        if (fi.module.name, fi.name) in self.reg.specfns and fi.cls is None:
            return self.call_spec(fi, args)
        deff = closure or Frame(fi.module)
        bound = self.bind_args(fi.node.args, args, kwargs, deff, fi.qual)
        if closure is None:
            con = self.find_contract(fi, bound, len(args), kwargs)
            if con is not None:
                return self.apply_contract(con, fi, bound)
        return self.inline(fi, bound, closure)

    def inline(self, fi, bound, closure=None):
        if self.depth > MAXDEPTH:
            raise Unsupported(f"inlining depth at {fi.full}")
        if self.callstack.count(fi.full) >= self.opts.get("max_rec", 3) and not fi.module.name.startswith("contracts"):
            raise Unsupported(f"recursive function {fi.full} without contract")
        self.depth += 1
        self.callstack.append(fi.full)
        if fi.module.name.startswith("postbound"):
            self.inlined.add(fi.full)
        fr = Frame(fi.module, fi, closure, fi.cls)
        fr.locals.update(bound)
        saved_spec = self.spec_depth
        if fi.module.name.startswith("postbound") and not self.opts.get("spec_code_terms"):
            self.spec_depth = 0     # real code keeps its own semantics even when called from a contract
        try:
            if fi.is_generator:
                fr.yields = self.new_cell("list", SeqP([]))
                try:
                    self.exec_block(fi.node.body, fr)
                except ReturnEx:
                    pass
                return C("generator", self.heap[fr.yields.id].p)
            try:
                self.exec_block(fi.node.body, fr)
            except ReturnEx as r:
                return r.v
            return K(None)
        finally:
            self.spec_depth = saved_spec
            self.depth -= 1
            self.callstack.pop()

    # -- construction ---------------------------------------------------------------------------------------------------
    def construct(self, ci, args, kwargs):
        if ci.is_enum():
            return self.enum_of(ci, args[0])
        names = ci.all_base_names()
        if names & {"Exception", "RuntimeError", "ValueError", "AssertionError", "Warning", "KeyError"}:
            return ExcV(ci.name, [ci])
        init = ci.lookup("__init__")
        new = ci.lookup("__new__")
        if new:
            loc = self.call_func(new[1], [ClassV(ci)] + list(args), kwargs)
            if self.kind(loc) != "obj":
                raise Unsupported(f"__new__ of {ci.name} returns another kind of object")
            if self.heap[loc.id].p.ci.issubclass(ci):
                self.call(self.get_attr(loc, "__init__"), args, kwargs)
            return loc
        if any(c.methods.get("__init__") is not None and c.methods["__init__"].is_abstract for c in ci.mro()[:1]):
            raise PyRaise(ExcV("TypeError"), "abstract")
        if init is not None:
            r = self.constructor_contract(init[1], args, kwargs)
            if r is not None:
                return r
        loc = self.new_cell("obj", ObjP(ci, {}))
        # the nearest class in the MRO that defines construction decides
        for c in ci.mro():
            if "__init__" in c.methods:
                self.call_func(c.methods["__init__"], [loc] + list(args), kwargs)
                return loc
            if c.is_dataclass or any(b.split(".")[-1] == "NamedTuple" for b in c.bases):
                self.dataclass_init(loc, ci, args, kwargs)
                return loc
        ext = names & {"UserString", "UserDict", "dict", "list", "set", "str", "int", "float", "tuple", "defaultdict"}
        if ext:
            raise Unsupported(f"construction of {ci.name} (inherits {ext})")
        if args or kwargs:
            raise PyRaise(ExcV("TypeError"), f"{ci.name}() takes no arguments")
        return loc

    def constructor_contract(self, fi, args, kwargs):
        """contracts with `constructs` describe the constructed (opaque) object as their result"""
        cs = [c for c in self.reg.contracts.get(fi.full, []) if getattr(c.cls, "constructs", False)]
        if not cs:
            return None
        bound = self.bind_args(fi.node.args, [K(None)] + list(args), kwargs, Frame(fi.module), fi.full)
        bound.pop(fi.node.args.args[0].arg)
        for c in cs:
            if all(p in bound and self.matches_ty(bound[p], ty, fi, p) for p, ty in c.cls.params.items()) and self.pre_holds(c, bound):
                return self.apply_contract(c, fi, bound)
        return None

    def dataclass_init(self, loc, ci, args, kwargs):
        fields = []
        for c in reversed(ci.mro()):
            if c.is_dataclass or any(b.split(".")[-1] == "NamedTuple" for b in c.bases):
                for nm, d in c.annotated:
                    if any(nm == x for x, _, _ in fields):
                        fields = [(x, (d if x == nm else y), m) for x, y, m in fields]
                    else:
                        fields.append((nm, d, c.module))
        vals = {}
        args = list(args)
        kwargs = dict(kwargs)
        for nm, d, mod in fields:
            if args:
                vals[nm] = args.pop(0)
            elif nm in kwargs:
                vals[nm] = kwargs.pop(nm)
            elif d is not None:
                if isinstance(d, ast.Call) and ast.unparse(d.func).split(".")[-1] == "field":
                    kw = {k.arg: k.value for k in d.keywords}
                    if "default_factory" in kw:
                        vals[nm] = self.call(self.eval(kw["default_factory"], Frame(mod)), [], {})
                    elif "default" in kw:
                        vals[nm] = self.eval(kw["default"], Frame(mod))
                    else:
                        raise PyRaise(ExcV("TypeError"), f"missing {nm}")
                else:
                    vals[nm] = self.eval(d, Frame(mod))
            else:
                raise PyRaise(ExcV("TypeError"), f"missing {nm}")
        if args or kwargs:
            raise PyRaise(ExcV("TypeError"), "too many arguments")
        self.heap[loc.id] = Cell("obj", ObjP(ci, vals))
        if ci.lookup("__post_init__"):
            self.call_method(loc, "__post_init__", [])

    def enum_of(self, ci, v):
        v = self.resolve(v)
        if isinstance(v, En) and v.ci is ci:
            return v
        for m, val in ci.enum_members():
            vv = K(val) if not isinstance(val, tuple) else None
            if vv is not None and self.decide(self.eq_term(v, vv)):
                return En(ci, m, val)
        raise PyRaise(ExcV("ValueError"), f"no member of {ci.name}")

    # -- fresh values ---------------------------------------------------------------------------------------------------
    def fresh_value(self, ty, name, mutable=True):
        """arbitrary value of a declared type; mutable containers get their own heap cell"""
        if isinstance(ty, T.Const):
            return self.const_value(ty.value)
        if isinstance(ty, T.EnumMember):
            ci = REPO.class_(ty.cls)
            for m, v in ci.enum_members():
                if m == ty.member:
                    return En(ci, m, v)
            raise Unsupported(f"{ty}")
        if isinstance(ty, T.ClassArg):
            return ClassV(REPO.class_(ty.qual))
        if isinstance(ty, T.Obj):
            ci = REPO.class_(ty.cls)
            fields = {fn: self.fresh_value(ft, f"{name}_{fn}") for fn, ft in ty.fields.items()}
            for fn, cv in ty.consts.items():
                fields[fn] = self.const_value(cv)
            loc = self.new_cell("obj", ObjP(ci, fields, ty))
            return loc
        if isinstance(ty, T.KwDict):
            return self.new_cell("dict", MapP([(K(k), self.fresh_value(t, f"{name}_{k}")) for k, t in ty.items.items()]))
        if ty == T.NoneT:
            return K(None)
        if isinstance(ty, T.Seq) and ty.kind == "list" and mutable:
            v = self.lift(ty, self.fresh(name, sort_of(ty)))
            return self.new_cell("list", v.p)
        if isinstance(ty, T.Set) and ty.kind == "set" and mutable:
            return self.new_cell("set", SetP(None, ty.t, self.fresh(name, sort_of(ty))))
        if isinstance(ty, T.Map) and mutable:
            v = self.lift(ty, self.fresh(name, sort_of(ty)))
            return self.new_cell("dict", v.p)
        if isinstance(ty, T.TupT):
            return Tup([self.fresh_value(t, f"{name}_{i}", mutable) for i, t in enumerate(ty.ts)])
        return self.lift(ty, self.fresh(name, sort_of(ty)))

    def const_value(self, v):
        if isinstance(v, (tuple,)):
            return Tup([self.const_value(x) for x in v])
        if isinstance(v, list):
            return self.new_cell("list", SeqP([self.const_value(x) for x in v]))
        if isinstance(v, dict):
            return self.new_cell("dict", MapP([(self.const_value(a), self.const_value(b)) for a, b in v.items()]))
        if isinstance(v, (set, frozenset)):
            return self.new_cell("set", SetP([self.const_value(x) for x in v]))
        return K(v)

    def clone(self, v, memo=None):
        """deep copy of the mutable part of a value (for old_ snapshots)"""
        memo = {} if memo is None else memo
        if isinstance(v, Loc):
            if v.id in memo:
                return memo[v.id]
            c = self.heap[v.id]
            if c.kind == "obj":
                n = self.new_cell("obj", None)
                memo[v.id] = n
                self.heap[n.id] = Cell("obj", ObjP(c.p.ci, {k: self.clone(x, memo) for k, x in c.p.fields.items()}, c.p.ty))
                return n
            p = c.p
            if isinstance(p, SeqP) and p.items is not None:
                p = SeqP([self.clone(x, memo) for x in p.items])
            elif isinstance(p, SetP) and p.items is not None:
                p = SetP([self.clone(x, memo) for x in p.items])
            elif isinstance(p, MapP) and p.entries is not None:
                p = MapP([(self.clone(a, memo), self.clone(b, memo)) for a, b in p.entries], default=p.default)
            n = self.new_cell(c.kind, p)
            memo[v.id] = n
            return n
        if isinstance(v, Tup):
            return Tup([self.clone(x, memo) for x in v.items])
        return v

    # -- contracts --------------------------------------------------------------------------------------------------------
    def find_contract(self, fi, bound, nargs, kwargs):
        cs = self.reg.contracts.get(fi.full)
        if not cs:
            return None
        for c in cs:
            if not c.cls.use_at_calls or c.cls.bounded or c.cls.returns is None or getattr(c.cls, 'constructs', False):
                continue
            if self.spec_depth and not getattr(c.cls, "use_in_spec", True):
                continue
            if all(p in bound and self.matches_ty(bound[p], ty, fi, p) for p, ty in c.cls.params.items()):
                if all(p in c.cls.params or self.is_empty_star(fi, p, bound[p]) for p in bound) and self.pre_holds(c, bound):
                    return c
        return None

    def is_empty_star(self, fi, p, v):
        a = fi.node.args
        if not ((a.vararg and a.vararg.arg == p) or (a.kwarg and a.kwarg.arg == p)):
            return False
        p = self.payload(v)
        return (p.entries == [] if isinstance(p, MapP) else p.items == [])

    def pre_holds(self, con, bound):
        """a contract serves a call only where its precondition is known to hold; otherwise the body is executed"""
        for rq in con.requires:
            with self.scope():
                g = z3.simplify(self.spec_eval(rq, {p: bound[p] for p in con.cls.params}))
                if z3.is_true(g):
                    continue
                s = z3.SimpleSolver()
                s.set("smt.mbqi", False)
                s.set("rlimit", 600000)
                s.add([f for f, _ in self.facts] + self.axiom_facts() + Z.lit_facts())
                s.add(z3.Not(g))
                if s.check() != z3.unsat:
                    return False
        return True

    def matches_ty(self, v, ty, fi, p):
        if isinstance(v, S) and isinstance(v.ty, T.Opt) and not isinstance(ty, T.Opt):
            v = self.resolve(v)
        if isinstance(ty, T.Missing):
            d = self.default_of(fi, p)
            return d is not None and repr(d) == repr(v)
        if isinstance(ty, T.Const):
            return isinstance(v, K) and v.v == ty.value and type(v.v) is type(ty.value)
        if isinstance(ty, T.EnumMember):
            return isinstance(v, En) and v.ci.qual == ty.cls and v.m == ty.member
        if isinstance(ty, T.Obj):
            return self.kind(v) == "obj" and self.heap[v.id].p.ci.qual == ty.cls
        if isinstance(ty, T.ClassArg):
            return isinstance(v, ClassV) and v.ci.qual == ty.qual
        if isinstance(ty, T.Func):
            return (isinstance(v, S) and v.ty == ty) or isinstance(v, (FuncV, LamV))
        if isinstance(ty, T.Opt):
            if isinstance(v, K) and v.v is None:
                return True
            if isinstance(v, S) and v.ty == ty:
                return True
            return self.matches_ty(v, ty.t, fi, p)
        if isinstance(ty, T.Seq):
            return self.kind(v) in ("list", "tuple", "generator") and isinstance(self.payload(v), SeqP) and self._elems_fit(self.payload(v), ty.t)
        if isinstance(ty, T.Set):
            return self.kind(v) in SET_KINDS and self._elems_fit(self.payload(v), ty.t)
        if isinstance(ty, T.Map):
            return self.kind(v) == "dict"
        if isinstance(ty, T.Ref):
            if self.kind(v) == "obj":
                return self.heap[v.id].p.ci.qual in ty.classes
            return isinstance(v, S) and v.ty == ty
        try:
            t = self.ty_of(v)
        except Unsupported:
            return False
        return t == ty or self._fits_ty(t, ty)

    def _elems_fit(self, p, ety):
        if isinstance(p, MapP):
            return False
        if p.items is None:
            return p.ety == ety or self._fits_ty(p.ety, ety) or (isinstance(p, SeqP) and isinstance(ety, T.Opt) and p.ety == ety.t)
        return all(self.matches_ty(x, ety, None, None) for x in p.items)

    def default_of(self, fi, p):
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if p in pos:
            j = pos.index(p) - (len(pos) - len(a.defaults))
            return self.eval(a.defaults[j], Frame(fi.module)) if j >= 0 else None
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg == p:
                return self.eval(d, Frame(fi.module)) if d is not None else None
        if a.vararg and a.vararg.arg == p:
            return Tup([])
        return None

    def spec_eval(self, fi, env):
        """evaluate a contract method with arguments by name"""
        args = []
        for a in fi.node.args.args:
            if a.arg not in env:
                raise Unsupported(f"contract {fi.qual}: no value for {a.arg}")
            args.append(env[a.arg])
        return self.spec_formula(fi, args)

    def spec_formula(self, fi, args):
        """truth of a specification function, without forking the current path"""
        fr = Frame(fi.module, fi, None, fi.cls, spec=True)
        names = [a.arg for a in fi.node.args.args]
        body = self.spec_body(fi)

        def run():
            fr.locals = dict(zip(names, args))
            try:
                self.exec_block(body, fr)
            except ReturnEx as r:
                return self.truth_term(r.v)
            return z3.BoolVal(True)
        self.spec_depth += 1
        try:
            res = self.nested([], z3.BoolVal(True), run, fr)
        finally:
            self.spec_depth -= 1
        return self._combine(res, [])

    def spec_body(self, fi):
        b = fi.node.body
        if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
            b = b[1:]
        return b

    def eval_specfn_body(self, fi, args):
        return self.b(self.spec_formula(fi, args))

    def apply_contract(self, con, fi, bound):
        cls = con.cls
        self.used_contracts.add(con.name)
        env = {p: bound[p] for p in cls.params}
        name = fi.full
        for rq in con.requires:
            g = self.spec_eval(rq, env)
            if not self.spec_depth:
                self.oblige(f"precondition {rq.name} of {con.name} at call in {self.callstack[-1] if self.callstack else '?'}", g)
            self.assume(g)
        old = {}
        memo = {}
        mods = set(cls.modifies or ())
        if mods:
            for p, v in env.items():
                old["old_" + p] = self.clone(v, memo)
        else:
            for p, v in env.items():
                old["old_" + p] = v
        prenv = {**env, **old}
        for exc, cond in con.raises.items():
            t = self.spec_eval(cond, prenv)
            if self.decide(t):
                raise PyRaise(self.exc_by_name(exc), name)
        for exc in cls.may_raise:
            if self.choose():
                raise PyRaise(self.exc_by_name(exc), name)
        # havoc
        for m in mods:
            p, _, fld = m.partition(".")
            loc = env[p]
            if not fld:
                c = self.heap[loc.id]
                if c.kind == "obj":
                    raise Unsupported("modifies whole object")
                ty = cls.params[p]
                fv = self.fresh_value(ty, m)
                newp = self.heap[fv.id].p
                self.mutate(loc, "replace", [], lambda: newp)
            else:
                oty = cls.params[p]
                fv = self.fresh_value(oty.fields[fld], m)
                self.set_attr(loc, fld, fv)
        # result
        ret = cls.returns
        if ret is None:
            result = K(None)
        elif isinstance(ret, str):
            result = env[ret]
        else:
            result = None
            if not mods and not isinstance(ret, T.Obj):
                try:
                    ts = []
                    for p, ty in cls.params.items():
                        if isinstance(ty, (T.Missing, T.Const, T.EnumMember, T.ClassArg)):
                            continue
                        if isinstance(ty, T.Obj):
                            raise Unsupported("obj")
                        ts.append(self.coerce(env[p], ty))
                    fn = z3.Function("res_" + Z.clean(con.name), *[t.sort() for t in ts], sort_of(ret))
                    result = self.lift(ret, fn(*ts))
                    if isinstance(ret, (T.Seq, T.Set, T.Map)) and getattr(ret, "kind", "dict") in ("list", "set", "dict"):
                        result = self.new_cell(result.kind, result.p)
                except Unsupported:
                    result = None
            if result is None:
                result = self.fresh_value(ret, "res")
        env2 = {**env, **old, "result": result}
        for en in con.ensures:
            with self.in_assumption():
                t = self.spec_eval(en, env2)
            self.assume(t)
        return result

    def exc_by_name(self, exc):
        for m in ("postbound.util._errors", "postbound._core", "postbound.qal._qal"):
            mod = REPO.module(m)
            if mod and exc in mod.classes:
                return ExcV(exc, [mod.classes[exc]])
        return ExcV(exc)

    # -- spec functions -----------------------------------------------------------------------------------------------------
    def call_spec(self, fi, args):
        sf = self.reg.specfns[(fi.module.name, fi.name)]
        ts = [self.coerce(a, t) for a, t in zip(args, sf.params)]
        if len(ts) != len(sf.params):
            raise Unsupported("spec function arity")
        fn = z3.Function("spec_" + Z.clean(fi.full), *[t.sort() for t in ts], sort_of(sf.ret))
        app = fn(*ts)
        key = ("spec", app.get_id())
        if self.spec_fuel > 0 and key not in self.unfolded and self.may_unfold(fi, app):
            self.unfolded.add(key)
            self._keep(app)
            self.spec_fuel -= 1
            self.spec_depth += 1
            fr = Frame(fi.module, fi, None, None, spec=True)
            names = [a.arg for a in fi.node.args.args]
            # re-lift so that invariants of reference arguments are known
            lifted = [a if not isinstance(t, T.Ref) else self.lift(t, x) for a, t, x in zip(args, sf.params, ts)]

            def run():
                fr.locals = dict(zip(names, lifted))
                try:
                    self.exec_block(self.spec_body(fi), fr)
                except ReturnEx as r:
                    return self.coerce(r.v, sf.ret)
                raise Unsupported("spec function without value")
            try:
                res = self.nested([], z3.BoolVal(True), run, fr)
            finally:
                self.spec_fuel += 1
                self.spec_depth -= 1
            for pc, kd, v, _ in res:
                if kd == "val":
                    self.assume(z3.Implies(pc, self._def_eq(sf.ret, app, v)))
        return self.lift(sf.ret, app)

    def may_unfold(self, fi, app):
        """recursive definitions are not unfolded inside hypotheses of lemmas, nor for terms under a binder"""
        if not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == fi.name for n in ast.walk(fi.node)):
            return True
        return not self.folded and not (self.fold_bound and self.bstack and _mentions(app, self.bstack))

    def _def_eq(self, ty, app, v):
        return app == v

    def spec_call(self, name, n, f):
        ev = lambda i: self.eval(n.args[i], f)
        if name in ("forall", "exists"):
            return self.spec_quant(name, ev(0), n.args[1], f)
        if name in ("forall_index", "exists_index"):
            cnt = self.coerce(ev(0), T.Int)
            cnt = z3.simplify(cnt)
            lam = self.eval(n.args[1], f)
            if z3.is_int_value(cnt):
                ts = [self.truth_term(self.call(lam, [K(i)], {})) for i in range(cnt.as_long())]
                return self.b(z3.And(*ts) if name[0] == "f" else z3.Or(*ts)) if ts else K(name[0] == "f")
            v = z3.Int(f"q!{self.bump()}")
            return self.b(self._quant(name[0] == "f", [v], z3.And(0 <= v, v < cnt), lambda: self.truth_term(self.call(lam, [S(T.Int, v)], {})), f))
        if name in ("same", "seq_eq"):
            a, b = ev(0), ev(1)
            self.spec_depth += 1
            try:
                if name == "seq_eq":
                    a, b = C("list", self.to_seqp(a)), C("list", self.to_seqp(b))
                return self.b(self.eq_term(a, b))
            finally:
                self.spec_depth -= 1
        if name == "implies":
            a = self.truth_term(ev(0))
            t = self.formula_under(a, lambda: self.truth_term(self.eval(n.args[1], f)), f)
            return self.b(z3.Implies(a, t))
        if name == "mapput":
            m = ev(0)
            return C("dict", self.map_put(self.payload(m), self.export(ev(1)), self.export(ev(2))))
        if name == "mapmerge":
            a, b = ev(0), ev(1)
            return C("dict", self.map_merge(self.payload(a), self.payload(b)))
        if name == "is_nan":
            v = self.resolve(ev(0))
            if isinstance(v, K):
                return K(isinstance(v.v, float) and v.v != v.v)
            if isinstance(v, S) and v.ty == T.Flt:
                return self.b(Z.f_isnan(v.t))
            return K(False)
        if name == "is_instance_exact":
            return self.b(self.type_eq(TypeOf(self.resolve(ev(0))), ev(1)))
        raise Unsupported(f"spec vocabulary {name}")

    def _quant(self, is_all, binders, guard, thunk, f):
        res = self.nested(binders, guard, thunk, f)
        body = self._combine(res, binders)
        if is_all:
            return z3.ForAll(binders, z3.Implies(guard, body))
        return z3.Exists(binders, z3.And(guard, body))

    def spec_quant(self, name, coll, lamnode, f):
        is_all = name == "forall"
        lam = self.eval(lamnode, f)
        nargs = len(lam.node.args.args) if isinstance(lam, LamV) else 1
        coll = self.resolve(coll)
        if isinstance(coll, GenDom):
            coll = C("list", self.seq_of_contribs(coll.contribs))
        if nargs == 2 and self.kind(coll) == "dict":
            dom = self.dom_of_map(self.payload(coll), "items")
        else:
            dom = self.iter_dom(coll)

        def app(x):
            if nargs == 2:
                return self.truth_term(self.call(lam, list(self.payload(x).items), {}))
            return self.truth_term(self.call(lam, [x], {}))
        if dom.items is not None:
            ts = [app(x) for x in dom.items]
            if not ts:
                return K(is_all)
            return self.b(z3.And(*ts) if is_all else z3.Or(*ts))
        v = z3.Const(f"q!{self.bump()}", dom.sort)
        return self.b(self._quant(is_all, [v], dom.guard(v), lambda: app(dom.elem(v)), f))

    # -- builtins ------------------------------------------------------------------------------------------------------------
    def ext_call(self, name, args, kwargs, node=None):
        base = name.split(".")[-1]
        m = getattr(self, "x_" + name.replace(".", "_"), None)
        if m is None and (name.startswith("typing.") or name.startswith("collections.abc.")):
            m = getattr(self, "x_typing_" + base, None)
        if m is not None:
            return m(args, kwargs)
        if base in EXC_NAMES or base.endswith("Error") or base.endswith("Warning"):
            return ExcV(base)
        if any(name.startswith(p) for p in ("warnings.", "logging.", "print", "gc.")):
            return K(None)
        if name.startswith("object."):
            if base == "__init__":
                return K(None)
            if base == "__setattr__":
                self.set_attr(args[0], args[1].v, args[2])
                return K(None)
        if name.split(".")[0] in BUILTIN_TYPES and "." in name:
            # unbound method such as set.union(a, b)
            recv = args[0]
            if isinstance(recv, StarArg):
                return self.star_union(name, recv)
            return self.bm_call(BM(recv, base), args[1:], kwargs)
        raise Unsupported(f"external function {name}")

    def star_union(self, name, star):
        tname, op = name.split(".")
        if op != "union":
            raise Unsupported(f"{name}(*symbolic)")
        v = star.v
        dom = self.iter_dom(v)
        if dom.items is not None:
            raise Unsupported("star")
        x = z3.Const(f"v!{self.bump()}", dom.sort)
        if dom.n is not None and self.decide(dom.n <= 0):
            raise PyRaise(ExcV("TypeError"), "unbound method needs an argument")
        el = dom.elem(x)
        p = self.to_setp(el)
        y = z3.Const(f"x!{self.bump()}", sort_of(p.ety))
        res = self.set_of_contribs([Contribution([x, y], z3.And(dom.guard(x), z3.Select(p.arr, y)), self.lift_raw(p.ety, y), False)])
        return C("frozenset", res) if tname == "frozenset" else self.new_cell("set", res)

    def x_len(self, args, kw):
        v = self.resolve(args[0])
        if isinstance(v, K):
            if isinstance(v.v, str):
                return K(len(v.v))
            raise PyRaise(ExcV("TypeError"), "len")
        if isinstance(v, S) and v.ty == T.Str:
            self.assume(Z.str_len(v.t) >= 0)
            return S(T.Int, Z.str_len(v.t))
        if isinstance(v, ClassV) and v.ci.is_enum():
            return K(len(v.ci.enum_members()))
        if self.user_class(v):
            return self.call_method(v, "__len__", [])
        if isinstance(v, S):
            raise PyRaise(ExcV("TypeError"), "len")
        if self.kind(v) in ("generator",):
            raise PyRaise(ExcV("TypeError"), "len of a generator")
        if self.kind(v) is None:
            raise PyRaise(ExcV("TypeError"), "len")
        p = self.payload(v)
        if isinstance(p, SeqP):
            return self.num(self.seq_len(p))
        if isinstance(p, MapP):
            if p.entries is not None:
                if self.const_keys(p):
                    return K(len(p.entries))
                p = self.map_sym(p, *self.map_tys(p)) if p.entries else p
                if p.entries is not None:
                    return K(0)
            return self.num(self.card(SetP(None, p.kty, p.dom)))
        if p.items is not None and all(isinstance(x, (K, En)) for x in p.items):
            return K(len(self._dedupe_const(p.items)))
        return self.num(self.card(p))

    def num(self, t):
        t = z3.simplify(t)
        return K(t.as_long()) if z3.is_int_value(t) else S(T.Int, t)

    def x_isinstance(self, args, kw):
        return self.b(self.isinstance_term(args[0], args[1]))

    def x_issubclass(self, args, kw):
        a, b = args
        if isinstance(a, ClassV) and isinstance(b, ClassV):
            return K(a.ci.issubclass(b.ci))
        raise Unsupported("issubclass")

    def x_type(self, args, kw):
        v = self.resolve(args[0])
        if self.kind(v) == "obj":
            return ClassV(self.heap[v.id].p.ci)
        if isinstance(v, S) and isinstance(v.ty, T.Ref) and len(v.ty.classes) == 1:
            return ClassV(self.ref_classes(v.ty)[0])
        return TypeOf(v)

    def x_callable(self, args, kw):
        v = self.resolve(args[0])
        return K(isinstance(v, (FuncV, LamV, ClassV, BM, ExtV, PyFn)) or (isinstance(v, S) and isinstance(v.ty, T.Func)))

    def _mk(self, kind, p):
        if kind in ("frozenset",):
            return C("frozenset", p)
        if kind == "tuple":
            return Tup(p.items) if p.items is not None else C("tuple", p)
        return self.new_cell(kind, p)

    def x_set(self, args, kw):
        if not args:
            return self.new_cell("set", SetP([]))
        p = self.to_setp(args[0])
        if p.items is not None:
            for x in p.items:
                self.hashable(x)
        return self.new_cell("set", SetP([self.export(x) for x in p.items]) if p.items is not None else p)

    def x_frozenset(self, args, kw):
        if not args:
            return C("frozenset", SetP([]))
        p = self.to_setp(args[0])
        return C("frozenset", SetP([self.export(x) for x in p.items]) if p.items is not None else p)

    def x_list(self, args, kw):
        return self.new_cell("list", self.to_seqp(args[0]) if args else SeqP([]))

    def x_tuple(self, args, kw):
        return self._mk("tuple", self.to_seqp(args[0]) if args else SeqP([]))

    def x_dict(self, args, kw):
        p = MapP([])
        if args:
            v = self.resolve(args[0])
            if isinstance(v, GenDom):
                p = self.map_of_contribs(v.contribs)
            elif self.user_class(v):
                raise Unsupported("dict of object")
            else:
                p = self.payload(v)
                if self.kind(v) == "dict_items":
                    pass
                elif isinstance(p, SeqP):
                    p = self.map_of_seq(p)
            p = MapP(p.entries, p.kty, p.vty, p.dom, p.val)
        kw = dict(kw)
        star = kw.pop("**", None)
        if star is not None:
            p = self.map_merge(p, self.payload(star))
        for k, v in kw.items():
            p = self.map_put(p, K(k), v)
        return self.new_cell("dict", p)

    def x_collections_defaultdict(self, args, kw):
        return self.new_cell("dict", MapP([], default=args[0] if args else None))

    def x_str(self, args, kw):
        return self.to_str(self.resolve(args[0])) if args else K("")

    def x_repr(self, args, kw):
        return self.to_str(args[0], rep=True)

    def x_bool(self, args, kw):
        return self.b(self.truth_term(args[0])) if args else K(False)

    def x_id(self, args, kw):
        return S(T.Int, self.fresh("id", z3.IntSort()))

    def x_int(self, args, kw):
        if not args:
            return K(0)
        v = self.resolve(args[0])
        if isinstance(v, K) and not isinstance(v.v, str) and v.v is not None:
            try:
                return K(int(v.v))
            except OverflowError:
                raise PyRaise(ExcV("OverflowError"))
            except ValueError:
                raise PyRaise(ExcV("ValueError"))
        if isinstance(v, S) and v.ty in (T.Int, T.Bool):
            return S(T.Int, self.coerce(v, T.Int))
        if isinstance(v, S) and v.ty == T.Flt:
            if self.decide(Z.f_isnan(v.t)):
                raise PyRaise(ExcV("ValueError"))
            if self.decide(Z.f_isinf(v.t)):
                raise PyRaise(ExcV("OverflowError"))
            r = FLT.r(v.t)
            return S(T.Int, z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r)))
        if self.user_class(v):
            return self.call_method(v, "__int__", [])
        raise Unsupported("int()")

    def x_float(self, args, kw):
        v = self.resolve(args[0]) if args else K(0.0)
        if isinstance(v, K) and (isinstance(v.v, (int, float)) or v.v in ("inf", "nan", "-inf")):
            return K(float(v.v))
        if self.is_num(v):
            return S(T.Flt, self.coerce(v, T.Flt))
        if self.user_class(v):
            return self.call_method(v, "__float__", [])
        raise Unsupported("float()")

    def x_abs(self, args, kw):
        v = self.resolve(args[0])
        if isinstance(v, K):
            return K(abs(v.v))
        if isinstance(v, S) and v.ty == T.Int:
            return S(T.Int, z3.If(v.t < 0, -v.t, v.t))
        if isinstance(v, S) and v.ty == T.Flt:
            return S(T.Flt, z3.If(FLT.is_ninf(v.t), FLT.pinf, z3.If(z3.And(FLT.is_fin(v.t), FLT.r(v.t) < 0), FLT.fin(-FLT.r(v.t)), v.t)))
        return self.call_method(v, "__abs__", [])

    def x_round(self, args, kw):
        v = self.resolve(args[0])
        nd = args[1] if len(args) > 1 else kw.get("ndigits")
        if nd is not None and not (isinstance(nd, K) and nd.v is None):
            if self.is_num(v):
                return S(T.Flt, z3.Function("round_nd", FLT, z3.IntSort(), FLT)(self.coerce(v, T.Flt), self.coerce(nd, T.Int)))
            return self.call_method(v, "__round__", [nd])
        if isinstance(v, K):
            return K(round(v.v))
        if isinstance(v, S) and v.ty == T.Int:
            return v
        if isinstance(v, S) and v.ty == T.Flt:
            if self.decide(Z.f_isnan(v.t)):
                raise PyRaise(ExcV("ValueError"))
            if self.decide(Z.f_isinf(v.t)):
                raise PyRaise(ExcV("OverflowError"))
            r = FLT.r(v.t)
            fl = z3.ToInt(r)
            d = r - z3.ToReal(fl)
            half = z3.RealVal("1/2")
            return S(T.Int, z3.If(d < half, fl, z3.If(d > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1))))
        return self.call_method(v, "__round__", [])

    def x_divmod(self, args, kw):
        a, b = args
        if self.user_class(a):
            return self.call_method(a, "__divmod__", [b])
        if self.user_class(b):
            return self.call_method(b, "__rdivmod__", [a])
        return Tup([self.binop(ast.FloorDiv, a, b), self.binop(ast.Mod, a, b)])

    def x_pow(self, args, kw):
        return self.binop(ast.Pow, args[0], args[1])

    def x_iter(self, args, kw):
        v = self.resolve(args[0])
        if isinstance(v, GenDom) or self.kind(v) == "generator":
            return v
        if self.user_class(v):
            return self.call_method(v, "__iter__", [])
        return C("generator", self.to_seqp(v))

    def x_next(self, args, kw):
        v = self.resolve(args[0])
        if self.user_class(v):
            return self.call_method(v, "__next__", [])
        if self.kind(v) not in ("generator",):
            raise PyRaise(ExcV("TypeError"), "not an iterator")
        p = self.to_seqp(v)
        if p.items is not None:
            if p.items:
                return p.items[0]
        elif self.decide(p.n > 0):
            return self.lift(p.ety, z3.simplify(z3.Select(p.arr, 0)))
        if len(args) > 1:
            return args[1]
        raise PyRaise(ExcV("StopIteration"))

    def contribs_of(self, v):
        if isinstance(v, GenDom):
            return v.contribs
        d = self.iter_dom(v)
        if d.items is not None:
            return [Contribution([], z3.BoolVal(True), x) for x in d.items]
        x = z3.Const(f"v!{self.bump()}", d.sort)
        el = d.elem(x) if not (isinstance(v, (C, Loc)) and False) else None
        return [Contribution([x], d.guard(x), el, ("map", d.n) if d.ordered else False)]

    def x_any(self, args, kw):
        return self.b(self.any_of(self.contribs_of(self.resolve(args[0]))))

    def x_all(self, args, kw):
        return self.b(self.all_of(self.contribs_of(self.resolve(args[0]))))

    def x_sum(self, args, kw):
        v = self.resolve(args[0])
        start = args[1] if len(args) > 1 else kw.get("start", K(0))
        p = self.to_seqp(v)
        if p.items is not None:
            acc = start
            for x in p.items:
                acc = self.binop(ast.Add, acc, x)
            return acc
        if p.ety in (T.Int, T.Flt, T.Bool):
            ty = T.Int if p.ety != T.Flt else T.Flt
            t = self.seq_term(p, p.ety)
            fn = z3.Function("sum_" + p.ety.name, t.sort(), sort_of(ty))
            self.assume(z3.Implies(p.n == 0, fn(t) == (z3.IntVal(0) if ty == T.Int else FLT.fin(z3.RealVal(0)))))
            return self.binop(ast.Add, start, S(ty, fn(t)))
        raise Unsupported("sum of a symbolic sequence of objects")

    def _extremum(self, args, kw, is_max):
        key = kw.get("key")
        if isinstance(key, K) and key.v is None:
            key = None
        if len(args) > 1:
            items = list(args)
        else:
            v = self.resolve(args[0])
            p = self.to_seqp(v)
            items = p.items
        kf = (lambda x: self.call(key, [x], {})) if key is not None else (lambda x: x)
        op = ast.Gt() if is_max else ast.Lt()
        if items is not None:
            if not items:
                if "default" in kw:
                    return kw["default"]
                raise PyRaise(ExcV("ValueError"), "empty")
            best = items[0]
            bk = kf(best)
            for x in items[1:]:
                xk = kf(x)
                if self.decide(self.order(op, xk, bk)):
                    best, bk = x, xk
            return best
        if not self.decide(p.n > 0):
            if "default" in kw:
                return kw["default"]
            raise PyRaise(ExcV("ValueError"), "empty")
        # first extremal element (for orders that are total on the keys)
        k = self.fresh("ext", z3.IntSort())
        self.assume(z3.And(0 <= k, k < p.n))
        best = self.lift(p.ety, z3.Select(p.arr, k))
        bk = kf(best)
        v = z3.Int(f"v!{self.bump()}")

        def body():
            xk = kf(self.lift(p.ety, z3.Select(p.arr, v)))
            t1 = z3.Not(self.order(op, xk, bk))
            t2 = self.order(op, bk, xk)
            if self.is_num(xk) and self.ty_of(xk) == T.Flt:
                nn = z3.And(z3.Not(Z.f_isnan(self.coerce(xk, T.Flt))), z3.Not(Z.f_isnan(self.coerce(bk, T.Flt))))
                return z3.And(t1, z3.Implies(z3.And(v < k, nn), t2))
            return z3.And(t1, z3.Implies(v < k, t2))
        g = z3.And(0 <= v, v < p.n)
        if p.ety == T.Flt and key is None:
            j = z3.Int(f"v!{self.bump()}")
            self.taint_nan(p)
        res = self.nested([v], g, body, self._dummy_frame())
        self.raise_from(res, [v], g)
        self.assume(z3.ForAll([v], z3.Implies(g, self._combine([r for r in res if r[1] == "val"], [v]))))
        return best

    def taint_nan(self, p):
        self.taint.append("max/min over floats assumes no NaN")

    def x_min(self, args, kw):
        return self._extremum(args, kw, False)

    def x_max(self, args, kw):
        return self._extremum(args, kw, True)

    def x_sorted(self, args, kw):
        p = self.to_seqp(self.resolve(args[0]))
        return self.new_cell("list", self.sort_seq(p, kw))

    def sort_seq(self, p, kw):
        if p.items is not None and len(p.items) <= 1:
            return SeqP(list(p.items))
        key = kw.get("key")
        if isinstance(key, K) and key.v is None:
            key = None
        if p.items is not None and key is None and all(isinstance(x, K) for x in p.items):
            return SeqP([K(y) for y in sorted([x.v for x in p.items], reverse=bool(kw.get("reverse", K(False)).v))])
        if p.items is not None:
            ety = self.elem_ty(p.items)
            t = self.seq_term(p, ety)
            s = sort_of(T.Seq(ety))
            p = SeqP(None, ety, z3.simplify(s.len(t)), s.arr(t))
        es = sort_of(p.ety)
        arr = self.fresh("sorted", z3.ArraySort(z3.IntSort(), es))
        perm = z3.Function(f"perm!{self.bump()}", *[b.sort() for b in self.bstack], z3.IntSort(), z3.IntSort())
        inv = z3.Function(f"perminv!{self.bump()}", *[b.sort() for b in self.bstack], z3.IntSort(), z3.IntSort())
        i = z3.Int(f"i!{self.bump()}")
        j = z3.Int(f"j!{self.bump()}")
        P = lambda x: perm(*self.bstack, x)
        I = lambda x: inv(*self.bstack, x)
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p.n), z3.And(0 <= P(i), P(i) < p.n, z3.Select(arr, i) == z3.Select(p.arr, P(i)), I(P(i)) == i)), patterns=[z3.Select(arr, i)]))
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p.n), z3.And(0 <= I(i), I(i) < p.n, z3.Select(arr, I(i)) == z3.Select(p.arr, i), P(I(i)) == i)), patterns=[I(i)]))
        kf = (lambda x: self.call(key, [x], {})) if key is not None else (lambda x: x)
        rev = kw.get("reverse", K(False))
        g = z3.And(0 <= i, i < j, j < p.n)

        def body():
            a = kf(self.lift(p.ety, z3.Select(arr, i)))
            b = kf(self.lift(p.ety, z3.Select(arr, j)))
            lt = self.lex_lt(b, a)
            gt = self.lex_lt(a, b)
            r = self.truth_term(rev)
            return z3.Not(z3.If(r, gt, lt))
        res = self.nested([i, j], g, body, self._dummy_frame())
        self.raise_from(res, [i, j], g)
        self.assume(z3.ForAll([i, j], z3.Implies(g, self._combine([r for r in res if r[1] == "val"], [i, j]))))
        return SeqP(None, p.ety, p.n, arr)

    def lex_lt(self, a, b):
        if isinstance(a, Tup) and isinstance(b, Tup):
            out = z3.BoolVal(False)
            for x, y in reversed(list(zip(a.items, b.items))):
                out = z3.Or(self.lex_lt(x, y), z3.And(self.eq_term(x, y), out))
            return out
        if self.is_num(a) or self.is_str(a) or self.user_class(a):
            return self.order(ast.Lt(), a, b)
        raise Unsupported("ordering of sort keys")

    def x_reversed(self, args, kw):
        p = self.to_seqp(self.resolve(args[0]))
        return C("generator", self.rev_seq(p))

    def rev_seq(self, p):
        if p.items is not None:
            return SeqP(list(reversed(p.items)))
        v = z3.Int(f"v!{self.bump()}")
        arr = self.fresh("rev", z3.ArraySort(z3.IntSort(), sort_of(p.ety)))
        self.assume(z3.ForAll([v], z3.Implies(z3.And(0 <= v, v < p.n), z3.Select(arr, v) == z3.Select(p.arr, p.n - 1 - v)), patterns=[z3.Select(arr, v)]))
        self.assume(z3.ForAll([v], z3.Implies(z3.And(0 <= v, v < p.n), z3.Select(arr, p.n - 1 - v) == z3.Select(p.arr, v)), patterns=[z3.Select(p.arr, v)]) if not _is_st(p.arr) else z3.BoolVal(True))
        return SeqP(None, p.ety, p.n, arr)

    def x_enumerate(self, args, kw):
        p = self.to_seqp(self.resolve(args[0]))
        start = args[1] if len(args) > 1 else kw.get("start", K(0))
        if p.items is not None:
            return C("generator", SeqP([Tup([self.binop(ast.Add, start, K(i)), x]) for i, x in enumerate(p.items)]))
        return self.mapped(p.n, T.TupT(T.Int, p.ety), lambda v: Tup([S(T.Int, v + self.coerce(start, T.Int)), self.lift_raw(p.ety, z3.Select(p.arr, v))]))

    def mapped(self, n, ety, fn):
        v = z3.Int(f"v!{self.bump()}")
        arr = self.fresh("mapped", z3.ArraySort(z3.IntSort(), sort_of(ety)))
        t = self.coerce(fn(v), ety)
        self.assume(z3.ForAll([v], z3.Implies(z3.And(0 <= v, v < n), z3.Select(arr, v) == t), patterns=[z3.Select(arr, v)]))
        return C("generator", SeqP(None, ety, n, arr))

    def x_zip(self, args, kw):
        ps = [self.to_seqp(self.resolve(a)) for a in args]
        if all(p.items is not None for p in ps):
            return C("generator", SeqP([Tup(list(t)) for t in zip(*[p.items for p in ps])]))
        qs = []
        for p in ps:
            if p.items is not None:
                if not p.items:
                    return C("generator", SeqP([]))
                ety = self.elem_ty(p.items)
                t = self.seq_term(p, ety)
                s = sort_of(T.Seq(ety))
                p = SeqP(None, ety, z3.simplify(s.len(t)), s.arr(t))
            qs.append(p)
        n = qs[0].n
        for q in qs[1:]:
            n = z3.If(q.n < n, q.n, n)
        strict = kw.get("strict")
        n = z3.simplify(n)
        return self.mapped(n, T.TupT(*[q.ety for q in qs]), lambda v: Tup([self.lift_raw(q.ety, z3.Select(q.arr, v)) for q in qs]))

    def x_range(self, args, kw):
        if all(isinstance(a, K) for a in args):
            return Tup([K(i) for i in range(*[a.v for a in args])])
        if len(args) == 3:
            raise Unsupported("range with step")
        lo, hi = (K(0), args[0]) if len(args) == 1 else (args[0], args[1])
        a, b = self.coerce(lo, T.Int), self.coerce(hi, T.Int)
        n = z3.simplify(z3.If(b > a, b - a, 0))
        return self.mapped(n, T.Int, lambda v: S(T.Int, v + a))

    def x_map(self, args, kw):
        fn = args[0]
        p = self.to_seqp(self.resolve(args[1]))
        if p.items is not None:
            return C("generator", SeqP([self.call(fn, [x], {}) for x in p.items]))
        v = z3.Int(f"v!{self.bump()}")
        g = z3.And(0 <= v, v < p.n)
        res = self.nested([v], g, lambda: self.export(self.call(fn, [self.lift(p.ety, z3.Select(p.arr, v))], {})), self._dummy_frame())
        self.raise_from(res, [v], g)
        return GenDom([Contribution([v], z3.And(g, pc), val, ("map", p.n)) for pc, kd, val, _ in res if kd == "val"], True)

    def x_filter(self, args, kw):
        raise Unsupported("filter")

    def x_getattr(self, args, kw):
        if not isinstance(args[1], K):
            raise Unsupported("getattr")
        try:
            return self.get_attr(args[0], args[1].v)
        except PyRaise as e:
            if e.exc.cls == "AttributeError" and len(args) > 2:
                return args[2]
            raise

    def x_hasattr(self, args, kw):
        if not isinstance(args[1], K):
            raise Unsupported("hasattr")
        try:
            self.get_attr(args[0], args[1].v)
            return K(True)
        except PyRaise as e:
            if e.exc.cls == "AttributeError":
                return K(False)
            raise

    def x_setattr(self, args, kw):
        self.set_attr(args[0], args[1].v, args[2])
        return K(None)

    def x_vars(self, args, kw):
        return self.get_attr(args[0], "__dict__")

    # hash: an uninterpreted, congruent function of the value
    def x_hash(self, args, kw):
        return S(T.Int, self.hash_term(args[0]))

    def _hash_is_stored(self, ci):
        """__hash__ returns an attribute that the constructor computed"""
        lk = ci.lookup("__hash__")
        if lk is None or lk[0] != "method":
            return True
        b = self.spec_body(lk[1])
        return len(b) == 1 and isinstance(b[0], ast.Return) and isinstance(b[0].value, ast.Attribute)

    def hash_term(self, v):
        H = z3.IntSort()
        if isinstance(v, S) and isinstance(v.ty, T.Opt) and (v.ty.t in (T.Str, T.Int, T.Flt, T.Bool) or isinstance(v.ty.t, T.EnumT)
                                                             or isinstance(v.ty.t, T.Ref) and v.ty.t.eq == "term"):
            s = sort_of(v.ty)
            return z3.If(s.is_none(v.t), z3.Const("hash_none", H), self.hash_term(self.lift(v.ty.t, s.val(v.t))))
        v = self.resolve(v)
        if isinstance(v, K):
            if isinstance(v.v, (bool, int, float)):
                return z3.Function("hash_num", FLT, H)(Z.f_of_py(v.v))
            if v.v is None:
                return z3.Const("hash_none", H)
            return z3.Function("hash_str", Z.STR, H)(self.coerce(v, T.Str))
        if isinstance(v, En):
            if "StrEnum" in v.ci.all_base_names():
                return self.hash_term(K(v.val))
            lk = v.ci.lookup("__hash__")
            return z3.Const(f"hash_enum_{v.ci.name}_{v.m}", H)
        if isinstance(v, Tup) or (isinstance(v, C) and v.kind == "tuple"):
            p = self.payload(v)
            if p.items is not None:
                ts = [self.hash_term(x) for x in p.items]
                return z3.Function(f"hash_tup{len(ts)}", *[H] * len(ts), H)(*ts) if ts else z3.Const("hash_tup0", H)
            return self.hash_seq(p)
        if isinstance(v, S):
            if v.ty in (T.Int, T.Flt, T.Bool):
                return z3.Function("hash_num", FLT, H)(self.coerce(v, T.Flt))
            if v.ty == T.Str:
                return z3.Function("hash_str", Z.STR, H)(v.t)
            if isinstance(v.ty, T.EnumT):
                return z3.Function(f"hash_enumt_{Z.clean(v.ty.name)}", H, H)(v.t)
            if isinstance(v.ty, T.Ref):
                cis = self.ref_classes(v.ty)
                if cis and all(self._own(c, "__hash__") for c in cis) and v.ty.eq == "code":
                    r = self.call_method(v, "__hash__", [])
                    return self.coerce(r, T.Int)
                if cis and v.ty.eq == "struct" and all(self._own(c, "__hash__") for c in cis):
                    if all(self._hash_is_stored(c) for c in cis):
                        self.taint.append(f"hash of {v.ty.name} is a function of its fields")
                    else:
                        return self.coerce(self.call_method(v, "__hash__", []), T.Int)
            return z3.Function(f"hash_{Z.clean(v.ty.name)}", sort_of(v.ty), H)(v.t)
        k = self.kind(v)
        if k == "obj":
            fam = self._family(v)
            if fam is not None and fam.eq != "code":
                t = self.freeze(v, fam)
                return z3.Function(f"hash_{Z.clean(fam.name)}", sort_of(fam), H)(t)
            ci = self.heap[v.id].p.ci
            if self._own(ci, "__hash__"):
                return self.coerce(self.call_method(v, "__hash__", []), T.Int)
            if ci.is_dataclass:
                return self.hash_term(Tup(list(self.heap[v.id].p.fields.values())))
            return z3.IntVal(v.id)
        if k == "frozenset":
            p = self.payload(v)
            ty = p.ety if p.items is None else (self.elem_ty(p.items) if p.items else None)
            if ty is None:
                return z3.Const("hash_emptyset", H)
            arr = self.set_term(p, ty)
            f = z3.Function("hash_fs_" + Z.clean(ty.name), arr.sort(), H)
            self.assume(f(z3.K(sort_of(ty), z3.BoolVal(False))) == z3.Const("hash_emptyset", H))
            return f(arr)
        if k in ("list", "set", "dict"):
            if self.spec_depth:
                pass
            raise PyRaise(ExcV("TypeError"), f"unhashable {k}")
        if isinstance(v, ClassV):
            return z3.Const(f"hash_cls_{v.ci.name}", H)
        raise Unsupported(f"hash of {v}")

    def hash_seq(self, p):
        """hash of a symbolic tuple: depends on the element-wise content"""
        H = z3.IntSort()
        v = z3.Int(f"v!{self.bump()}")
        if isinstance(p.ety, T.Ref) and p.ety.eq == "code" or isinstance(p.ety, T.Any.__class__) and False:
            raise Unsupported("hash of a symbolic tuple of objects")
        t = self.seq_term(p, p.ety)
        f = z3.Function("hash_seq_" + Z.clean(p.ety.name), t.sort(), H)
        # congruence with respect to element-wise equality: assumed between every two hashed sequences of the path
        ht = f(t)
        for q in self.reg_hseq(p.ety):
            s = sort_of(T.Seq(p.ety))
            i = z3.Int(f"i!{self.bump()}")
            same = z3.And(s.len(q) == s.len(t), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.len(t)), z3.Select(s.arr(q), i) == z3.Select(s.arr(t), i))))
            self.assume(z3.Implies(same, f(q) == ht))
        self.reg_hseq(p.ety).append(t)
        return ht

    def reg_hseq(self, ety):
        if not hasattr(self, "_hseq"):
            self._hseq = {}
        return self._hseq.setdefault(ety.name, [])

    # library functions
    def x_math_isnan(self, args, kw):
        v = self.resolve(args[0])
        if isinstance(v, K):
            if isinstance(v.v, (int, float)):
                return K(math.isnan(v.v))
            raise PyRaise(ExcV("TypeError"))
        if self.user_class(v):
            v = self.call_method(v, "__float__", [])
            return self.x_math_isnan([v], kw)
        if self.is_num(v):
            return self.b(Z.f_isnan(self.coerce(v, T.Flt)))
        raise PyRaise(ExcV("TypeError"))

    def x_math_isinf(self, args, kw):
        v = self.resolve(args[0])
        if isinstance(v, K):
            if isinstance(v.v, (int, float)):
                return K(math.isinf(v.v))
            raise PyRaise(ExcV("TypeError"))
        if self.user_class(v):
            return self.x_math_isinf([self.call_method(v, "__float__", [])], kw)
        if self.is_num(v):
            return self.b(Z.f_isinf(self.coerce(v, T.Flt)))
        raise PyRaise(ExcV("TypeError"))

    def _num_arg(self, v):
        v = self.resolve(v)
        if self.user_class(v):
            v = self.call_method(v, "__float__", [])
        return v

    def x_math_ceil(self, args, kw):
        v = self.resolve(args[0])
        if isinstance(v, K):
            return K(math.ceil(v.v))
        if self.user_class(v) and all(self._own(c, "__ceil__") for c in self.user_class(v)):
            return self.call_method(v, "__ceil__", [])
        v = self._num_arg(v)
        if self.ty_of(v) == T.Int:
            return v
        if self.decide(z3.Not(Z.f_isfin(v.t))):
            raise PyRaise(ExcV("OverflowError"))
        r = FLT.r(v.t)
        return S(T.Int, -z3.ToInt(-r))

    def x_math_trunc(self, args, kw):
        v = self.resolve(args[0])
        if self.user_class(v):
            return self.call_method(v, "__trunc__", [])
        raise Unsupported("math.trunc")

    def x_math_floor(self, args, kw):
        v = self.resolve(args[0])
        if isinstance(v, K):
            return K(math.floor(v.v))
        if self.user_class(v) and all(self._own(c, "__floor__") for c in self.user_class(v)):
            return self.call_method(v, "__floor__", [])
        v = self._num_arg(v)
        if self.ty_of(v) == T.Int:
            return v
        if self.decide(z3.Not(Z.f_isfin(v.t))):
            raise PyRaise(ExcV("OverflowError"))
        return S(T.Int, z3.ToInt(FLT.r(v.t)))

    def _opaque_num(self, name, args):
        ts = [self.coerce(self._num_arg(a), T.Flt) for a in args]
        return S(T.Flt, z3.Function(name, *[FLT] * len(ts), FLT)(*ts))

    def x_math_log(self, args, kw):
        return self._opaque_num("m_log", args)

    def x_math_sqrt(self, args, kw):
        return self._opaque_num("m_sqrt", args)

    def x_math_prod(self, args, kw):
        p = self.to_seqp(self.resolve(args[0]))
        if p.items is not None:
            acc = kw.get("start", K(1))
            for x in p.items:
                acc = self.binop(ast.Mult, acc, x)
            return acc
        raise Unsupported("prod of a symbolic sequence")

    def x_itertools_chain(self, args, kw):
        p = SeqP([])
        for a in args:
            p = self.seq_concat(p, self.to_seqp(a.v if isinstance(a, StarArg) else a)) if not isinstance(a, StarArg) else self.flatten(a.v)
        return C("generator", p)

    def x_itertools_product(self, args, kw):
        if any(isinstance(a, StarArg) for a in args):
            raise Unsupported("product of unknown arguments")
        rep = kw.get("repeat", K(1))
        return ProdV([self.resolve(a) for a in args] * rep.v)

    def x_itertools_chain_from_iterable(self, args, kw):
        return C("generator", self.flatten(args[0]))

    def flatten(self, v):
        d = self.iter_dom(v)
        if d.items is not None:
            p = SeqP([])
            for x in d.items:
                p = self.seq_concat(p, self.to_seqp(x))
            return p
        x = z3.Const(f"v!{self.bump()}", d.sort)
        g = d.guard(x)
        cs = []
        res = self.nested([x], g, lambda: self._flat_inner(d.elem(x)), self._dummy_frame())
        for pc, kd, val, _ in res:
            if kd == "val":
                for c in val:
                    cs.append(Contribution([x] + c.binders, z3.And(g, pc, c.guard), c.value, False))
        return self.seq_of_contribs(cs)

    def _flat_inner(self, el):
        e = self.iter_dom(el)
        if e.items is not None:
            return [Contribution([], z3.BoolVal(True), i) for i in e.items]
        y = z3.Const(f"w!{self.bump()}", e.sort)
        return [Contribution([y], e.guard(y), e.elem(y))]

    def x_typing_cast(self, args, kw):
        return args[1]

    def x_copy_copy(self, args, kw):
        v = args[0]
        if isinstance(v, Loc) and self.kind(v) == "obj":
            p = self.heap[v.id].p
            return self.new_cell("obj", ObjP(p.ci, dict(p.fields), None if isinstance(p.ty, S) else p.ty))
        if isinstance(v, Loc):
            return self.new_cell(self.kind(v), self.payload(v))
        return v

    def x_copy_deepcopy(self, args, kw):
        return self.clone(args[0])

    def x_dataclasses_replace(self, args, kw):
        v = self.resolve(args[0])
        if self.kind(v) == "obj":
            p = self.heap[v.id].p
            loc = self.new_cell("obj", ObjP(p.ci, {}))
            self.dataclass_init(loc, p.ci, [], {**p.fields, **kw})
            return loc
        if isinstance(v, S) and isinstance(v.ty, T.Ref) and len(v.ty.classes) == 1:
            ci = self.ref_classes(v.ty)[0]
            loc = self.new_cell("obj", ObjP(ci, {}))
            self.dataclass_init(loc, ci, [], {**{f: self.field(v, f, t) for f, t in v.ty.fields.items()}, **kw})
            return loc
        raise Unsupported("dataclasses.replace")

    def x_types_SimpleNamespace(self, args, kw):
        raise Unsupported("SimpleNamespace")

    def x_functools_reduce(self, args, kw):
        p = self.to_seqp(self.resolve(args[1]))
        if p.items is None:
            raise Unsupported("reduce over a symbolic sequence")
        items = list(p.items)
        acc = args[2] if len(args) > 2 else items.pop(0)
        for x in items:
            acc = self.call(args[0], [acc, x], {})
        return acc

    def x_functools_partial(self, args, kw):
        f0, pre, kw0 = args[0], list(args[1:]), dict(kw)
        return PyFn(lambda a, k: self.call(f0, pre + list(a), {**kw0, **k}), "partial")

    def x_collections_deque(self, args, kw):
        return self.new_cell("list", self.to_seqp(args[0]) if args else SeqP([]))

    def x_time_time(self, args, kw):
        return S(T.Flt, self.fresh("time", FLT))

    def x_math_comb(self, args, kw):
        raise Unsupported("comb")

    # -- methods of builtin values --------------------------------------------------------------------------------------
    def bm_call(self, bm, args, kwargs):
        v = self.resolve(bm.recv)
        if self.is_str(v):
            return self.str_method(v, bm.name, args, kwargs)
        if self.is_num(v):
            return self.num_method(v, bm.name, args)
        if self.user_class(v):
            return self.call_method(v, bm.name, args, kwargs)
        k = self.kind(v)
        if k is None:
            raise PyRaise(ExcV("AttributeError"), bm.name)
        fam = {"list": "seq", "tuple": "seq", "generator": "seq", "set": "set", "frozenset": "set", "dict": "map",
               "dict_keys": "set", "dict_items": "map", "dict_values": "map"}[k]
        m = getattr(self, f"m_{fam}_{bm.name}", None)
        if m is None:
            # attributes python does not have either
            pyt = {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset, "dict": dict}.get(k)
            if pyt is not None and not hasattr(pyt, bm.name):
                raise PyRaise(ExcV("AttributeError"), bm.name)
            raise Unsupported(f"method {k}.{bm.name}")
        pyt = {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset, "dict": dict}.get(k)
        if pyt is not None and not hasattr(pyt, bm.name):
            raise PyRaise(ExcV("AttributeError"), f"{k}.{bm.name}")
        if isinstance(v, C) and k in ("list", "set", "dict") and bm.name in (
                "append", "extend", "add", "update", "pop", "remove", "insert", "setdefault", "clear", "discard", "sort", "reverse"):
            raise Unsupported(f"mutation of a shared {k}")
        return m(v, args, kwargs)

    def num_method(self, v, name, args):
        if name == "is_integer":
            if isinstance(v, K):
                return K(float(v.v).is_integer())
            if v.ty == T.Flt:
                return self.b(z3.And(Z.f_isfin(v.t), z3.IsInt(FLT.r(v.t))))
            return K(True)
        raise PyRaise(ExcV("AttributeError"), name) if not hasattr(1.0, name) and not hasattr(1, name) else Unsupported(name)

    def str_method(self, v, name, args, kwargs):
        if isinstance(v, K) and all(isinstance(a, K) for a in args) and not kwargs and name not in ("join", "format", "encode"):
            r = getattr(v.v, name)(*[a.v for a in args])
            if isinstance(r, list):
                return self.new_cell("list", SeqP([K(x) for x in r]))
            if isinstance(r, tuple):
                return Tup([K(x) for x in r])
            return K(r)
        if name == "join":
            p = self.to_seqp(self.resolve(args[0]))
            if p.items is not None:
                acc = []
                for i, x in enumerate(p.items):
                    if i:
                        acc.append(v)
                    acc.append(x)
                return self.concat_strs(acc)
            t = self.seq_term(p, T.Str)
            return S(T.Str, z3.Function("str_join", Z.STR, t.sort(), Z.STR)(self.coerce(v, T.Str), t))
        t = self.coerce(v, T.Str)
        if name == "lower":
            r = Z.str_lower(t)
            self.assume(Z.str_lower(r) == r)
            return S(T.Str, r)
        if name == "upper":
            r = Z.str_upper(t)
            self.assume(Z.str_upper(r) == r)
            return S(T.Str, r)
        if name in ("startswith", "endswith", "isdigit", "isidentifier", "isnumeric", "isalnum", "islower", "isupper"):
            if args and isinstance(args[0], Tup):
                return self.b(z3.Or(*[self.truth_term(self.str_method(v, name, [x], {})) for x in args[0].items]))
            ts = [self.coerce(a, T.Str) for a in args]
            return self.b(z3.Function("str_" + name, *[Z.STR] * (1 + len(ts)), z3.BoolSort())(t, *ts))
        if name in ("strip", "lstrip", "rstrip", "replace", "removeprefix", "removesuffix", "capitalize", "title"):
            ts = [self.coerce(a, T.Str) for a in args]
            return S(T.Str, z3.Function(f"str_{name}{len(ts)}", *[Z.STR] * (1 + len(ts)), Z.STR)(t, *ts))
        if name in ("split", "rsplit", "splitlines"):
            st = T.Seq(T.Str)
            ts = [self.coerce(a, T.Str) for a in args[:1]]
            return self.new_cell("list", self.lift(st, z3.Function(f"str_{name}{len(ts)}", *[Z.STR] * (1 + len(ts)), sort_of(st))(t, *ts)).p)
        if name == "format":
            return self.opaque_str("format", [v] + list(args))
        if not hasattr("", name):
            raise PyRaise(ExcV("AttributeError"), name)
        raise Unsupported(f"str.{name}")

    # sequences
    def m_seq_append(self, v, a, kw):
        self.list_append(v, a[0])
        return K(None)

    def m_seq_appendleft(self, v, a, kw):
        p = self.cell(v).p
        self.mutate(v, "replace", [], lambda: self.seq_concat(SeqP([a[0]]), p))
        return K(None)

    def m_seq_extend(self, v, a, kw):
        self.list_extend(v, a[0])
        return K(None)

    def m_seq_copy(self, v, a, kw):
        return self.new_cell("list", self.payload(v))

    def m_seq_clear(self, v, a, kw):
        self.mutate(v, "replace", [], lambda: SeqP([]))
        return K(None)

    def m_seq_reverse(self, v, a, kw):
        p = self.cell(v).p
        q = self.rev_seq(p)
        self.mutate(v, "replace", [], lambda: q)
        return K(None)

    def m_seq_sort(self, v, a, kw):
        p = self.cell(v).p
        q = self.sort_seq(p, kw)
        self.mutate(v, "replace", [], lambda: q)
        return K(None)

    def m_seq_insert(self, v, a, kw):
        p = self.cell(v).p
        if isinstance(a[0], K) and a[0].v == 0:
            self.mutate(v, "replace", [], lambda: self.seq_concat(SeqP([a[1]]), p))
            return K(None)
        if p.items is not None and isinstance(a[0], K):
            items = list(p.items)
            items.insert(a[0].v, a[1])
            self.mutate(v, "replace", [], lambda: SeqP(items))
            return K(None)
        raise Unsupported("list.insert")

    def m_seq_pop(self, v, a, kw):
        p = self.cell(v).p
        if p.items is not None and (not a or isinstance(a[0], K)):
            items = list(p.items)
            try:
                x = items.pop(*[y.v for y in a])
            except IndexError:
                raise PyRaise(ExcV("IndexError"))
            self.mutate(v, "replace", [], lambda: SeqP(items))
            return x
        if not self.decide(self.seq_len(p) > 0):
            raise PyRaise(ExcV("IndexError"))
        if not a:
            x = self.lift(p.ety, z3.simplify(z3.Select(p.arr, p.n - 1)))
            self.mutate(v, "replace", [], lambda: SeqP(None, p.ety, z3.simplify(p.n - 1), p.arr))
            return x
        if isinstance(a[0], K) and a[0].v == 0:
            x = self.lift(p.ety, z3.simplify(z3.Select(p.arr, 0)))
            q = self.mapped(p.n - 1, p.ety, lambda i: self.lift_raw(p.ety, z3.Select(p.arr, i + 1))).p
            self.mutate(v, "replace", [], lambda: q)
            return x
        raise Unsupported("list.pop(i)")

    def m_seq_popleft(self, v, a, kw):
        return self.m_seq_pop(v, [K(0)], kw)

    def m_seq_index(self, v, a, kw):
        p = self.payload(v)
        if p.items is not None:
            for i, x in enumerate(p.items):
                if self.decide(self.py_eq(x, a[0])):
                    return K(i)
            raise PyRaise(ExcV("ValueError"))
        t = self.coerce(a[0], p.ety)
        if not self.decide(self.seq_has(p, a[0])):
            raise PyRaise(ExcV("ValueError"))
        k = self.fresh("index", z3.IntSort())
        j = z3.Int(f"j!{self.bump()}")
        self.assume(z3.And(0 <= k, k < p.n, z3.Select(p.arr, k) == t))
        self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.Select(p.arr, j) != t)))
        return S(T.Int, k)

    def m_seq_count(self, v, a, kw):
        raise Unsupported("list.count")

    def m_seq_remove(self, v, a, kw):
        p = self.cell(v).p
        if p.items is not None:
            for i, x in enumerate(p.items):
                if self.decide(self.py_eq(x, a[0])):
                    items = p.items[:i] + p.items[i + 1:]
                    self.mutate(v, "replace", [], lambda: SeqP(items))
                    return K(None)
            raise PyRaise(ExcV("ValueError"))
        raise Unsupported("list.remove")

    # sets
    def m_set_add(self, v, a, kw):
        self.set_add(v, a[0])
        return K(None)

    def m_set_update(self, v, a, kw):
        for x in a:
            self.set_update(v, x)
        return K(None)

    def _setop(self, v, a, op):
        p = self.to_setp(v)
        for x in a:
            if isinstance(x, StarArg):
                if op != "|":
                    raise Unsupported("star set operation")
                p = self.set_op("|", p, self.to_setp(self.star_flat(x.v)))
            else:
                p = self.set_op(op, p, self.to_setp(x))
        return C("frozenset", p) if self.kind(v) == "frozenset" else self.new_cell("set", p)

    def star_flat(self, v):
        d = self.iter_dom(v)
        x = z3.Const(f"v!{self.bump()}", d.sort)
        el = d.elem(x)
        p = self.to_setp(el)
        if p.items is not None:
            return C("set", self.set_of_contribs([Contribution([x], d.guard(x), i, False) for i in p.items]))
        y = z3.Const(f"x!{self.bump()}", sort_of(p.ety))
        return C("set", self.set_of_contribs([Contribution([x, y], z3.And(d.guard(x), z3.Select(p.arr, y)), self.lift_raw(p.ety, y), False)]))

    def m_set_union(self, v, a, kw):
        return self._setop(v, a, "|")

    def m_set_intersection(self, v, a, kw):
        return self._setop(v, a, "&")

    def m_set_difference(self, v, a, kw):
        return self._setop(v, a, "-")

    def m_set_symmetric_difference(self, v, a, kw):
        return self._setop(v, a, "^")

    def m_set_issubset(self, v, a, kw):
        return self.b(self.subset(self.to_setp(v), self.to_setp(a[0])))

    def m_set_issuperset(self, v, a, kw):
        return self.b(self.subset(self.to_setp(a[0]), self.to_setp(v)))

    def m_set_isdisjoint(self, v, a, kw):
        return self.b(self.disjoint(self.to_setp(v), self.to_setp(a[0])))

    def m_set_copy(self, v, a, kw):
        return self._mk(self.kind(v) if self.kind(v) != "dict_keys" else "set", self.to_setp(v))

    def m_set_discard(self, v, a, kw):
        p = self.cell(v).p
        self.mutate(v, "replace", [], lambda: self.set_op("-", p, SetP([a[0]])))
        return K(None)

    def m_set_remove(self, v, a, kw):
        p = self.cell(v).p
        if not self.decide(self.set_has(p, a[0])):
            raise PyRaise(ExcV("KeyError"))
        return self.m_set_discard(v, a, kw)

    def m_set_clear(self, v, a, kw):
        self.mutate(v, "replace", [], lambda: SetP([]))
        return K(None)

    def m_set_pop(self, v, a, kw):
        p = self.cell(v).p
        if not self.decide(self.nonempty(p)):
            raise PyRaise(ExcV("KeyError"))
        if p.items is not None and len(p.items) == 1:
            self.mutate(v, "replace", [], lambda: SetP([]))
            return p.items[0]
        ety = p.ety if p.items is None else self.elem_ty(p.items)
        arr = self.set_term(p, ety)
        x = self.fresh("popped", sort_of(ety))
        self.assume(z3.Select(arr, x))
        self.mutate(v, "replace", [], lambda: SetP(None, ety, z3.Store(arr, x, False)))
        return self.lift(ety, x)

    def m_set_intersection_update(self, v, a, kw):
        p = self.cell(v).p
        q = self.set_op("&", p, self.to_setp(a[0]))
        self.mutate(v, "replace", [], lambda: q)
        return K(None)

    def m_set_difference_update(self, v, a, kw):
        p = self.cell(v).p
        q = self.set_op("-", p, self.to_setp(a[0]))
        self.mutate(v, "replace", [], lambda: q)
        return K(None)

    # dicts
    def m_map_get(self, v, a, kw):
        d = a[1] if len(a) > 1 else kw.get("default", K(None))
        p = self.payload(v)
        k = a[0]
        self.hashable_key(k)
        if self.decide(self.map_has(p, self.exp1(k))):
            return self.map_get(p, self.exp1(k))
        return d

    def hashable_key(self, k):
        if self.spec_depth:
            return
        if isinstance(k, (Loc, C)) and self.kind(k) in ("list", "set", "dict"):
            raise PyRaise(ExcV("TypeError"), "unhashable key")

    def m_map_items(self, v, a, kw):
        return C("dict_items", self.payload(v))

    def m_map_keys(self, v, a, kw):
        return C("dict_keys", self.payload(v))

    def m_map_values(self, v, a, kw):
        return C("dict_values", self.payload(v))

    def m_map_copy(self, v, a, kw):
        return self.new_cell("dict", self.payload(v))

    def m_map_update(self, v, a, kw):
        if a:
            self.dict_update(v, self.resolve(a[0]))
        for k, x in kw.items():
            self.set_item(v, K(k), x)
        return K(None)

    def m_map_setdefault(self, v, a, kw):
        p = self.cell(v).p
        d = a[1] if len(a) > 1 else K(None)
        if self.decide(self.map_has(p, a[0])):
            return self.map_get(p, a[0])
        self.set_item(v, a[0], d)
        return d

    def m_map_pop(self, v, a, kw):
        p = self.cell(v).p
        if self.decide(self.map_has(p, a[0])):
            x = self.map_get(p, a[0])
            self.mutate(v, "replace", [], lambda: self.map_remove(p, a[0]))
            return x
        if len(a) > 1:
            return a[1]
        raise PyRaise(ExcV("KeyError"))

    def m_map_clear(self, v, a, kw):
        self.mutate(v, "replace", [], lambda: MapP([]))
        return K(None)


def _is_st(a):
    return z3.is_app(a) and a.decl().kind() in (z3.Z3_OP_STORE, z3.Z3_OP_CONST_ARRAY)
