"""Symbolic values of the engine."""
from __future__ import annotations


class SV:
    __slots__ = ()


class K(SV):
    """python constant"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"K({self.v!r})"


class S(SV):
    """typed solver term"""
    __slots__ = ("ty", "t", "inv_done")

    def __init__(self, ty, t):
        self.ty, self.t = ty, t

    def __repr__(self):
        return f"S({self.ty}:{self.t})"


class En(SV):
    """enum member constant"""
    __slots__ = ("ci", "m", "val")

    def __init__(self, ci, m, val):
        self.ci, self.m, self.val = ci, m, val

    def __repr__(self):
        return f"{self.ci.name}.{self.m}"


class Tup(SV):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return f"Tup{self.items}"


class C(SV):
    """immutable / shared container value"""
    __slots__ = ("kind", "p")

    def __init__(self, kind, p):
        self.kind, self.p = kind, p

    def __repr__(self):
        return f"C({self.kind},{self.p})"


class Loc(SV):
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __repr__(self):
        return f"Loc({self.id})"


class ClassV(SV):
    __slots__ = ("ci",)

    def __init__(self, ci):
        self.ci = ci

    def __repr__(self):
        return f"ClassV({self.ci.name})"


class ExtV(SV):
    """external name: builtin, library function, exception class ..."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"ExtV({self.name})"


class ModV(SV):
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m


class FuncV(SV):
    __slots__ = ("fi", "recv", "closure", "bound")

    def __init__(self, fi, recv=None, closure=None, bound=False):
        self.fi, self.recv, self.closure, self.bound = fi, recv, closure, bound

    def __repr__(self):
        return f"FuncV({self.fi.full})"


class BM(SV):
    """bound method of a builtin container / string"""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class LamV(SV):
    __slots__ = ("node", "frame")

    def __init__(self, node, frame):
        self.node, self.frame = node, frame


class SpecV(SV):
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class TypeOf(SV):
    __slots__ = ("sv",)

    def __init__(self, sv):
        self.sv = sv


class SuperV(SV):
    __slots__ = ("ci", "recv")

    def __init__(self, ci, recv):
        self.ci, self.recv = ci, recv


class PyFn(SV):
    """engine-implemented callable"""
    __slots__ = ("fn", "name")

    def __init__(self, fn, name=""):
        self.fn, self.name = fn, name


class Poison(SV):
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why


class ExcV(SV):
    """exception instance"""
    __slots__ = ("cls", "args")

    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args


class GenDom(SV):
    """lazy comprehension result: list of contributions; see engine.contribs"""
    __slots__ = ("contribs", "ordered")

    def __init__(self, contribs, ordered):
        self.contribs, self.ordered = contribs, ordered


class ProdV(SV):
    """itertools.product(...): nested iteration"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts


# payloads ---------------------------------------------------------------------------------------------------------
class SeqP:
    __slots__ = ("items", "ety", "n", "arr", "contribs")

    def __init__(self, items=None, ety=None, n=None, arr=None):
        self.items, self.ety, self.n, self.arr = items, ety, n, arr
        self.contribs = None

    def __repr__(self):
        return f"SeqP({self.items if self.items is not None else (self.ety, self.n, self.arr)})"


class SetP:
    __slots__ = ("items", "ety", "arr")

    def __init__(self, items=None, ety=None, arr=None):
        self.items, self.ety, self.arr = items, ety, arr

    def __repr__(self):
        return f"SetP({self.items if self.items is not None else (self.ety, self.arr)})"


class MapP:
    __slots__ = ("entries", "kty", "vty", "dom", "val", "default")

    def __init__(self, entries=None, kty=None, vty=None, dom=None, val=None, default=None):
        self.entries, self.kty, self.vty, self.dom, self.val = entries, kty, vty, dom, val
        self.default = default

    def __repr__(self):
        return f"MapP({self.entries if self.entries is not None else (self.kty, self.vty, self.dom)})"


class ObjP:
    __slots__ = ("ci", "fields", "ty")

    def __init__(self, ci, fields, ty=None):
        self.ci, self.fields, self.ty = ci, fields, ty

    def __repr__(self):
        return f"ObjP({self.ci.name},{self.fields})"


class Cell:
    __slots__ = ("kind", "p")

    def __init__(self, kind, p):
        self.kind, self.p = kind, p

    def __repr__(self):
        return f"Cell({self.kind},{self.p})"


# control flow -------------------------------------------------------------------------------------------------------
class Infeasible(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class PyRaise(Exception):
    """the program under verification raises"""

    def __init__(self, exc, where=""):
        self.exc, self.where = exc, where
