"""Specification types.  Pure Python (no z3 import): the same type objects drive the symbolic engine
(which maps them to z3 sorts) and the concrete generators of the runtime-contract search."""


class Ty:
    def __repr__(self):
        return self.name

    def __eq__(self, other):
        return isinstance(other, Ty) and self.name == other.name

    def __hash__(self):
        return hash(self.name)


class Prim(Ty):
    def __init__(self, name):
        self.name = name


Bool = Prim("Bool")
Int = Prim("Int")
Flt = Prim("Flt")      # python float: extended reals with nan
Str = Prim("Str")
NoneT = Prim("NoneT")
Any = Prim("Any")      # an object nothing is known about (identity only)


class Opt(Ty):
    def __init__(self, t):
        self.t = t
        self.name = f"Opt[{t.name}]"


class Set(Ty):
    def __init__(self, t, kind="frozenset"):
        self.t, self.kind = t, kind
        self.name = f"Set[{t.name}]"


class Seq(Ty):
    def __init__(self, t, kind="list", minlen=0):
        self.t, self.kind, self.minlen = t, kind, minlen
        self.name = f"Seq[{t.name}]"


class Map(Ty):
    def __init__(self, k, v):
        self.k, self.v = k, v
        self.name = f"Map[{k.name},{v.name}]"


class TupT(Ty):
    def __init__(self, *ts):
        self.ts = ts
        self.name = "Tup[" + ",".join(t.name for t in ts) + "]"


class EnumT(Ty):
    """A closed set of enum members, possibly of several python Enum classes: [(class qualname, member)]"""

    def __init__(self, name, classes):
        self.name = name
        self.classes = classes          # list of "module:Class"
        self.members = None             # resolved lazily: list of (clsqual, member, value)


class TypeTag(Ty):
    """The class of an object of a family."""

    def __init__(self, ref):
        self.ref = ref
        self.name = f"TypeOf[{ref.name}]"


class Ref(Ty):
    """Objects of an immutable class (family): uninterpreted sort with one function per declared field."""

    def __init__(self, name, classes=(), fields=None, eq="term", gen=None, attrs=None, truthy=None, opaque=False):
        self.name = name
        self.classes = list(classes)        # "module:Class" – concrete classes of the family (first is root)
        self.fields = dict(fields or {})    # attribute -> Ty (attribute as written in the class)
        self.eq = eq                        # 'term': python == is equality of terms; 'code': run __eq__
        self.gen = gen                      # concrete generator: gen(rng, size) -> object
        self.truthy = truthy
        self.attrs = dict(attrs or {})      # assumed observers: name or 'name()' -> Ty
        self.opaque = opaque
        self.unfold_inv = None


class Obj(Ty):
    """A mutable object of a known class; lives on the symbolic heap."""

    def __init__(self, name, cls, fields, gen=None, consts=None):
        self.name = name
        self.cls = cls
        self.fields = fields
        self.gen = gen
        self.consts = consts or {}


class Const(Ty):
    """A fixed python constant as parameter."""

    def __init__(self, value):
        self.value = value
        self.name = f"Const[{value!r}]"


class EnumMember(Ty):
    def __init__(self, enumty, cls, member):
        self.e, self.cls, self.member = enumty, cls, member
        self.name = f"Member[{cls}.{member}]"


class Missing(Ty):
    """Parameter not passed (its default applies)."""
    name = "Missing"


MISSING = Missing()


class ClassArg(Ty):
    """A class object passed as parameter."""

    def __init__(self, qual):
        self.qual = qual
        self.name = f"Class[{qual}]"


class Func(Ty):
    """An opaque pure callable: args types -> result type."""

    def __init__(self, name, args, ret, gen=None):
        self.name, self.args, self.ret, self.gen = name, args, ret, gen


class KwDict(Ty):
    """**kwargs style: concrete-key dict"""

    def __init__(self, **items):
        self.items = items
        self.name = "Kw[" + ",".join(f"{k}:{v.name}" for k, v in items.items()) + "]"
