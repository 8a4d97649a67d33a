"""C03: cardinalities behave like the numbers they wrap, including the unknown and the infinite one."""
import math
from pydv.api import *
from contracts.model import CORE, _card

use(CORE, "Cardinality")
CC = f"{CORE}:Cardinality"
P = ("C03",)

CardV = Ref("CardV", [CC], fields={"_nan": Bool, "_inf": Bool, "_valid": Bool, "_value": Int}, eq="struct", gen=_card)


@invariant(CardV)
def canonical(c):
    return c._valid == (not c._nan and not c._inf) and not (c._nan and c._inf) and (c._valid or c._value == -1)


def holds(c, x):
    """c wraps the number x, rounded to an integer"""
    return c.isnan() == is_nan(x) and c.isinf() == math.isinf(x) and c.is_valid() == (not is_nan(x) and not math.isinf(x)) \
        and (c.value == round(x) if c.is_valid() else True)


def lt(x, y):
    return x < y


class CardInitInt(Contract):
    target = f"{CC}.__init__"
    props = P
    params = {"self": Obj("NewCard", CC, {}), "value": Int}
    modifies = ["self"]
    returns = NoneT
    use_at_calls = False

    def ensures(self, value):
        return self.is_valid() and not self.isnan() and not self.isinf() and not self.is_unknown() and self.value == value


class CardInitFloat(Contract):
    target = f"{CC}.__init__"
    props = P
    params = {"self": Obj("NewCard", CC, {}), "value": Flt}
    modifies = ["self"]
    returns = NoneT
    use_at_calls = False

    def ensures(self, value):
        return holds(self, value)


class OfNumber(Contract):
    target = f"{CC}.of"
    props = P
    params = {"value": Int}
    returns = CardV
    use_at_calls = False

    def ensures(value, result):
        return holds(result, value)


class OfCard(Contract):
    target = f"{CC}.of"
    props = P
    params = {"value": CardV}
    returns = CardV
    use_at_calls = False

    def ensures(value, result):
        return result is value


class Unknown(Lemma):
    props = P
    params = {}

    def lemma():
        return Cardinality.unknown().isnan() and Cardinality.unknown().is_unknown() and not Cardinality.unknown().is_valid() \
            and not Cardinality.unknown().isinf() and Cardinality.infinite().isinf() and not Cardinality.infinite().isnan() \
            and not Cardinality.infinite().is_valid()


class Get(Contract):
    target = f"{CC}.get"
    props = P
    params = {"self": CardV}
    returns = Flt
    use_at_calls = False

    def ensures(self, result):
        return is_nan(result) == self.isnan() and math.isinf(result) == self.isinf() and (result == self.value if self.is_valid() else True)

    def ensures_positive_inf(self, result):
        return implies(self.isinf(), result > 0)


class Value(Contract):
    target = f"{CC}.value"
    props = P
    params = {"self": CardV}
    returns = Int
    raises = {"StateError": "invalid"}
    use_at_calls = False

    def invalid(self):
        return not self.is_valid()


class ToInt(Contract):
    target = f"{CC}.__int__"
    props = P
    params = {"self": CardV}
    returns = Int
    raises = {"StateError": "invalid"}
    use_at_calls = False

    def invalid(self):
        return not self.is_valid()

    def ensures(self, result):
        return result == self.value


class Truth(Contract):
    target = f"{CC}.__bool__"
    props = P
    params = {"self": CardV}
    returns = Bool
    use_at_calls = False

    def ensures(self, result):
        return result == self.is_valid()


# -- equality and order ---------------------------------------------------------------------------------------------------

def same_number(a, b):
    return (a.isnan() and b.isnan()) or a.get() == b.get()


class EqCard(Contract):
    target = f"{CC}.__eq__"
    props = P
    params = {"self": CardV, "other": CardV}
    returns = Bool
    use_at_calls = False

    def ensures(self, other, result):
        return result == ((self.isnan() and other.isnan()) or (self.isinf() and other.isinf())
                          or (self.is_valid() and other.is_valid() and self._value == other._value))


class EqInt(Contract):
    target = f"{CC}.__eq__"
    props = P
    params = {"self": CardV, "other": Int}
    returns = Bool
    use_at_calls = False

    def ensures(self, other, result):
        return result == (self.is_valid() and self._value == other)


class EqFloat(Contract):
    target = f"{CC}.__eq__"
    props = P
    params = {"self": CardV, "other": Flt}
    returns = Bool
    use_at_calls = False

    def requires(other):
        return other != -math.inf

    def ensures(self, other, result):
        return result == ((self.isnan() and is_nan(other)) or self.get() == other)


class HashCard(Lemma):
    props = P
    params = {"a": CardV, "b": CardV}

    def lemma(a, b):
        return implies(a == b, hash(a) == hash(b))


class HashInt(Lemma):
    props = P
    params = {"a": CardV, "n": Int}

    def lemma(a, n):
        return implies(a == n, hash(a) == hash(n))


class LtCard(Contract):
    target = f"{CC}.__lt__"
    props = P
    params = {"self": CardV, "other": CardV}
    returns = Bool
    use_at_calls = False

    def ensures(self, other, result):
        return result == (self.get() < other.get())


class LeCard(Contract):
    target = f"{CC}.__le__"
    props = P
    params = {"self": CardV, "other": CardV}
    returns = Bool
    use_at_calls = False

    def ensures(self, other, result):
        return result == (self.get() <= other.get())


class GtCard(Contract):
    target = f"{CC}.__gt__"
    props = P
    params = {"self": CardV, "other": CardV}
    returns = Bool
    use_at_calls = False

    def ensures(self, other, result):
        return result == (self.get() > other.get())


class GeCard(Contract):
    target = f"{CC}.__ge__"
    props = P
    params = {"self": CardV, "other": CardV}
    returns = Bool
    use_at_calls = False

    def ensures(self, other, result):
        return result == (self.get() >= other.get())


class LtNum(Contract):
    target = f"{CC}.__lt__"
    props = P
    params = {"self": CardV, "other": Flt}
    returns = Bool
    use_at_calls = False

    def ensures(self, other, result):
        return result == (self.get() < other)


class LeNum(Contract):
    target = f"{CC}.__le__"
    props = P
    params = {"self": CardV, "other": Int}
    returns = Bool
    use_at_calls = False

    def ensures(self, other, result):
        return result == (self.get() <= other)


class GtNum(Contract):
    target = f"{CC}.__gt__"
    props = P
    params = {"self": CardV, "other": Int}
    returns = Bool
    use_at_calls = False

    def ensures(self, other, result):
        return result == (self.get() > other)


class GeNum(Contract):
    target = f"{CC}.__ge__"
    props = P
    params = {"self": CardV, "other": Flt}
    returns = Bool
    use_at_calls = False

    def ensures(self, other, result):
        return result == (self.get() >= other)


class TotalOrder(Lemma):
    props = P
    params = {"a": CardV, "b": CardV, "c": CardV}

    def lemma(a, b, c):
        return implies(not a.isnan() and not b.isnan() and not c.isnan(),
                       (a < b or b < a or a == b) and not (a < b and b < a) and implies(a < b and b < c, a < c)
                       and (a <= b) == (a < b or a == b) and (a >= b) == (b <= a))


# -- arithmetic -----------------------------------------------------------------------------------------------------------

class AddCard(Contract):
    target = f"{CC}.__add__"
    props = P
    params = {"self": CardV, "other": CardV}
    returns = CardV
    use_at_calls = False

    def ensures(self, other, result):
        return holds(result, self.get() + other.get())


class AddNum(Contract):
    target = f"{CC}.__add__"
    verify = [f"{CC}.__add__", f"{CC}.__radd__"]
    props = P
    params = {"self": CardV, "other": Flt}
    returns = CardV
    use_at_calls = False

    def ensures(self, other, result):
        return holds(result, self.get() + other)


class SubCard(Contract):
    target = f"{CC}.__sub__"
    props = P
    params = {"self": CardV, "other": CardV}
    returns = CardV
    use_at_calls = False

    def ensures(self, other, result):
        return holds(result, self.get() - other.get())


class SubNum(Contract):
    target = f"{CC}.__sub__"
    props = P
    params = {"self": CardV, "other": Flt}
    returns = CardV
    use_at_calls = False

    def ensures(self, other, result):
        return holds(result, self.get() - other)


class RSubNum(Contract):
    target = f"{CC}.__rsub__"
    props = P
    params = {"self": CardV, "other": Flt}
    returns = CardV
    use_at_calls = False

    def ensures(self, other, result):
        return holds(result, other - self.get())


class MulCard(Contract):
    target = f"{CC}.__mul__"
    props = P
    params = {"self": CardV, "other": CardV}
    returns = CardV
    use_at_calls = False

    def ensures(self, other, result):
        return holds(result, self.get() * other.get())


class MulNum(Contract):
    target = f"{CC}.__mul__"
    verify = [f"{CC}.__mul__", f"{CC}.__rmul__"]
    props = P
    params = {"self": CardV, "other": Flt}
    returns = CardV
    use_at_calls = False

    def ensures(self, other, result):
        return holds(result, self.get() * other)


class DivCard(Contract):
    target = f"{CC}.__truediv__"
    props = P
    params = {"self": CardV, "other": CardV}
    returns = CardV
    raises = {"ZeroDivisionError": "zero"}
    use_at_calls = False

    def zero(other):
        return other.is_valid() and other.value == 0

    def ensures(self, other, result):
        return holds(result, self.get() / other.get())


class DivNum(Contract):
    target = f"{CC}.__truediv__"
    props = P
    params = {"self": CardV, "other": Flt}
    returns = CardV
    raises = {"ZeroDivisionError": "zero"}
    use_at_calls = False

    def zero(other):
        return other == 0

    def ensures(self, other, result):
        return holds(result, self.get() / other)


class RDivNum(Contract):
    target = f"{CC}.__rtruediv__"
    props = P
    params = {"self": CardV, "other": Flt}
    returns = CardV
    raises = {"ZeroDivisionError": "zero"}
    use_at_calls = False

    def zero(self):
        return self.is_valid() and self.value == 0

    def ensures(self, other, result):
        return holds(result, other / self.get())


class UnknownAbsorbs(Lemma):
    props = P
    params = {"a": CardV}

    def lemma(a):
        u = Cardinality.unknown()
        return (a + u).isnan() and (u + a).isnan() and (a - u).isnan() and (a * u).isnan() and (u * a).isnan() and (u / 2).isnan()


class IntDivision(Contract):
    target = f"{CC}.__floordiv__"
    props = P
    params = {"self": CardV, "other": Int}
    returns = CardV
    use_at_calls = False

    def requires(self, other):
        return other > 0

    def ensures(self, other, result):
        return result.value == self.value // other if self.is_valid() else result.isnan()


class Modulo(Contract):
    target = f"{CC}.__mod__"
    props = P
    params = {"self": CardV, "other": Int}
    returns = CardV
    use_at_calls = False

    def requires(self, other):
        return other > 0

    def ensures(self, other, result):
        return result.value == self.value % other if self.is_valid() else result.isnan()


class ModuloCard(Contract):
    target = f"{CC}.__mod__"
    props = P
    params = {"self": CardV, "other": CardV}
    returns = CardV
    raises = {"ZeroDivisionError": "zero"}
    use_at_calls = False

    def zero(self, other):
        return self.is_valid() and other.is_valid() and other.value == 0

    def ensures(self, other, result):
        if not self.is_valid() or other.isnan():
            return result.isnan()
        if other.isinf():
            return same(result, self)
        return result.value == self.value % other.value


class Powers(Contract):
    target = f"{CC}.__pow__"
    props = P
    params = {"self": CardV, "other": Int}
    returns = CardV
    bounded = True
    note = "exponentiation (floating point)"

    def requires(self, other):
        return 0 <= other <= 4

    def ensures(self, other, result):
        return holds(result, self.get() ** other)


class Unary(Lemma):
    props = P
    params = {"a": CardV}

    def lemma(a):
        return same(abs(a), a) and same(round(a), a) and same(math.floor(a), a) and same(math.ceil(a), a) and same(math.trunc(a), a)


class RMod(Contract):
    target = f"{CC}.__rmod__"
    props = P
    params = {"self": CardV, "other": Int}
    returns = CardV
    raises = {"ZeroDivisionError": "zero"}
    use_at_calls = False

    def requires(self, other):
        return other >= 0 and (not self.is_valid() or self.value >= 0)

    def zero(self):
        return self.is_valid() and self.value == 0

    def ensures(self, other, result):
        if self.isnan():
            return result.isnan()
        if self.isinf():
            return result.value == other
        return result.value == other % self.value


class RModSpecial(Contract):
    target = f"{CC}.__rmod__"
    props = P
    params = {"self": CardV, "other": Flt}
    returns = CardV
    use_at_calls = False

    def requires(self, other):
        return math.isnan(other) or math.isinf(other)

    def ensures(result):
        return result.isnan()


class DivModCard(Contract):
    target = f"{CC}.__divmod__"
    props = P
    params = {"self": CardV, "other": CardV}
    raises = {"ZeroDivisionError": "zero"}
    use_at_calls = False

    def requires(self, other):
        return (not self.is_valid() or self.value >= 0) and (not other.is_valid() or other.value >= 0)

    def zero(self, other):
        return self.is_valid() and other.is_valid() and other.value == 0

    def ensures(self, other, result):
        q, r = result
        if not self.is_valid() or other.isnan():
            return math.isnan(q) and math.isnan(r)
        if other.isinf():
            return q == 0 and r == self.value
        return q == self.value // other.value and r == self.value % other.value


class DivModNum(Contract):
    target = f"{CC}.__divmod__"
    props = P
    params = {"self": CardV, "other": Int}
    raises = {"ZeroDivisionError": "zero"}
    use_at_calls = False

    def requires(self, other):
        return other >= 0

    def zero(self, other):
        return self.is_valid() and other == 0

    def ensures(self, other, result):
        q, r = result
        if not self.is_valid():
            return math.isnan(q) and math.isnan(r)
        return q == self.value // other and r == self.value % other


class RDivMod(Contract):
    target = f"{CC}.__rdivmod__"
    props = P
    params = {"self": CardV, "other": Int}
    raises = {"ZeroDivisionError": "zero"}
    use_at_calls = False

    def requires(self, other):
        return other >= 0 and (not self.is_valid() or self.value >= 0)

    def zero(self):
        return self.is_valid() and self.value == 0

    def ensures(self, other, result):
        q, r = result
        if self.isnan():
            return math.isnan(q) and math.isnan(r)
        if self.isinf():
            return q == 0 and r == other
        return q == other // self.value and r == other % self.value


class RIntDivision(Contract):
    target = f"{CC}.__rfloordiv__"
    props = P
    params = {"self": CardV, "other": Int}
    returns = CardV
    raises = {"ZeroDivisionError": "zero"}
    use_at_calls = False

    def requires(self, other):
        return other >= 0 and (not self.is_valid() or self.value >= 0)

    def zero(self):
        return self.is_valid() and self.value == 0

    def ensures(self, other, result):
        if self.isnan():
            return result.isnan()
        if self.isinf():
            return result.value == 0
        return result.value == other // self.value


class IntDivisionCard(Contract):
    target = f"{CC}.__floordiv__"
    props = P
    params = {"self": CardV, "other": CardV}
    returns = CardV
    raises = {"ZeroDivisionError": "zero"}
    use_at_calls = False

    def requires(self, other):
        return (not self.is_valid() or self.value >= 0) and (not other.is_valid() or other.value >= 0)

    def zero(self, other):
        return self.is_valid() and other.is_valid() and other.value == 0

    def ensures(self, other, result):
        if not self.is_valid() or other.isnan():
            return result.isnan()
        if other.isinf():
            return result.value == 0
        return result.value == self.value // other.value


class ReversedOperators(Lemma):
    props = P
    params = {"a": CardV, "n": Int}

    def lemma(a, n):
        return same(n + a, a + n) and same(n * a, a * n)


class RPowers(Contract):
    target = f"{CC}.__rpow__"
    props = P
    params = {"self": CardV, "other": Int}
    returns = CardV
    bounded = True
    note = "exponentiation (floating point)"

    def requires(self, other):
        return 0 <= other <= 4 and (not self.is_valid() or self.value <= 10)

    def ensures(self, other, result):
        return holds(result, other ** self.get())


class Conversions(Lemma):
    props = P
    params = {"a": CardV}

    def lemma(a):
        return math.isnan(float(a)) == a.isnan() and math.isinf(float(a)) == a.isinf() and (float(a) == a.value if a.is_valid() else True)


class Texts(Lemma):
    props = P
    params = {"a": CardV}
    bounded = True
    note = "text and json forms, complex numbers"

    def lemma(a):
        return same(float(str(a)), a.get()) and same(a.__json__(), a.get()) and same(complex(a).real, a.get()) and complex(a).imag == 0
