"""C12: clauses that hold a list of parts say what they were built from, and are equal iff they say the same."""
from pydv.api import *
from contracts.model import *


QAL = "postbound.qal._qal"
use(QAL, "Select", "OrderBy", "CommonTableExpression", "From", "Where", "BaseProjection", "WithQuery", "TableSource", "OrderByExpression")
P = ("C12",)
Expr = Ref("PwExpr", [f"{QAL}:SqlExpression"], eq="term", opaque=True, truthy=True, gen=part_gen("expr"))
Prj = Ref("PwProjection", [f"{QAL}:BaseProjection"], eq="term", opaque=True, truthy=True, gen=part_gen("projection"))
Ord = Ref("PwOrder", [f"{QAL}:OrderByExpression"], eq="term", opaque=True, truthy=True, gen=part_gen("orderexpr"))
Wth = Ref("PwWith", [f"{QAL}:WithQuery"], eq="term", opaque=True, truthy=True, gen=part_gen("with"))
Src = Ref("PwSource", [f"{QAL}:TableSource"], eq="term", opaque=True, truthy=True, gen=part_gen("source"))
Pred = Ref("PwPred", [f"{QAL}:AbstractPredicate"], eq="term", opaque=True, truthy=True, gen=part_gen("pred"))


class SelectValue(Lemma):
    props = P
    params = {"p1": Seq(Prj, "tuple", 1), "d1": Bool, "p2": Seq(Prj, "tuple", 1), "d2": Bool}
    gen = pair_gen(p="projections", d="bool")

    def lemma(p1, d1, p2, d2):
        x, y = Select(p1, distinct=d1), Select(p2, distinct=d2)
        alike = p1 == p2 and d1 == d2
        return same(x.targets, p1) and x.is_distinct() == d1 and x.distinct_specifier() == d1 and x.distinct_on == () \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class DistinctOnValue(Lemma):
    props = P
    params = {"p1": Seq(Prj, "tuple", 1), "d1": Seq(Expr, "tuple", 1), "p2": Seq(Prj, "tuple", 1), "d2": Seq(Expr, "tuple", 1)}
    gen = pair_gen(p="projections", d="exprs1")

    def lemma(p1, d1, p2, d2):
        x, y = Select(p1, distinct=d1), Select(p2, distinct=d2)
        alike = p1 == p2 and d1 == d2
        return same(x.targets, p1) and x.is_distinct() and same(x.distinct_on, d1) and same(x.distinct_specifier(), d1) \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class OrderByClauseValue(Lemma):
    props = P
    params = {"o1": Seq(Ord, "tuple", 1), "o2": Seq(Ord, "tuple", 1)}
    gen = pair_gen(o="orderexprs")

    def lemma(o1, o2):
        x, y = OrderBy(o1), OrderBy(o2)
        alike = o1 == o2
        return same(x.expressions, o1) \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class CteValue(Lemma):
    props = P
    params = {"w1": Seq(Wth, "tuple", 1), "r1": Bool, "w2": Seq(Wth, "tuple", 1), "r2": Bool}
    gen = pair_gen(w="withs", r="bool")

    def lemma(w1, r1, w2, r2):
        x, y = CommonTableExpression(w1, recursive=r1), CommonTableExpression(w2, recursive=r2)
        alike = w1 == w2 and r1 == r2
        return same(x.queries, w1) and x.recursive == r1 \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class FromValue(Lemma):
    props = P
    params = {"s1": Seq(Src, "tuple", 1), "s2": Seq(Src, "tuple", 1)}
    gen = pair_gen(s="sources")

    def lemma(s1, s2):
        x, y = From(s1), From(s2)
        alike = s1 == s2
        return same(x.items, s1) \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class DistinctKinds(Lemma):
    """DISTINCT, DISTINCT ON and neither of them are different"""
    props = P
    params = {"p1": Seq(Prj, "tuple", 1), "d1": Seq(Expr, "tuple", 1), "p2": Seq(Prj, "tuple", 1), "d2": Seq(Expr, "tuple", 1)}
    gen = pair_gen(p="projections", d="exprs1")

    def lemma(p1, d1, p2, d2):
        on, every, no = Select(p1, distinct=d1), Select(p2, distinct=True), Select(p2, distinct=False)
        return on != every and every != on and on != no and no != on and every != no and no == Select(p2) and not (no == every)


class EmptyClauses(Lemma):
    """a clause needs content"""
    props = P
    params = {"e": Bool}

    def lemma(e):
        try:
            Select(())
            s = False
        except ValueError:
            s = True
        try:
            OrderBy(())
            o = False
        except ValueError:
            o = True
        try:
            CommonTableExpression((), recursive=e)
            c = False
        except ValueError:
            c = True
        try:
            From(())
            f = False
        except ValueError:
            f = True
        return s and o and c and f


class ClauseKinds(Lemma):
    """clauses of different kinds are never equal"""
    props = P
    params = {"p": Seq(Prj, "tuple", 1), "o": Seq(Ord, "tuple", 1), "w": Seq(Wth, "tuple", 1), "s": Seq(Src, "tuple", 1), "c": Pred}

    def lemma(p, o, w, s, c):
        a, b, d, e, f = Select(p), OrderBy(o), CommonTableExpression(w), From(s), Where(c)
        return a != b and b != a and a != d and d != a and a != e and e != a and b != d and d != b and b != e and e != b and d != e and e != d and f != a and a != f and f != e and e != f \
            and a != None and b != None and d != None and e != None and f != None
