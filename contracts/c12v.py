"""C12: the parts of a query say what they were built from, and are equal iff they say the same."""
from pydv.api import *
from contracts.model import *

QAL = "postbound.qal._qal"
use(QAL, "OrderByExpression", "BaseProjection", "WithQuery", "GroupBy", "Limit", "Hint", "Explain", "Where", "Having", "DirectTableSource", "SubqueryTableSource", "ValuesTableSource", "FunctionTableSource",
    "JoinTableSource", "JoinType", "AutoJoins", "UnionClause", "IntersectClause", "ExceptClause", "SqlQuery", "From")
use(CORE, "TableReference")
P = ("C12",)


Tab = Ref("PvTable", [f"{CORE}:TableReference"], eq="term", opaque=True, truthy=True, gen=part_gen("table"))
Tab.attrs = {"make_virtual()": Tab}
Expr = Ref("PvExpr", [f"{QAL}:SqlExpression"], eq="term", opaque=True, truthy=True, gen=part_gen("expr"))
Fun = Ref("PvFun", [f"{QAL}:FunctionExpression"], eq="term", opaque=True, truthy=True, gen=part_gen("function"))
Pred = Ref("PvPred", [f"{QAL}:AbstractPredicate"], eq="term", opaque=True, truthy=True, gen=part_gen("pred"))
Qry = Ref("PvQuery", [f"{QAL}:SqlQuery"], eq="term", opaque=True, truthy=True, gen=part_gen("query"))
Src = Ref("PvSource", [f"{QAL}:TableSource"], eq="term", opaque=True, truthy=True, gen=part_gen("source"))
JType = EnumT("PvJoinType", [f"{QAL}:JoinType"])


class OrderByValue(Lemma):
    props = P
    params = {"c1": Expr, "a1": Opt(Bool), "n1": Opt(Bool), "c2": Expr, "a2": Opt(Bool), "n2": Opt(Bool)}
    gen = pair_gen(c="expr", a="optbool", n="optbool")

    def lemma(c1, a1, n1, c2, a2, n2):
        x, y = OrderByExpression(c1, a1, n1), OrderByExpression(c2, a2, n2)
        alike = c1 == c2 and a1 == a2 and n1 == n2
        return same(x.column, c1) and x.ascending == a1 and x.nulls_first == n1 \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class ProjectionValue(Lemma):
    props = P
    params = {"e1": Expr, "n1": Str, "e2": Expr, "n2": Str}
    gen = pair_gen(e="expr", n="str")

    def lemma(e1, n1, e2, n2):
        x, y = BaseProjection(e1, n1), BaseProjection(e2, n2)
        alike = e1 == e2 and n1 == n2
        return same(x.expression, e1) and x.target_name == n1 \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class WithValue(Lemma):
    props = P
    params = {"q1": Qry, "n1": Str, "m1": Opt(Bool), "q2": Qry, "n2": Str, "m2": Opt(Bool)}
    gen = pair_gen(q="query", n="name", m="optbool")

    def requires(q1, n1, m1, q2, n2, m2):
        return n1 != "" and n2 != ""

    def lemma(q1, n1, m1, q2, n2, m2):
        x, y = WithQuery(q1, n1, materialized=m1), WithQuery(q2, n2, materialized=m2)
        alike = q1 == q2 and n1 == n2 and m1 == m2
        return same(x.query, q1) and x.target_name == n1 and x.materialized == m1 \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class GroupByValue(Lemma):
    props = P
    params = {"g1": Seq(Expr, "tuple", 1), "d1": Bool, "g2": Seq(Expr, "tuple", 1), "d2": Bool}
    gen = pair_gen(g="exprs1", d="bool")

    def lemma(g1, d1, g2, d2):
        x, y = GroupBy(g1, d1), GroupBy(g2, d2)
        alike = g1 == g2 and d1 == d2
        return same(x.group_columns, g1) and x.distinct == d1 \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class LimitValue(Lemma):
    props = P
    params = {"l1": Opt(Int), "o1": Opt(Int), "f1": Str, "l2": Opt(Int), "o2": Opt(Int), "f2": Str}
    gen = pair_gen(l="optint", o="optint", f="direction")

    def requires(l1, o1, f1, l2, o2, f2):
        return (l1 is not None or o1 is not None) and (l2 is not None or o2 is not None)

    def lemma(l1, o1, f1, l2, o2, f2):
        x, y = Limit(limit=l1, offset=o1, fetch_direction=f1), Limit(limit=l2, offset=o2, fetch_direction=f2)
        alike = l1 == l2 and o1 == o2 and f1 == f2
        return x.limit == l1 and x.offset == o1 and x.fetch_direction == f1 \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class HintValue(Lemma):
    props = P
    params = {"p1": Str, "h1": Str, "p2": Str, "h2": Str}
    gen = pair_gen(p="str", h="str")

    def lemma(p1, h1, p2, h2):
        x, y = Hint(p1, h1), Hint(p2, h2)
        alike = p1 == p2 and h1 == h2
        return x.preparatory_statements == p1 and x.query_hints == h1 \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class ExplainValue(Lemma):
    props = P
    params = {"a1": Bool, "f1": Str, "a2": Bool, "f2": Str}
    gen = pair_gen(a="bool", f="name")

    def requires(a1, f1, a2, f2):
        return f1 != "" and f2 != ""

    def lemma(a1, f1, a2, f2):
        x, y = Explain(a1, f1), Explain(a2, f2)
        alike = a1 == a2 and f1 == f2
        return x.analyze == a1 and x.target_format == f1 \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class WhereValue(Lemma):
    props = P
    params = {"p1": Pred, "p2": Pred}
    gen = pair_gen(p="pred")

    def lemma(p1, p2):
        x, y = Where(p1), Where(p2)
        alike = p1 == p2
        return same(x.predicate, p1) \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class HavingValue(Lemma):
    props = P
    params = {"p1": Pred, "p2": Pred}
    gen = pair_gen(p="pred")

    def lemma(p1, p2):
        x, y = Having(p1), Having(p2)
        alike = p1 == p2
        return same(x.condition, p1) \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class DirectValue(Lemma):
    props = P
    params = {"t1": Tab, "t2": Tab}
    gen = pair_gen(t="table")

    def lemma(t1, t2):
        x, y = DirectTableSource(t1), DirectTableSource(t2)
        alike = t1 == t2
        return same(x.table, t1) \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class SubqueryValue(Lemma):
    props = P
    params = {"q1": Qry, "n1": Str, "l1": Bool, "q2": Qry, "n2": Str, "l2": Bool}
    gen = pair_gen(q="query", n="str", l="bool")

    def lemma(q1, n1, l1, q2, n2, l2):
        x, y = SubqueryTableSource(q1, n1, lateral=l1), SubqueryTableSource(q2, n2, lateral=l2)
        alike = q1 == q2 and n1 == n2 and l1 == l2
        return same(x.query, q1) and x.target_name == n1 and x.lateral == l1 \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class ValuesValue(Lemma):
    props = P
    params = {"r1": Seq(TupT(Expr, Expr), "tuple"), "t1": Tab, "r2": Seq(TupT(Expr, Expr), "tuple"), "t2": Tab}
    gen = pair_gen(r="cases", t="table")

    def lemma(r1, t1, r2, t2):
        x, y = ValuesTableSource(r1, alias=t1), ValuesTableSource(r2, alias=t2)
        alike = r1 == r2 and t1 == t2
        return same(x.rows, r1) and same(x.table, t1) and x.cols == () \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class ValuesColumns(Lemma):
    """the columns of a VALUES list belong to its table, and matter for equality"""
    props = P
    params = {"r1": Seq(TupT(Expr, Expr), "tuple"), "t1": Tab, "c1": Seq(Str, "tuple"), "r2": Seq(TupT(Expr, Expr), "tuple"), "t2": Tab, "c2": Seq(Str, "tuple")}
    bounded = True
    gen = pair_gen(r="cases", t="table", c="names")

    def lemma(r1, t1, c1, r2, t2, c2):
        x, y = ValuesTableSource(r1, alias=t1, columns=c1), ValuesTableSource(r2, alias=t2, columns=c2)
        alike = r1 == r2 and t1 == t2 and c1 == c2
        return [c.name for c in x.cols] == list(c1) and all(c.table == t1 for c in x.cols) \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class FunctionSourceValue(Lemma):
    props = P
    params = {"f1": Fun, "t1": Tab, "f2": Fun, "t2": Tab}
    gen = pair_gen(f="function", t="table")

    def lemma(f1, t1, f2, t2):
        x, y = FunctionTableSource(f1, alias=t1), FunctionTableSource(f2, alias=t2)
        alike = f1 == f2 and t1.make_virtual() == t2.make_virtual()
        return same(x.function, f1) and x.target_table == t1.make_virtual() \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class PlainFunctionSource(Lemma):
    """a function without alias"""
    props = P
    params = {"f1": Fun, "t1": Tab, "f2": Fun, "t2": Tab}
    gen = pair_gen(f="function", t="table")

    def lemma(f1, t1, f2, t2):
        x, y, z = FunctionTableSource(f1), FunctionTableSource(f2), FunctionTableSource(f1, alias=t1)
        alike = f1 == f2
        return x.target_table is None and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y)) and x != z and z != x


class JoinSourceValue(Lemma):
    props = P
    params = {"l1": Src, "r1": Src, "c1": Opt(Pred), "t1": JType, "l2": Src, "r2": Src, "c2": Opt(Pred), "t2": JType}
    gen = pair_gen(l="source", r="source", c="optpred", t="jointype")

    def requires(l1, r1, c1, t1, l2, r2, c2, t2):
        return (c1 is not None or t1 in AutoJoins) and (c2 is not None or t2 in AutoJoins)

    def lemma(l1, r1, c1, t1, l2, r2, c2, t2):
        x, y = JoinTableSource(l1, r1, join_condition=c1, join_type=t1), JoinTableSource(l2, r2, join_condition=c2, join_type=t2)
        alike = l1 == l2 and r1 == r2 and c1 == c2 and t1 == t2
        return same(x.left, l1) and same(x.right, r1) and same(x.join_condition, c1) and same(x.join_type, t1) \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class UnionValue(Lemma):
    props = P
    params = {"l1": Qry, "r1": Qry, "a1": Bool, "l2": Qry, "r2": Qry, "a2": Bool}
    gen = pair_gen(l="query", r="query", a="bool")

    def lemma(l1, r1, a1, l2, r2, a2):
        x, y = UnionClause(l1, r1, union_all=a1), UnionClause(l2, r2, union_all=a2)
        alike = l1 == l2 and r1 == r2 and a1 == a2
        return same(x.left_query, l1) and same(x.right_query, r1) and x.is_union_all() == a1 \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class IntersectValue(Lemma):
    props = P
    params = {"l1": Qry, "r1": Qry, "l2": Qry, "r2": Qry}
    gen = pair_gen(l="query", r="query")

    def lemma(l1, r1, l2, r2):
        x, y = IntersectClause(l1, r1), IntersectClause(l2, r2)
        alike = l1 == l2 and r1 == r2
        return same(x.left_query, l1) and same(x.right_query, r1) \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class ExceptValue(Lemma):
    props = P
    params = {"l1": Qry, "r1": Qry, "l2": Qry, "r2": Qry}
    gen = pair_gen(l="query", r="query")

    def lemma(l1, r1, l2, r2):
        x, y = ExceptClause(l1, r1), ExceptClause(l2, r2)
        alike = l1 == l2 and r1 == r2
        return same(x.left_query, l1) and same(x.right_query, r1) \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))
