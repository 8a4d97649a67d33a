"""C13: expressions and predicates are immutable values: they say what they were built from, and are equal iff they say the same."""
from pydv.api import *
from contracts.model import *

QAL = "postbound.qal._qal"
use(QAL, "CastExpression", "StarExpression", "MathExpression", "ColumnExpression", "StaticValueExpression", "FunctionExpression", "AggregateFunctions", "ArrayExpression", "ArrayAccessExpression", "SubqueryExpression",
    "WindowExpression", "CaseExpression", "QuantifierExpression", "QuantifierOperator", "MathOperator", "LogicalOperator", "CompoundOperator", "BinaryPredicate",
    "BetweenPredicate", "InPredicate", "UnaryPredicate", "UnarySqlOperators", "CompoundPredicate", "SqlQuery", "OrderBy", "as_expression", "as_predicate", "SqlExpression", "ExpressionCollector", "SqlExpressionVisitor", "PredicateVisitor", "AbstractPredicate")
use(CORE, "TableReference", "ColumnReference")
P = ("C13",)


def _g(name, *a, **k):
    def g(rng, size):
        from contracts import gens
        return getattr(gens, name)(rng, *a, **k)
    return g


def _t(rng, size):
    from contracts import gens
    return gens.qtables(rng, 1)[0]


def _c(rng, size):
    from contracts import gens
    return gens.qcol(rng, gens.qtables(rng, 1)[0])


Tab = Ref("ExTable", [f"{CORE}:TableReference"], eq="term", opaque=True, truthy=True, gen=_t)
Col = Ref("ExColumn", [f"{CORE}:ColumnReference"], eq="term", opaque=True, truthy=True, gen=_c, attrs={"table": Tab})
A = {"columns()": Set(Col, "set"), "tables()": Set(Tab, "set"), "itercolumns()": Seq(Col)}
Expr = Ref("ExExpr", [f"{QAL}:SqlExpression"], eq="term", opaque=True, truthy=True, gen=_g("any_expr"), attrs=A)
Expr.attrs["iterchildren()"] = Seq(Expr)



Qry = Ref("ExQuery", [f"{QAL}:SqlQuery"], eq="term", opaque=True, truthy=True, gen=_g("rich_query", 0), attrs=A)
Pred = Ref("ExPred", [f"{QAL}:AbstractPredicate"], eq="term", opaque=True, truthy=True, gen=_g("any_pred"), attrs={**A, "iterexpressions()": Seq(Expr)})
Order = Ref("ExOrder", [f"{QAL}:OrderBy"], eq="term", opaque=True, truthy=True, gen=_g("order_by"), attrs={"iterexpressions()": Seq(Expr)})
MathOp = EnumT("ExMathOp", [f"{QAL}:MathOperator"])
LogicalOp = EnumT("ExLogicalOp", [f"{QAL}:LogicalOperator"])
CompoundOp = EnumT("ExCompoundOp", [f"{QAL}:CompoundOperator"])
QuantOp = EnumT("ExQuantOp", [f"{QAL}:QuantifierOperator"])
Fun = Any


def twice(params):
    """parameters x1, x2 of two objects, which are frequently the same (but not identical)"""
    return {f"{p}{i}": t for i in (1, 2) for p, t in params.items()}


class CastValue(Lemma):
    props = P
    params = {"e1": Expr, "t1": Str, "p1": Seq(Expr, "tuple"), "a1": Bool, "e2": Expr, "t2": Str, "p2": Seq(Expr, "tuple"), "a2": Bool}
    gen = pair_gen(e="expr", t="types", p="exprs", a="bool")

    def requires(e1, t1, p1, a1, e2, t2, p2, a2):
        return t1 != "" and t2 != ""

    def lemma(e1, t1, p1, a1, e2, t2, p2, a2):
        x, y = CastExpression(e1, t1, type_params=p1, array_type=a1), CastExpression(e2, t2, type_params=p2, array_type=a2)
        alike = e1 == e2 and t1 == t2 and p1 == p2 and a1 == a2
        return same(x.casted_expression, e1) and x.target_type == t1 and same(x.type_params, p1) and x.array_type == a1 \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class StarValue(Lemma):
    props = P
    params = {"t1": Opt(Tab), "t2": Opt(Tab)}
    gen = pair_gen(t="opttable")

    def lemma(t1, t2):
        x, y = StarExpression(from_table=t1), StarExpression(from_table=t2)
        alike = t1 == t2
        return same(x.from_table, t1) \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class ColumnValue(Lemma):
    props = P
    params = {"c1": Col, "c2": Col}
    gen = pair_gen(c="column")

    def lemma(c1, c2):
        x, y = ColumnExpression(c1), ColumnExpression(c2)
        alike = c1 == c2
        return same(x.column, c1) \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class StaticNumber(Lemma):
    props = P
    params = {"v1": Opt(Int), "v2": Opt(Int)}
    gen = pair_gen(v="optint")

    def lemma(v1, v2):
        x, y = StaticValueExpression(v1), StaticValueExpression(v2)
        alike = v1 == v2
        return same(x.value, v1) and x.is_null() == (v1 is None) \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class StaticText(Lemma):
    props = P
    params = {"v1": Opt(Str), "v2": Opt(Str)}
    gen = pair_gen(v="optstr")

    def lemma(v1, v2):
        x, y = StaticValueExpression(v1), StaticValueExpression(v2)
        alike = v1 == v2
        return same(x.value, v1) and x.is_null() == (v1 is None) \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class MathValue(Lemma):
    props = P
    params = {"o1": MathOp, "a1": Expr, "b1": Opt(Expr), "o2": MathOp, "a2": Expr, "b2": Opt(Expr)}
    gen = pair_gen(o="mathop", a="expr", b="optexpr")

    def lemma(o1, a1, b1, o2, a2, b2):
        x, y = MathExpression(o1, a1, b1), MathExpression(o2, a2, b2)
        alike = o1 == o2 and a1 == a2 and b1 == b2
        return same(x.operator, o1) and same(x.first_arg, a1) and same(x.second_arg, b1) and x.is_unary() == (b1 is None) \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class MathChain(Lemma):
    props = P
    params = {"o1": MathOp, "a1": Expr, "b1": Seq(Expr, "tuple", 2), "o2": MathOp, "a2": Expr, "b2": Seq(Expr, "tuple", 2)}
    gen = pair_gen(o="mathop", a="expr", b="exprs2")

    def lemma(o1, a1, b1, o2, a2, b2):
        x, y = MathExpression(o1, a1, b1), MathExpression(o2, a2, b2)
        alike = o1 == o2 and a1 == a2 and b1 == b2
        return same(x.operator, o1) and same(x.first_arg, a1) and same(x.second_arg, b1) and not x.is_unary() \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class FunctionValue(Lemma):
    props = P
    params = {"f1": Str, "a1": Seq(Expr, "tuple"), "d1": Bool, "w1": Opt(Pred), "f2": Str, "a2": Seq(Expr, "tuple"), "d2": Bool, "w2": Opt(Pred)}
    gen = pair_gen(f="fname", a="exprs", d="bool", w="optpred")

    def requires(f1, a1, d1, w1, f2, a2, d2, w2):
        return f1 != "" and (f1.upper() in AggregateFunctions or not (d1 or w1 is not None)) and f1.upper().upper() == f1.upper() and f2 != "" and (f2.upper() in AggregateFunctions or not (d2 or w2 is not None)) and f2.upper().upper() == f2.upper()

    def lemma(f1, a1, d1, w1, f2, a2, d2, w2):
        x, y = FunctionExpression(f1, a1, distinct=d1, filter_where=w1), FunctionExpression(f2, a2, distinct=d2, filter_where=w2)
        alike = f1.upper() == f2.upper() and a1 == a2 and d1 == d2 and w1 == w2
        return x.function == f1.upper() and same(x.arguments, a1) and x.distinct == d1 and same(x.filter_where, w1) and x.is_aggregate() == (f1.upper() in AggregateFunctions) \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class ArrayValue(Lemma):
    props = P
    params = {"e1": Seq(Expr, "tuple"), "e2": Seq(Expr, "tuple")}
    gen = pair_gen(e="exprs")

    def lemma(e1, e2):
        x, y = ArrayExpression(e1), ArrayExpression(e2)
        alike = e1 == e2
        return same(x.elements, e1) \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class ArrayAccessValue(Lemma):
    props = P
    params = {"a1": Expr, "i1": Opt(Expr), "l1": Opt(Expr), "u1": Opt(Expr), "a2": Expr, "i2": Opt(Expr), "l2": Opt(Expr), "u2": Opt(Expr)}
    gen = pair_gen(a="expr", i="optexpr", l="optexpr", u="optexpr")

    def requires(a1, i1, l1, u1, a2, i2, l2, u2):
        return (i1 is None) != (l1 is None and u1 is None) and (i2 is None) != (l2 is None and u2 is None)

    def lemma(a1, i1, l1, u1, a2, i2, l2, u2):
        x, y = ArrayAccessExpression(a1, idx=i1, lower_idx=l1, upper_idx=u1), ArrayAccessExpression(a2, idx=i2, lower_idx=l2, upper_idx=u2)
        alike = a1 == a2 and i1 == i2 and l1 == l2 and u1 == u2
        return same(x.array, a1) and same(x.index, i1) and same(x.lower_index, l1) and same(x.upper_index, u1) and same(x.index_slice, None if i1 is not None else (l1, u1)) \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class SubqueryValue(Lemma):
    props = P
    params = {"q1": Qry, "q2": Qry}
    gen = pair_gen(q="query")

    def lemma(q1, q2):
        x, y = SubqueryExpression(q1), SubqueryExpression(q2)
        alike = q1 == q2
        return same(x.query, q1) \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class WindowValue(Lemma):
    props = P
    params = {"f1": Expr, "p1": Seq(Expr, "tuple"), "o1": Opt(Order), "c1": Opt(Pred), "f2": Expr, "p2": Seq(Expr, "tuple"), "o2": Opt(Order), "c2": Opt(Pred)}
    gen = pair_gen(f="function", p="exprs", o="optorder", c="optpred")

    def lemma(f1, p1, o1, c1, f2, p2, o2, c2):
        x, y = WindowExpression(f1, partitioning=p1, ordering=o1, filter_condition=c1), WindowExpression(f2, partitioning=p2, ordering=o2, filter_condition=c2)
        alike = f1 == f2 and p1 == p2 and o1 == o2 and c1 == c2
        return same(x.window_function, f1) and same(x.partitioning, p1) and same(x.ordering, o1) and same(x.filter_condition, c1) \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class CaseValue(Lemma):
    props = P
    params = {"c1": Seq(TupT(Expr, Expr), "tuple", 1), "s1": Opt(Expr), "e1": Opt(Expr), "c2": Seq(TupT(Expr, Expr), "tuple", 1), "s2": Opt(Expr), "e2": Opt(Expr)}
    gen = pair_gen(c="cases", s="optexpr", e="optexpr")

    def lemma(c1, s1, e1, c2, s2, e2):
        x, y = CaseExpression(c1, simple_expr=s1, else_expr=e1), CaseExpression(c2, simple_expr=s2, else_expr=e2)
        alike = c1 == c2 and s1 == s2 and e1 == e2
        return same(x.cases, c1) and same(x.simple_expression, s1) and same(x.else_expression, e1) \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class QuantifierValue(Lemma):
    props = P
    params = {"e1": Expr, "q1": QuantOp, "e2": Expr, "q2": QuantOp}
    gen = pair_gen(e="expr", q="quantop")

    def lemma(e1, q1, e2, q2):
        x, y = QuantifierExpression(e1, quantifier=q1), QuantifierExpression(e2, quantifier=q2)
        alike = e1 == e2 and q1 == q2
        return same(x.expression, e1) and same(x.quantifier, q1) \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class BinaryValue(Lemma):
    props = P
    params = {"o1": LogicalOp, "a1": Expr, "b1": Expr, "o2": LogicalOp, "a2": Expr, "b2": Expr}
    gen = pair_gen(o="logicalop", a="expr", b="expr")

    def lemma(o1, a1, b1, o2, a2, b2):
        x, y = BinaryPredicate(o1, a1, b1), BinaryPredicate(o2, a2, b2)
        alike = o1 == o2 and a1 == a2 and b1 == b2
        return same(x.operation, o1) and same(x.first_argument, a1) and same(x.second_argument, b1) and x.is_base() \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class BetweenValue(Lemma):
    props = P
    params = {"c1": Expr, "l1": Expr, "u1": Expr, "c2": Expr, "l2": Expr, "u2": Expr}
    gen = pair_gen(c="expr", l="expr", u="expr")

    def lemma(c1, l1, u1, c2, l2, u2):
        x, y = BetweenPredicate(c1, (l1, u1)), BetweenPredicate(c2, (l2, u2))
        alike = c1 == c2 and l1 == l2 and u1 == u2
        return same(x.column, c1) and same(x.interval_start, l1) and same(x.interval_end, u1) and same(x.interval, (l1, u1)) and x.operation == LogicalOperator.Between and x.is_base() \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class InValue(Lemma):
    props = P
    params = {"c1": Expr, "v1": Seq(Expr, "tuple", 1), "c2": Expr, "v2": Seq(Expr, "tuple", 1)}
    gen = pair_gen(c="expr", v="exprs1")

    def lemma(c1, v1, c2, v2):
        x, y = InPredicate(c1, v1), InPredicate(c2, v2)
        alike = c1 == c2 and set(v1) == set(v2)
        return same(x.column, c1) and same(x.values, v1) and x.operation == LogicalOperator.In and x.is_base() \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class UnaryValue(Lemma):
    props = P
    params = {"e1": Expr, "o1": Opt(LogicalOp), "e2": Expr, "o2": Opt(LogicalOp)}
    gen = pair_gen(e="expr", o="unaryop")

    def requires(e1, o1, e2, o2):
        return (o1 is None or o1 in UnarySqlOperators) and (o2 is None or o2 in UnarySqlOperators)

    def lemma(e1, o1, e2, o2):
        x, y = UnaryPredicate(e1, o1), UnaryPredicate(e2, o2)
        alike = e1 == e2 and o1 == o2
        return same(x.column, e1) and same(x.operation, o1) and x.is_exists() == (o1 is not None and o1 == LogicalOperator.Exists) and x.is_base() \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class ConjunctionValue(Lemma):
    props = P
    params = {"o1": CompoundOp, "c1": Seq(Pred, "tuple", 2), "o2": CompoundOp, "c2": Seq(Pred, "tuple", 2)}
    gen = pair_gen(o="andor", c="preds2")

    def requires(o1, c1, o2, c2):
        return o1 != CompoundOperator.Not and o2 != CompoundOperator.Not

    def lemma(o1, c1, o2, c2):
        x, y = CompoundPredicate(o1, c1), CompoundPredicate(o2, c2)
        alike = o1 == o2 and c1 == c2
        return same(x.operation, o1) and same(x.children, c1) and x.is_compound() and not x.is_negation() \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


class NegationValue(Lemma):
    props = P
    params = {"c1": Pred, "c2": Pred}
    gen = pair_gen(c="pred")

    def lemma(c1, c2):
        x, y = CompoundPredicate(CompoundOperator.Not, c1), CompoundPredicate(CompoundOperator.Not, c2)
        alike = c1 == c2
        return x.operation == CompoundOperator.Not and same(x.children, c1) and x.is_compound() and x.is_negation() \
            and (x == y) == alike and (x != y) == (not alike) and implies(alike, hash(x) == hash(y))


def once_gen(**params):
    def gen(rng, size):
        from contracts import gens
        return {p[:-1]: v for p, v in gens.twice(rng, {p: g for p, g in params.items()}, size).items() if p.endswith("1")}
    return gen


def parted(x, parts):
    """x consists of the parts: they are its children, and columns and tables are those of the parts"""
    return seq_eq(list(x.iterchildren()), parts) and x.columns() == {c for e in parts for c in e.columns()}


class CastParts(Lemma):
    props = P
    params = {"e": Expr, "p": Seq(Expr, "tuple")}
    gen = once_gen(e="expr", p="exprs")

    def lemma(e, p):
        x, parts = CastExpression(e, "int", type_params=p), [e] + list(p)
        return parted(x, parts)


class MathParts(Lemma):
    props = P
    params = {"o": MathOp, "a": Expr, "b": Opt(Expr)}
    gen = once_gen(o="mathop", a="expr", b="optexpr")

    def lemma(o, a, b):
        x, parts = MathExpression(o, a, b), [a] if b is None else [a, b]
        return parted(x, parts)


class MathChainParts(Lemma):
    props = P
    params = {"o": MathOp, "a": Expr, "b": Seq(Expr, "tuple", 2)}
    gen = once_gen(o="mathop", a="expr", b="exprs2")

    def lemma(o, a, b):
        x, parts = MathExpression(o, a, b), [a] + list(b)
        return parted(x, parts)


class FunctionParts(Lemma):
    props = P
    params = {"a": Seq(Expr, "tuple"), "w": Opt(Expr)}
    gen = once_gen(a="exprs", w="optpred")

    def lemma(a, w):
        x, parts = FunctionExpression("sum", a, filter_where=w), list(a) if w is None else list(a) + [w]
        return parted(x, parts)


class ArrayParts(Lemma):
    props = P
    params = {"a": Seq(Expr, "tuple")}
    gen = once_gen(a="exprs")

    def lemma(a):
        x, parts = ArrayExpression(a), list(a)
        return parted(x, parts)


class ArrayIndexParts(Lemma):
    props = P
    params = {"a": Expr, "i": Expr}
    gen = once_gen(a="expr", i="expr")

    def lemma(a, i):
        x, parts = ArrayAccessExpression(a, idx=i), [a, i]
        return parted(x, parts)


class ArraySliceParts(Lemma):
    props = P
    params = {"a": Expr, "l": Opt(Expr), "u": Opt(Expr)}
    gen = once_gen(a="expr", l="optexpr", u="optexpr")

    def requires(a, l, u):
        return l is not None or u is not None

    def lemma(a, l, u):
        x, parts = ArrayAccessExpression(a, lower_idx=l, upper_idx=u), [a] + ([] if l is None else [l]) + ([] if u is None else [u])
        return parted(x, parts)


class CaseParts(Lemma):
    bounded = True
    props = P
    params = {"c": Seq(TupT(Expr, Expr), "tuple", 1), "s": Opt(Expr), "e": Opt(Expr)}
    gen = once_gen(c="cases", s="optexpr", e="optexpr")

    def lemma(c, s, e):
        x, parts = CaseExpression(c, simple_expr=s, else_expr=e), [z for w, t in c for z in [w, t]] + ([] if s is None else [s]) + ([] if e is None else [e])
        return parted(x, parts)


class WindowParts(Lemma):
    props = P
    params = {"f": Expr, "p": Seq(Expr, "tuple"), "o": Opt(Order), "c": Opt(Pred)}
    gen = once_gen(f="function", p="exprs", o="optorder", c="optpred")

    def lemma(f, p, o, c):
        x, parts = WindowExpression(f, partitioning=p, ordering=o, filter_condition=c), list(f.iterchildren()) + list(p) + ([] if o is None else list(o.iterexpressions())) + ([] if c is None else list(c.iterexpressions()))
        return parted(x, parts)


class QuantifierParts(Lemma):
    props = P
    params = {"e": Expr, "q": QuantOp}
    gen = once_gen(e="expr", q="quantop")

    def lemma(e, q):
        x, parts = QuantifierExpression(e, quantifier=q), [e]
        return parted(x, parts)


class BinaryParts(Lemma):
    props = P
    params = {"a": Expr, "b": Expr}
    gen = once_gen(a="expr", b="expr")

    def lemma(a, b):
        x, parts = BinaryPredicate(LogicalOperator.Less, a, b), [a, b]
        return parted(x, parts)


class BetweenParts(Lemma):
    props = P
    params = {"c": Expr, "l": Expr, "u": Expr}
    gen = once_gen(c="expr", l="expr", u="expr")

    def lemma(c, l, u):
        x, parts = BetweenPredicate(c, (l, u)), [c, l, u]
        return parted(x, parts)


class InParts(Lemma):
    props = P
    params = {"c": Expr, "v": Seq(Expr, "tuple", 1)}
    gen = once_gen(c="expr", v="exprs1")

    def lemma(c, v):
        x, parts = InPredicate(c, v), [c] + list(v)
        return parted(x, parts)


class UnaryParts(Lemma):
    props = P
    params = {"c": Expr}
    gen = once_gen(c="expr")

    def lemma(c):
        x, parts = UnaryPredicate(c, LogicalOperator.Is), [c]
        return parted(x, parts)


class ConjunctionParts(Lemma):
    props = P
    params = {"o": CompoundOp, "c": Seq(Expr, "tuple", 2)}
    gen = once_gen(o="andor", c="preds2")

    def requires(o, c):
        return o != CompoundOperator.Not

    def lemma(o, c):
        x, parts = CompoundPredicate(o, c), list(c)
        return parted(x, parts)


class NegationParts(Lemma):
    props = P
    params = {"c": Expr}
    gen = once_gen(c="pred")

    def lemma(c):
        x, parts = CompoundPredicate(CompoundOperator.Not, c), [c]
        return parted(x, parts)




# ---- expressions that do not make sense are rejected ---------------------------------------------------------------------


class CastNeedsType(Lemma):
    props = P
    params = {"e": Expr, "t": Str}

    def lemma(e, t):
        try:
            CastExpression(e, t)
            ok = True
        except ValueError:
            ok = False
        return ok == (t != "")


class ModifiersNeedAggregate(Lemma):
    """DISTINCT and FILTER are for aggregates only, and functions have names"""
    props = P
    params = {"f": Str, "a": Seq(Expr, "tuple"), "d": Bool, "w": Opt(Pred)}
    gen = once_gen(f="fname", a="exprs", d="bool", w="optpred")

    def lemma(f, a, d, w):
        try:
            FunctionExpression(f, a, distinct=d, filter_where=w)
            ok = True
        except ValueError:
            ok = False
        return ok == (f != "" and (f.upper() in AggregateFunctions or (not d and w is None)))


class CaseNeedsCases(Lemma):
    props = P
    params = {"c": Seq(TupT(Expr, Expr), "tuple"), "e": Opt(Expr)}

    def lemma(c, e):
        try:
            CaseExpression(c, else_expr=e)
            ok = True
        except ValueError:
            ok = False
        return ok == (len(c) > 0)


class AccessNeedsIndex(Lemma):
    """an array is accessed by an index or by a slice"""
    props = P
    params = {"e": Expr, "i": Opt(Expr), "l": Opt(Expr), "u": Opt(Expr)}

    def lemma(e, i, l, u):
        try:
            ArrayAccessExpression(e, idx=i, lower_idx=l, upper_idx=u)
            ok = True
        except ValueError:
            ok = False
        return ok == ((i is not None) != (l is not None or u is not None))


class MembersNeeded(Lemma):
    props = P
    params = {"e": Expr, "v": Seq(Expr, "tuple")}

    def lemma(e, v):
        try:
            InPredicate(e, v)
            ok = True
        except ValueError:
            ok = False
        return ok == (len(v) > 0)


class UnaryNeedsOperator(Lemma):
    props = P
    params = {"e": Expr, "o": LogicalOp}

    def lemma(e, o):
        try:
            UnaryPredicate(e, o)
            ok = True
        except ValueError:
            ok = False
        return ok == (o in UnarySqlOperators)


class CompoundNeedsParts(Lemma):
    """negations have one part, the others at least two"""
    props = P
    params = {"o": CompoundOp, "c": Seq(Pred, "tuple")}

    def lemma(o, c):
        try:
            CompoundPredicate(o, c)
            ok = True
        except ValueError:
            ok = False
        return ok == (len(c) == 1 if o == CompoundOperator.Not else len(c) > 1)


# ---- the shorthands build what they say ----------------------------------------------------------------------------------


class AggregateShorthands(Lemma):
    props = P
    params = {"e": Expr, "c": Col, "s": Seq(Expr, "tuple")}

    def lemma(e, c, s):
        n, lo, hi, total = FunctionExpression.create_count(e), FunctionExpression.create_min(e), FunctionExpression.create_max(e), FunctionExpression.create_sum(e)
        col, every = FunctionExpression.create_max(c), FunctionExpression.create_count(s)
        return n == FunctionExpression("count", (e,)) and lo == FunctionExpression("min", (e,)) and hi == FunctionExpression("max", (e,)) and total == FunctionExpression("sum", (e,)) \
            and col == FunctionExpression("max", (ColumnExpression(c),)) and every == FunctionExpression("count", s)


class CountStar(Lemma):
    props = P
    params = {"c": Col}

    def lemma(c):
        return FunctionExpression.create_count() == FunctionExpression("count", (StarExpression(),)) \
            and FunctionExpression.create_count(c) == FunctionExpression("count", (ColumnExpression(c),)) \
            and FunctionExpression.create_min(c) == FunctionExpression("min", (ColumnExpression(c),)) and FunctionExpression.create_sum(c) == FunctionExpression("sum", (ColumnExpression(c),))


class Shorthands(Lemma):
    props = P
    params = {"e": Expr, "f": Expr, "q": Qry, "p": Pred}

    def lemma(e, f, q, p):
        return StaticValueExpression.null() == StaticValueExpression(None) and StaticValueExpression.null().is_null() \
            and QuantifierExpression.any(e) == QuantifierExpression(e, quantifier=QuantifierOperator.Any) and QuantifierExpression.all(e) == QuantifierExpression(e, quantifier=QuantifierOperator.All) \
            and QuantifierExpression.any(q) == QuantifierExpression(SubqueryExpression(q), quantifier=QuantifierOperator.Any) \
            and QuantifierExpression.all(q) == QuantifierExpression(SubqueryExpression(q), quantifier=QuantifierOperator.All) \
            and UnaryPredicate.exists(q) == UnaryPredicate(SubqueryExpression(q), LogicalOperator.Exists) and BinaryPredicate.equal(e, f) == BinaryPredicate(LogicalOperator.Equal, e, f) \
            and CompoundPredicate.create_not(p) == CompoundPredicate(CompoundOperator.Not, p)


class InSubquery(Lemma):
    props = P
    params = {"e": Expr, "q": Qry}
    bounded = True

    def lemma(e, q):
        x = InPredicate(e, (SubqueryExpression(q),))
        return InPredicate.subquery(e, q) == x and InPredicate.subquery(e, SubqueryExpression(q)) == x and list(x.values) == [SubqueryExpression(q)]


class CreateAnd(Lemma):
    """a conjunction of at least two predicates, the single one as it is"""
    props = P
    params = {"c": Seq(Pred, "tuple", 2), "p": Pred}

    def lemma(c, p):
        x, y = CompoundPredicate.create_and(c), CompoundPredicate.create(CompoundOperator.And, c)
        z = CompoundPredicate(CompoundOperator.And, c)
        return x == z and y == z and same(CompoundPredicate.create_and((p,)), p) and same(CompoundPredicate.create(CompoundOperator.And, (p,)), p)


class CreateOr(Lemma):
    props = P
    params = {"c": Seq(Pred, "tuple", 2), "p": Pred}

    def lemma(c, p):
        x, y = CompoundPredicate.create_or(c), CompoundPredicate.create(CompoundOperator.Or, c)
        z = CompoundPredicate(CompoundOperator.Or, c)
        return x == z and y == z and same(CompoundPredicate.create_or((p,)), p) and same(CompoundPredicate.create(CompoundOperator.Or, (p,)), p)


class CreateNot(Lemma):
    props = P
    params = {"p": Pred}

    def lemma(p):
        z = CompoundPredicate(CompoundOperator.Not, p)
        return CompoundPredicate.create_not(p) == z and CompoundPredicate.create(CompoundOperator.Not, (p,)) == z


class CreateNothing(Lemma):
    """there is no compound of nothing, and only one predicate is negated"""
    props = P
    params = {"o": CompoundOp, "p": Pred, "q": Pred}

    def lemma(o, p, q):
        try:
            CompoundPredicate.create(o, ())
            none = True
        except ValueError:
            none = False
        try:
            CompoundPredicate.create_and(())
            a = True
        except ValueError:
            a = False
        try:
            CompoundPredicate.create_or(())
            b = True
        except ValueError:
            b = False
        try:
            CompoundPredicate.create(CompoundOperator.Not, (p, q))
            c = True
        except ValueError:
            c = False
        return not none and not a and not b and not c


class AsExpression(Lemma):
    """columns, queries and values become expressions, expressions stay as they are"""
    props = P
    params = {"e": Expr, "c": Col, "q": Qry, "i": Int, "s": Str}

    def lemma(e, c, q, i, s):
        return same(as_expression(e), e) and as_expression(c) == ColumnExpression(c) and as_expression(q) == SubqueryExpression(q) and as_expression(i) == StaticValueExpression(i) \
            and as_expression(s) == (StarExpression() if s == "*" else StaticValueExpression(s))


class AsPredicate(Lemma):
    """the columns and values of a predicate become expressions"""
    props = P
    params = {"c": Col, "d": Col, "i": Int}

    def lemma(c, d, i):
        col = ColumnExpression(c)
        return as_predicate(c, LogicalOperator.Equal, d) == BinaryPredicate(LogicalOperator.Equal, col, ColumnExpression(d)) \
            and as_predicate(c, LogicalOperator.Less, i) == BinaryPredicate(LogicalOperator.Less, col, StaticValueExpression(i)) \
            and as_predicate(c, LogicalOperator.Between, i, 7) == BetweenPredicate(col, (StaticValueExpression(i), StaticValueExpression(7))) \
            and as_predicate(c, LogicalOperator.Between, (i, d)) == BetweenPredicate(col, (StaticValueExpression(i), ColumnExpression(d)))


class AsPredicateTexts(Lemma):
    """operators can be given as text"""
    props = P
    params = {"c": Col, "i": Int}
    bounded = True

    def lemma(c, i):
        col, val = ColumnExpression(c), StaticValueExpression(i)
        return all(as_predicate(c, t, i) == BinaryPredicate(o, col, val) for t, o in [("=", LogicalOperator.Equal), ("==", LogicalOperator.Equal), ("<>", LogicalOperator.NotEqual), ("!=", LogicalOperator.NotEqual),
                   ("<", LogicalOperator.Less), ("<=", LogicalOperator.LessEqual), (">", LogicalOperator.Greater), (">=", LogicalOperator.GreaterEqual), ("like", LogicalOperator.Like)]) \
            and as_predicate(c, "in", i, 2) == InPredicate(col, [val, StaticValueExpression(2)]) and as_predicate(c, "IN", [i, 2]) == InPredicate(col, [val, StaticValueExpression(2)]) \
            and as_predicate(c, "between", i, 2) == BetweenPredicate(col, (val, StaticValueExpression(2)))


# ---- arbitrary expressions -----------------------------------------------------------------------------------------------


AnyExpr = Ref("ExAny", [f"{QAL}:SqlExpression"], eq="term", opaque=True, gen=_g("deep_expr"))


def says(e):
    """everything that an expression says: its kind, its own properties, and what its parts say"""
    n = type(e).__name__
    r = says
    o = lambda x: None if x is None else says(x)
    t = lambda xs: tuple(says(x) for x in xs)
    if n == "ColumnExpression":
        return (n, e.column)
    if n == "StaticValueExpression":
        return (n, type(e.value).__name__, e.value)
    if n == "StarExpression":
        return (n, e.from_table)
    if n == "CastExpression":
        return (n, r(e.casted_expression), e.target_type, t(e.type_params), bool(e.array_type))
    if n == "MathExpression":
        return (n, e.operator, r(e.first_arg), t(e.second_arg) if isinstance(e.second_arg, (tuple, list)) else o(e.second_arg))
    if n == "FunctionExpression":
        return (n, e.function, t(e.arguments), bool(e.distinct), o(e.filter_where))
    if n == "ArrayExpression":
        return (n, t(e.elements))
    if n == "ArrayAccessExpression":
        return (n, r(e.array), o(e.index), o(e.lower_index), o(e.upper_index))
    if n == "CaseExpression":
        return (n, tuple((r(a), r(b)) for a, b in e.cases), o(e.simple_expression), o(e.else_expression))
    if n == "QuantifierExpression":
        return (n, r(e.expression), e.quantifier)
    if n == "WindowExpression":
        return (n, r(e.window_function), t(e.partitioning), None if e.ordering is None else tuple((r(x.column), x.ascending, x.nulls_first) for x in e.ordering.expressions), o(e.filter_condition))
    if n == "SubqueryExpression":
        return (n, e.query)
    if n == "BinaryPredicate":
        return (n, e.operation, r(e.first_argument), r(e.second_argument))
    if n == "BetweenPredicate":
        return (n, r(e.column), r(e.interval_start), r(e.interval_end))
    if n == "InPredicate":
        return (n, r(e.column), frozenset(t(e.values)))
    if n == "UnaryPredicate":
        return (n, e.operation, r(e.column))
    if n == "CompoundPredicate":
        return (n, e.operation, t(e.iterchildren()))
    return (n, e)


class DeepEquality(Lemma):
    """expressions are equal iff they say the same, and equal ones have the same hash"""
    props = P
    params = {"a": AnyExpr, "b": AnyExpr}
    bounded = True
    gen = _g("two_exprs")

    def lemma(a, b):
        alike = says(a) == says(b)
        return (a == b) == alike and (b == a) == alike and (a != b) == (not alike) and implies(alike, hash(a) == hash(b)) and a == a and not a == None and a != 1


def visited(e):
    """the method of a visitor for an expression"""
    n = type(e).__name__
    if isinstance(e, AbstractPredicate):
        return "visit_predicate_expr"
    return {"ColumnExpression": "visit_column_expr", "StaticValueExpression": "visit_static_value_expr", "StarExpression": "visit_star_expr", "CastExpression": "visit_cast_expr",
            "MathExpression": "visit_math_expr", "FunctionExpression": "visit_function_expr", "ArrayExpression": "visit_array_expr", "ArrayAccessExpression": "visit_array_access_expr",
            "CaseExpression": "visit_case_expr", "QuantifierExpression": "visit_quantifier_expr", "WindowExpression": "visit_window_expr", "SubqueryExpression": "visit_subquery_expr"}[n]


def visited_predicate(p):
    if isinstance(p, CompoundPredicate):
        return {CompoundOperator.And: "visit_and_predicate", CompoundOperator.Or: "visit_or_predicate", CompoundOperator.Not: "visit_not_predicate"}[p.operation]
    return {"BinaryPredicate": "visit_binary_predicate", "BetweenPredicate": "visit_between_predicate", "InPredicate": "visit_in_predicate", "UnaryPredicate": "visit_unary_predicate"}[type(p).__name__]


def recording(*bases):
    """a visitor that records how it was called"""
    names = {n for b in bases for n in dir(b) if n.startswith("visit_")}
    rec = lambda n: lambda self, *args, **kwargs: (n, args, kwargs)
    return type("Recording", tuple(bases), {n: rec(n) for n in names})()


class Visitors(Lemma):
    """a visitor is called for the kind of the expression, with the expression and all further arguments"""
    props = P
    params = {"e": AnyExpr, "i": Int}
    bounded = True

    def lemma(e, i):
        name, args, kwargs = e.accept_visitor(recording(SqlExpressionVisitor), i, "x", key=i)
        return name == visited(e) and args[0] is e and args[1:] == (i, "x") and kwargs == {"key": i}


class PredicateVisitors(Lemma):
    """predicates distinguish visitors of predicates from those of expressions only"""
    props = P
    params = {"p": Pred, "i": Int}
    bounded = True

    def lemma(p, i):
        ok = True
        for bases in [(PredicateVisitor,), (PredicateVisitor, SqlExpressionVisitor)]:
            name, args, kwargs = p.accept_visitor(recording(*bases), i, "x", key=i)
            parts = [p, p.children] if isinstance(p, CompoundPredicate) else [p]
            ok = ok and name == visited_predicate(p) and args[0] is p and list(args) == parts + [i, "x"] and kwargs == {"key": i}
        name, args, kwargs = p.accept_visitor(recording(SqlExpressionVisitor), i)
        return ok and name == "visit_predicate_expr" and args[0] is p and args[1:] == (i,)


def matches(e, wanted, further):
    if wanted(e) and not further:
        return {e}
    return ({e} if wanted(e) else set()) | {x for c in e.iterchildren() for x in matches(c, wanted, further)}


class Collector(Lemma):
    """the collector finds exactly the matching expressions, below matches only if asked to"""
    props = P
    params = {"e": AnyExpr}
    bounded = True

    def lemma(e):
        ok = True
        for kind in (ColumnExpression, StaticValueExpression, FunctionExpression, MathExpression, CastExpression, CaseExpression, BinaryPredicate, SqlExpression):
            wanted = lambda x: isinstance(x, kind)
            ok = ok and e.accept_visitor(ExpressionCollector(wanted)) == matches(e, wanted, False) \
                and e.accept_visitor(ExpressionCollector(wanted, continue_after_match=True)) == matches(e, wanted, True)
        return ok


class ColumnOccurrences(Lemma):
    """iterating over the columns provides exactly the columns"""
    props = P
    params = {"e": AnyExpr}
    bounded = True

    def lemma(e):
        return set(e.itercolumns()) == e.columns() and e.tables() >= {c.table for c in e.columns() if c.table}


class Unaffected(Lemma):
    """changing the returned collections does not change the expression"""
    props = P
    params = {"e": AnyExpr}
    bounded = True

    def lemma(e):
        before, h = says(e), hash(e)
        for f in ("tables", "columns", "itercolumns", "iterchildren", "iterexpressions", "join_partners", "base_predicates"):
            try:
                x = getattr(e, f)()
            except Exception:
                continue
            for m in ("clear", ):
                if hasattr(x, m):
                    getattr(x, m)()
        return says(e) == before and hash(e) == h and set(e.itercolumns()) == e.columns() and set(c for x in e.iterchildren() for c in x.columns()) <= e.columns()


class CopiedArguments(Lemma):
    """changing the lists that an expression was built from does not change the expression"""
    props = P
    params = {"a": Expr, "b": Expr, "c": Expr, "p": Pred, "r": Pred}
    bounded = True

    def lemma(a, b, c, p, r):
        def check(make):
            args = make[1]
            x = make[0](args)
            before, h, t = says(x), hash(x), str(x)
            args.append(args[0])
            args[0] = args[1]
            y = make[0](args)
            return says(x) == before and hash(x) == h and str(x) == t and (says(y) == before) == (x == y)
        return all(check(m) for m in [(lambda v: CastExpression(a, "int", type_params=v), [b, c]), (lambda v: MathExpression(MathOperator.Add, a, v), [b, c]), (lambda v: FunctionExpression("f", v), [b, c]),
                                      (lambda v: ArrayExpression(v), [b, c]), (lambda v: WindowExpression(FunctionExpression("sum", [a]), partitioning=v), [b, c]),
                                      (lambda v: CaseExpression(v), [(p, b), (r, c)]), (lambda v: InPredicate(a, v), [b, c]), (lambda v: CompoundPredicate(CompoundOperator.And, v), [p, r])])
