"""C16: renaming columns and tables affects all references, and nothing else (columns of expressions and predicates)."""
from pydv.api import *
from contracts.model import CORE

TRF = "postbound.transform"
QAL = "postbound.qal._qal"
use(TRF, "rename_columns_in_expression", "rename_columns_in_predicate", "rename_columns_in_query", "rename_columns_in_clause")
use(QAL, "AbstractPredicate", "BinaryPredicate", "BetweenPredicate", "InPredicate", "UnaryPredicate", "CompoundPredicate", "CompoundOperator", "ColumnExpression", "StaticValueExpression", "StarExpression",
    "CastExpression", "MathExpression", "ArrayAccessExpression", "FunctionExpression", "SubqueryExpression", "WindowExpression", "CaseExpression", "QuantifierExpression", "ArrayExpression", "OrderBy")
P = ("C16",)


def _g(name, *a, **k):
    def g(rng, size):
        from contracts import gens
        return getattr(gens, name)(rng, *a, **k)
    return g


def _c(rng, size):
    from contracts import gens
    return gens.qcol(rng, gens.qtables(rng, 1)[0])


Op = EnumT("RnOp", [f"{QAL}:LogicalOperator"])
CompoundOp = EnumT("RnCompoundOp", [f"{QAL}:CompoundOperator"])
MathOp = EnumT("RnMathOp", [f"{QAL}:MathOperator"])
QuantOp = EnumT("RnQuantOp", [f"{QAL}:QuantifierOperator"])
Col = Ref("RnColumn", [f"{CORE}:ColumnReference"], eq="term", opaque=True, gen=_c)
Qry = Ref("RnQuery", [f"{QAL}:{n}" for n in ("ImplicitSqlQuery", "ExplicitSqlQuery", "MixedSqlQuery", "SetQuery")], eq="term", opaque=True, truthy=True, gen=_g("rich_query"))
Cls = Ref("RnOrder", [f"{QAL}:OrderBy"], eq="term", opaque=True, truthy=True, gen=_g("clause", "orderby"))
Node = Ref("RnNode", [f"{QAL}:{n}Expression" for n in ("Column", "StaticValue", "Star", "Cast", "Math", "ArrayAccess", "Function", "Subquery", "Window", "Case", "Quantifier", "Array")]
           + [f"{QAL}:{n}Predicate" for n in ("Binary", "Between", "In", "Unary", "Compound")], eq="term", opaque=True, truthy=True, gen=_g("any_expr"))
Node.attrs.update({
    "ColumnExpression.column": Col, "BetweenPredicate.column": Node, "InPredicate.column": Node, "UnaryPredicate.column": Node,
    "casted_expression": Node, "target_type": Str, "type_params": Seq(Node, "tuple"), "array_type": Bool,
    "operator": MathOp, "first_arg": Node, "second_arg": Opt(Node),
    "array": Node, "index": Opt(Node), "lower_index": Opt(Node), "upper_index": Opt(Node),
    "function": Str, "arguments": Seq(Node, "tuple"), "distinct": Bool, "filter_where": Opt(Node),
    "query": Qry,
    "window_function": Node, "partitioning": Seq(Node, "tuple"), "ordering": Opt(Cls), "filter_condition": Opt(Node),
    "cases": Seq(TupT(Node, Node), "tuple", 1), "simple_expression": Opt(Node), "else_expression": Opt(Node),
    "value": Any, "expression": Node, "quantifier": QuantOp, "elements": Seq(Node, "tuple"),
    "BinaryPredicate.operation": Op, "UnaryPredicate.operation": Opt(Op), "CompoundPredicate.operation": CompoundOp,
    "first_argument": Node, "second_argument": Node, "interval_start": Node, "interval_end": Node, "values": Seq(Node, "tuple", 1), "_children": Seq(Node, "tuple", 1)})
Renamings = Map(Col, Col)


def is_predicate(e):
    return isinstance(e, AbstractPredicate)


@invariant(Node)
def parts_are_predicates(e):
    return (not is_instance_exact(e, CompoundPredicate) or forall(e._children, lambda c: is_predicate(c))) \
        and (not isinstance(e, FunctionExpression) or e.filter_where is None or is_predicate(e.filter_where)) \
        and (not is_instance_exact(e, WindowExpression) or e.filter_condition is None or is_predicate(e.filter_condition))


@invariant(Node)
def shapes(e):
    return (not is_instance_exact(e, CompoundPredicate) or ((e.operation == CompoundOperator.And or e.operation == CompoundOperator.Or) and len(e._children) >= 2
                                                            or e.operation == CompoundOperator.Not and len(e._children) == 1)) \
        and (not is_instance_exact(e, ArrayAccessExpression) or ((e.index is None) != (e.lower_index is None and e.upper_index is None)))


STORES = "expressions store what they are given (see C13)"



class MakeColumn(Contract):
    target = f"{QAL}:ColumnExpression.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"column": Col}
    returns = Node

    def ensures(column, result):
        return is_instance_exact(result, ColumnExpression) and result.column == column


class MakeCast(Contract):
    target = f"{QAL}:CastExpression.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"expression": Node, "target_type": Str, "type_params": Opt(Seq(Node)), "array_type": Bool}
    returns = Node

    def ensures(expression, target_type, type_params, array_type, result):
        return is_instance_exact(result, CastExpression) and result.casted_expression == expression and result.target_type == target_type and result.array_type == array_type \
            and same(result.type_params, () if type_params is None else tuple(type_params))


class MakeMath(Contract):
    target = f"{QAL}:MathExpression.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"operator": MathOp, "first_argument": Node, "second_argument": Opt(Node)}
    returns = Node

    def ensures(operator, first_argument, second_argument, result):
        return is_instance_exact(result, MathExpression) and result.operator == operator and result.first_arg == first_argument and result.second_arg == second_argument


class MakeArrayAccess(Contract):
    target = f"{QAL}:ArrayAccessExpression.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"array_expr": Node, "idx": Opt(Node), "lower_idx": Opt(Node), "upper_idx": Opt(Node)}
    returns = Node
    raises = {"ValueError": "wrong"}

    def wrong(idx, lower_idx, upper_idx):
        return (idx is None) == (lower_idx is None and upper_idx is None)

    def ensures(array_expr, idx, lower_idx, upper_idx, result):
        return is_instance_exact(result, ArrayAccessExpression) and result.array == array_expr and result.index == idx and result.lower_index == lower_idx and result.upper_index == upper_idx


class MakeFunction(Contract):
    target = f"{QAL}:FunctionExpression.__init__"
    props = P
    constructs = trusted = True
    note = STORES + "; that DISTINCT and FILTER are only used for aggregates is not modelled"
    params = {"function": Str, "arguments": Seq(Node), "distinct": Bool, "filter_where": Opt(Node)}
    returns = Node

    def ensures(function, arguments, distinct, filter_where, result):
        return is_instance_exact(result, FunctionExpression) and result.function == function and same(result.arguments, tuple(arguments)) and result.distinct == distinct and result.filter_where == filter_where


class MakeSubquery(Contract):
    target = f"{QAL}:SubqueryExpression.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"subquery": Qry}
    returns = Node

    def ensures(subquery, result):
        return is_instance_exact(result, SubqueryExpression) and result.query == subquery


class MakeWindow(Contract):
    target = f"{QAL}:WindowExpression.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"window_function": Node, "partitioning": Seq(Node), "ordering": Opt(Cls), "filter_condition": Opt(Node)}
    returns = Node

    def ensures(window_function, partitioning, ordering, filter_condition, result):
        return is_instance_exact(result, WindowExpression) and result.window_function == window_function and same(result.partitioning, tuple(partitioning)) and result.ordering == ordering \
            and result.filter_condition == filter_condition


class MakeCase(Contract):
    target = f"{QAL}:CaseExpression.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"cases": Seq(TupT(Node, Node)), "simple_expr": Opt(Node), "else_expr": Opt(Node)}
    returns = Node
    raises = {"ValueError": "none"}

    def none(cases):
        return len(cases) == 0

    def ensures(cases, simple_expr, else_expr, result):
        return is_instance_exact(result, CaseExpression) and same(result.cases, tuple(cases)) and result.simple_expression == simple_expr and result.else_expression == else_expr


class MakeQuantifier(Contract):
    target = f"{QAL}:QuantifierExpression.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"expression": Node, "quantifier": QuantOp}
    returns = Node

    def ensures(expression, quantifier, result):
        return is_instance_exact(result, QuantifierExpression) and result.expression == expression and result.quantifier == quantifier


class MakeArray(Contract):
    target = f"{QAL}:ArrayExpression.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"elements": Seq(Node)}
    returns = Node

    def ensures(elements, result):
        return is_instance_exact(result, ArrayExpression) and same(result.elements, tuple(elements))


class MakeBinary(Contract):
    target = f"{QAL}:BinaryPredicate.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"operation": Op, "first_argument": Node, "second_argument": Node}
    returns = Node

    def ensures(operation, first_argument, second_argument, result):
        return is_instance_exact(result, BinaryPredicate) and result.operation == operation and result.first_argument == first_argument and result.second_argument == second_argument


class MakeBetween(Contract):
    target = f"{QAL}:BetweenPredicate.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"column": Node, "interval": TupT(Node, Node)}
    returns = Node

    def ensures(column, interval, result):
        return is_instance_exact(result, BetweenPredicate) and result.column == column and result.interval_start == interval[0] and result.interval_end == interval[1]


class MakeIn(Contract):
    target = f"{QAL}:InPredicate.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"column": Node, "values": Seq(Node)}
    returns = Node
    raises = {"ValueError": "none"}

    def none(values):
        return len(values) == 0

    def ensures(column, values, result):
        return is_instance_exact(result, InPredicate) and result.column == column and same(result.values, tuple(values))


class MakeUnary(Contract):
    target = f"{QAL}:UnaryPredicate.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"column": Node, "operation": Opt(Op)}
    returns = Node

    def ensures(column, operation, result):
        return is_instance_exact(result, UnaryPredicate) and result.column == column and result.operation == operation


class MakeCompound(Contract):
    target = f"{QAL}:CompoundPredicate.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"operation": CompoundOp, "children": Seq(Node)}
    returns = Node
    raises = {"ValueError": "wrong_number"}

    def wrong_number(operation, children):
        return len(children) != 1 if operation == CompoundOperator.Not else len(children) < 2

    def ensures(operation, children, result):
        return is_instance_exact(result, CompoundPredicate) and result.operation == operation and same(result._children, tuple(children))


class RenameQuery(Contract):
    target = f"{TRF}:rename_columns_in_query"
    props = P
    params = {"query": Qry, "available_renamings": Renamings}
    returns = Qry
    trusted = True
    note = "what nested calls rely upon; proved by RenamedQueryClauses"


class RenameOrder(Contract):
    target = f"{TRF}:rename_columns_in_clause"
    props = P
    params = {"clause": Cls, "available_renamings": Renamings}
    returns = Cls
    trusted = True
    note = "what nested calls rely upon; proved by RenameClause"


class ExpressionCall(Contract):
    target = f"{TRF}:rename_columns_in_expression"
    props = P
    params = {"expression": Node, "available_renamings": Renamings}
    returns = Node
    trusted = True
    note = "what recursive calls rely upon; proved by RenameExpression"


class PredicateCall(Contract):
    target = f"{TRF}:rename_columns_in_predicate"
    props = P
    params = {"predicate": Node, "available_renamings": Renamings}
    returns = Node
    trusted = True
    note = "what recursive calls rely upon; proved by RenamePredicate"
    raises = {"ValueError": "other"}

    def other(predicate):
        return not is_predicate(predicate)

    def ensures(result):
        return is_predicate(result)


def ren(e, m):
    return rename_columns_in_expression(e, m)


def renp(e, m):
    return rename_columns_in_predicate(e, m)


def all_renamed(xs, ys, m):
    return len(xs) == len(ys) and forall_index(len(xs), lambda i: ys[i] == ren(xs[i], m))


def same_kind(e, r, c):
    return is_instance_exact(e, c) and is_instance_exact(r, c)


class RenameExpression(Contract):
    """columns are replaced wherever they occur"""
    use_at_calls = False
    target = f"{TRF}:rename_columns_in_expression"
    props = P
    params = {"expression": Opt(Node), "available_renamings": Renamings}
    returns = Opt(Node)
    note = "mathematical expressions of at most two arguments (see RenamedColumns for more)"
    gens = {"available_renamings": _g("col_renamings")}

    def ensures_none(expression, result):
        return (result is None) == (expression is None)

    def ensures_column(expression, available_renamings, result):
        return not (expression is not None and is_instance_exact(expression, ColumnExpression)) or (is_instance_exact(result, ColumnExpression)
                       and result.column == (available_renamings[expression.column] if expression.column in available_renamings else expression.column))

    def ensures_constant(expression, result):
        return not (expression is not None and (is_instance_exact(expression, StaticValueExpression) or is_instance_exact(expression, StarExpression))) or (result == expression)

    def ensures_predicate(expression, available_renamings, result):
        return expression is None or not is_predicate(expression) or result == renp(expression, available_renamings)

    def ensures_cast(expression, available_renamings, result):
        return not (expression is not None and is_instance_exact(expression, CastExpression)) or (is_instance_exact(result, CastExpression)
                       and result.casted_expression == ren(expression.casted_expression, available_renamings) and all_renamed(expression.type_params, result.type_params, available_renamings)
                       and result.target_type == expression.target_type and result.array_type == expression.array_type)

    def ensures_math(expression, available_renamings, result):
        return not (expression is not None and is_instance_exact(expression, MathExpression) and not isinstance(expression.second_arg, tuple)) or (is_instance_exact(result, MathExpression)
                       and result.operator == expression.operator and result.first_arg == ren(expression.first_arg, available_renamings) and result.second_arg == ren(expression.second_arg, available_renamings))

    def ensures_array_access(expression, available_renamings, result):
        return not (expression is not None and is_instance_exact(expression, ArrayAccessExpression)) or (is_instance_exact(result, ArrayAccessExpression)
                       and result.array == ren(expression.array, available_renamings) and result.index == ren(expression.index, available_renamings)
                       and result.lower_index == ren(expression.lower_index, available_renamings) and result.upper_index == ren(expression.upper_index, available_renamings))

    def ensures_function(expression, available_renamings, result):
        return not (expression is not None and is_instance_exact(expression, FunctionExpression)) or (is_instance_exact(result, FunctionExpression)
                       and result.function == expression.function and result.distinct == expression.distinct and all_renamed(expression.arguments, result.arguments, available_renamings)
                       and result.filter_where == renp(expression.filter_where, available_renamings))

    def ensures_subquery(expression, available_renamings, result):
        return not (expression is not None and is_instance_exact(expression, SubqueryExpression)) or (is_instance_exact(result, SubqueryExpression)
                       and result.query == rename_columns_in_query(expression.query, available_renamings))

    def ensures_window(expression, available_renamings, result):
        return not (expression is not None and is_instance_exact(expression, WindowExpression)) or (is_instance_exact(result, WindowExpression)
                       and result.window_function == ren(expression.window_function, available_renamings) and all_renamed(expression.partitioning, result.partitioning, available_renamings)
                       and result.ordering == rename_columns_in_clause(expression.ordering, available_renamings) and result.filter_condition == renp(expression.filter_condition, available_renamings))

    def ensures_case(expression, available_renamings, result):
        return not (expression is not None and is_instance_exact(expression, CaseExpression)) or (is_instance_exact(result, CaseExpression)
                       and len(result.cases) == len(expression.cases) and forall_index(len(expression.cases), lambda i: result.cases[i][0] == ren(expression.cases[i][0], available_renamings)
                                                                                        and result.cases[i][1] == ren(expression.cases[i][1], available_renamings))
                       and result.simple_expression == ren(expression.simple_expression, available_renamings) and result.else_expression == ren(expression.else_expression, available_renamings))

    def ensures_quantifier(expression, available_renamings, result):
        return not (expression is not None and is_instance_exact(expression, QuantifierExpression)) or (is_instance_exact(result, QuantifierExpression)
                       and result.expression == ren(expression.expression, available_renamings) and result.quantifier == expression.quantifier)

    def ensures_array(expression, available_renamings, result):
        return not (expression is not None and is_instance_exact(expression, ArrayExpression)) or (is_instance_exact(result, ArrayExpression)
                       and all_renamed(expression.elements, result.elements, available_renamings))


class RenamePredicate(Contract):
    """columns are replaced wherever they occur"""
    use_at_calls = False
    target = f"{TRF}:rename_columns_in_predicate"
    props = P
    params = {"predicate": Opt(Node), "available_renamings": Renamings}
    returns = Opt(Node)
    gens = {"predicate": _g("any_pred"), "available_renamings": _g("col_renamings")}
    raises = {"ValueError": "other"}

    def other(predicate):
        return predicate is not None and not is_predicate(predicate)

    def ensures_none(predicate, result):
        return (result is None) == (predicate is None) and (predicate is None or is_predicate(result))

    def ensures_binary(predicate, available_renamings, result):
        return not (predicate is not None and is_instance_exact(predicate, BinaryPredicate)) or (is_instance_exact(result, BinaryPredicate) and result.operation == predicate.operation
                       and result.first_argument == ren(predicate.first_argument, available_renamings) and result.second_argument == ren(predicate.second_argument, available_renamings))

    def ensures_between(predicate, available_renamings, result):
        return not (predicate is not None and is_instance_exact(predicate, BetweenPredicate)) or (is_instance_exact(result, BetweenPredicate) and result.column == ren(predicate.column, available_renamings)
                       and result.interval_start == ren(predicate.interval_start, available_renamings) and result.interval_end == ren(predicate.interval_end, available_renamings))

    def ensures_in(predicate, available_renamings, result):
        return not (predicate is not None and is_instance_exact(predicate, InPredicate)) or (is_instance_exact(result, InPredicate) and result.column == ren(predicate.column, available_renamings)
                       and all_renamed(predicate.values, result.values, available_renamings))

    def ensures_unary(predicate, available_renamings, result):
        return not (predicate is not None and is_instance_exact(predicate, UnaryPredicate)) or (is_instance_exact(result, UnaryPredicate) and result.operation == predicate.operation
                       and result.column == ren(predicate.column, available_renamings))

    def ensures_compound(predicate, available_renamings, result):
        return not (predicate is not None and is_instance_exact(predicate, CompoundPredicate)) or (is_instance_exact(result, CompoundPredicate) and result.operation == predicate.operation
                       and len(result._children) == len(predicate._children) and forall_index(len(predicate._children), lambda i: result._children[i] == renp(predicate._children[i], available_renamings)))
