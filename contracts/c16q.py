"""C16: renaming columns and tables affects all references, and nothing else (columns of clauses, table sources and queries)."""
from pydv.api import *
from contracts.model import CORE

TRF = "postbound.transform"
QAL = "postbound.qal._qal"
use(TRF, "rename_columns_in_expression", "rename_columns_in_predicate", "rename_columns_in_query", "rename_columns_in_clause", "_rename_columns_in_table_source")
use(QAL, "AbstractPredicate", "Select", "From", "ImplicitFromClause", "ExplicitFromClause", "Where", "GroupBy", "Having", "OrderBy", "Limit", "Hint", "Explain", "CommonTableExpression", "UnionClause",
    "IntersectClause", "ExceptClause", "DirectTableSource", "SubqueryTableSource", "JoinTableSource", "FunctionTableSource", "ImplicitSqlQuery", "ExplicitSqlQuery", "MixedSqlQuery", "SetQuery",
    "AutoJoins", "ValuesWithQuery", "ValuesTableSource")
P = ("C16",)
CLAUSES = ["Select", "ImplicitFromClause", "ExplicitFromClause", "From", "Where", "GroupBy", "Having", "OrderBy", "Limit", "Hint", "Explain", "CommonTableExpression", "UnionClause", "IntersectClause",
           "ExceptClause"]


def _g(name, *a, **k):
    def g(rng, size):
        from contracts import gens
        return getattr(gens, name)(rng, *a, **k)
    return g


def _c(rng, size):
    from contracts import gens
    return gens.qcol(rng, gens.qtables(rng, 1)[0])


Col = Ref("RqColumn", [f"{CORE}:ColumnReference"], eq="term", opaque=True, gen=_c)
Tab = Ref("RqTable", [f"{CORE}:TableReference"], eq="term", opaque=True, truthy=True, gen=lambda rng, size: _tab(rng))
Node = Ref("RqNode", [f"{QAL}:{n}Expression" for n in ("Column", "StaticValue", "Star", "Cast", "Math", "ArrayAccess", "Function", "Subquery", "Window", "Case", "Quantifier", "Array")]
           + [f"{QAL}:{n}Predicate" for n in ("Binary", "Between", "In", "Unary", "Compound")], eq="term", opaque=True, truthy=True, gen=_g("any_expr"))
Proj = Ref("RqProjection", [f"{QAL}:BaseProjection"], eq="term", opaque=True, truthy=True, attrs={"expression": Node, "target_name": Str})
Order = Ref("RqOrdering", [f"{QAL}:OrderByExpression"], eq="term", opaque=True, truthy=True, attrs={"column": Node, "ascending": Opt(Bool), "nulls_first": Opt(Bool)})
Cls = Ref("RqClause", [f"{QAL}:{n}" for n in CLAUSES], eq="term", opaque=True, truthy=True, gen=_g("any_clause"))
Qry = Ref("RqQuery", [f"{QAL}:{n}" for n in ("ImplicitSqlQuery", "ExplicitSqlQuery", "MixedSqlQuery", "SetQuery")], eq="term", opaque=True, truthy=True, gen=_g("rich_query"))
With = Ref("RqWith", [f"{QAL}:WithQuery"], eq="term", opaque=True, truthy=True, attrs={"query": Qry, "target_table": Tab, "materialized": Opt(Bool)})
JoinTy = EnumT("RqJoinType", [f"{QAL}:JoinType"])
SetOp = EnumT("RqSetOperator", [f"{QAL}:SetOperator"])
Src = Ref("RqSource", [f"{QAL}:{n}TableSource" for n in ("Direct", "Subquery", "Join", "Function")], eq="term", opaque=True, truthy=True, gen=_g("table_source"))
Src.attrs.update({"query": Qry, "target_name": Str, "lateral": Bool, "left": Src, "right": Src, "join_condition": Opt(Node), "join_type": JoinTy, "function": Node, "target_table": Opt(Tab)})
Cls.attrs.update({"queries": Seq(With, "tuple", 1), "recursive": Bool, "targets": Seq(Proj, "tuple", 1), "_distinct_type": Str, "_distinct_cols": Seq(Node, "tuple"), "items": Seq(Src, "tuple", 1),
                  "predicate": Node, "condition": Node, "group_columns": Seq(Node, "tuple", 1), "distinct": Bool, "expressions": Seq(Order, "tuple", 1), "left_query": Qry, "right_query": Qry,
                  "union_all": Bool})
Qry.attrs.update({n: Opt(Cls) for n in ("cte_clause", "orderby_clause", "limit_clause", "hints", "explain")})
Qry.attrs.update({f"{k}SqlQuery.{n}": Opt(Cls) for k in ("Implicit", "Explicit", "Mixed") for n in ("having_clause", "from_clause", "where_clause", "groupby_clause")})
Qry.attrs.update({f"{k}SqlQuery.select_clause": Cls for k in ("Implicit", "Explicit", "Mixed")})
Qry.attrs.update({"SetQuery.left_query": Qry, "SetQuery.right_query": Qry, "SetQuery.set_operation": SetOp})
Renamings = Map(Col, Col)


def _tab(rng):
    from contracts import gens
    return gens.qtables(rng, 1)[0]


@invariant(Cls)
def distinct_types(c):
    return not is_instance_exact(c, Select) or c._distinct_type == "all" or c._distinct_type == "none" or (c._distinct_type == "on" and len(c._distinct_cols) > 0)


@invariant(Cls)
def no_distinct_columns(c):
    return not is_instance_exact(c, Select) or c._distinct_type == "on" or len(c._distinct_cols) == 0


@invariant(Cls)
def one_join(c):
    return not is_instance_exact(c, ExplicitFromClause) or len(c.items) == 1


@invariant(Cls)
def conditions(c):
    return (not is_instance_exact(c, Where) or isinstance(c.predicate, AbstractPredicate)) and (not is_instance_exact(c, Having) or isinstance(c.condition, AbstractPredicate))


@invariant(Src)
def join_conditions(s):
    return not is_instance_exact(s, JoinTableSource) or s.join_type in AutoJoins if s.join_condition is None else isinstance(s.join_condition, AbstractPredicate)


STORES = "clauses, table sources and queries store what they are given (see C12)"


class MakeProjection(Contract):
    target = f"{QAL}:BaseProjection.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"expression": Node, "target_name": Str}
    returns = Proj

    def ensures(expression, target_name, result):
        return result.expression == expression and result.target_name == target_name


class MakeOrdering(Contract):
    target = f"{QAL}:OrderByExpression.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"column": Node, "ascending": Opt(Bool), "nulls_first": Opt(Bool)}
    returns = Order

    def ensures(column, ascending, nulls_first, result):
        return result.column == column and same(result.ascending, ascending) and same(result.nulls_first, nulls_first)


class MakeWith(Contract):
    target = f"{QAL}:WithQuery.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"query": Qry, "target_name": Tab, "materialized": Opt(Bool)}
    returns = With

    def ensures(query, target_name, materialized, result):
        return result.query == query and result.target_table == target_name and same(result.materialized, materialized)


class MakeCte(Contract):
    target = f"{QAL}:CommonTableExpression.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"with_queries": Seq(With), "recursive": Bool}
    returns = Cls
    raises = {"ValueError": "none"}

    def none(with_queries):
        return len(with_queries) == 0

    def ensures(with_queries, recursive, result):
        return is_instance_exact(result, CommonTableExpression) and same(result.queries, tuple(with_queries)) and result.recursive == recursive


class MakeSelect(Contract):
    target = f"{QAL}:Select.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"targets": Seq(Proj), "distinct": Bool}
    returns = Cls
    raises = {"ValueError": "none"}

    def none(targets):
        return len(targets) == 0

    def ensures(targets, distinct, result):
        return is_instance_exact(result, Select) and same(result.targets, tuple(targets)) and result._distinct_type == ("all" if distinct else "none") and len(result._distinct_cols) == 0


class MakeSelectOn(Contract):
    target = f"{QAL}:Select.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"targets": Seq(Proj), "distinct": Seq(Node)}
    returns = Cls
    raises = {"ValueError": "none"}

    def none(targets):
        return len(targets) == 0

    def ensures(targets, distinct, result):
        return is_instance_exact(result, Select) and same(result.targets, tuple(targets)) and result._distinct_type == ("on" if len(distinct) > 0 else "none") and same(result._distinct_cols, tuple(distinct))


class MakeFrom(Contract):
    target = f"{QAL}:From.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"items": Seq(Src)}
    returns = Cls
    raises = {"ValueError": "none"}

    def none(items):
        return len(items) == 0

    def ensures(items, result):
        return is_instance_exact(result, From) and same(result.items, tuple(items))


class MakeExplicitFrom(Contract):
    target = f"{QAL}:ExplicitFromClause.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"joins": Seq(Src)}
    returns = Cls
    raises = {"ValueError": "not_one"}

    def not_one(joins):
        return len(joins) != 1

    def ensures(joins, result):
        return is_instance_exact(result, ExplicitFromClause) and same(result.items, tuple(joins))


class MakeWhere(Contract):
    target = f"{QAL}:Where.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"predicate": Node}
    returns = Cls

    def ensures(predicate, result):
        return is_instance_exact(result, Where) and result.predicate == predicate


class MakeHaving(Contract):
    target = f"{QAL}:Having.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"condition": Node}
    returns = Cls

    def ensures(condition, result):
        return is_instance_exact(result, Having) and result.condition == condition


class MakeGroupBy(Contract):
    target = f"{QAL}:GroupBy.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"group_columns": Seq(Node), "distinct": Bool}
    returns = Cls
    raises = {"ValueError": "none"}

    def none(group_columns):
        return len(group_columns) == 0

    def ensures(group_columns, distinct, result):
        return is_instance_exact(result, GroupBy) and same(result.group_columns, tuple(group_columns)) and result.distinct == distinct


class MakeOrderBy(Contract):
    target = f"{QAL}:OrderBy.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"expressions": Seq(Order)}
    returns = Cls
    raises = {"ValueError": "none"}

    def none(expressions):
        return len(expressions) == 0

    def ensures(expressions, result):
        return is_instance_exact(result, OrderBy) and same(result.expressions, tuple(expressions))


class MakeUnion(Contract):
    target = f"{QAL}:UnionClause.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"left_query": Qry, "right_query": Qry, "union_all": Bool}
    returns = Cls

    def ensures(left_query, right_query, union_all, result):
        return is_instance_exact(result, UnionClause) and result.left_query == left_query and result.right_query == right_query and result.union_all == union_all


class MakeIntersect(Contract):
    target = f"{QAL}:IntersectClause.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"left_query": Qry, "right_query": Qry}
    returns = Cls

    def ensures(left_query, right_query, result):
        return is_instance_exact(result, IntersectClause) and result.left_query == left_query and result.right_query == right_query


class MakeExcept(Contract):
    target = f"{QAL}:ExceptClause.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"left_query": Qry, "right_query": Qry}
    returns = Cls

    def ensures(left_query, right_query, result):
        return is_instance_exact(result, ExceptClause) and result.left_query == left_query and result.right_query == right_query


class MakeSubquerySource(Contract):
    target = f"{QAL}:SubqueryTableSource.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"query": Qry, "target_name": Str, "lateral": Bool}
    returns = Src

    def ensures(query, target_name, lateral, result):
        return is_instance_exact(result, SubqueryTableSource) and result.query == query and result.target_name == target_name and result.lateral == lateral


class MakeJoin(Contract):
    target = f"{QAL}:JoinTableSource.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"left": Src, "right": Src, "join_condition": Opt(Node), "join_type": JoinTy}
    returns = Src
    raises = {"ValueError": "no_condition"}

    def no_condition(join_condition, join_type):
        return join_condition is None and join_type not in AutoJoins

    def ensures(left, right, join_condition, join_type, result):
        return is_instance_exact(result, JoinTableSource) and result.left == left and result.right == right and result.join_condition == join_condition and result.join_type == join_type


class MakeFunctionSource(Contract):
    target = f"{QAL}:FunctionTableSource.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"function": Node, "alias": Opt(Tab)}
    returns = Src

    def ensures(function, alias, result):
        return is_instance_exact(result, FunctionTableSource) and result.function == function and result.target_table == alias


class MakeImplicit(Contract):
    target = f"{QAL}:ImplicitSqlQuery.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"select_clause": Cls, **{n: Opt(Cls) for n in ("from_clause", "where_clause", "groupby_clause", "having_clause", "orderby_clause", "limit_clause", "cte_clause", "explain_clause", "hints")}}
    returns = Qry

    def ensures(select_clause, from_clause, where_clause, groupby_clause, having_clause, orderby_clause, limit_clause, cte_clause, explain_clause, hints, result):
        return is_instance_exact(result, ImplicitSqlQuery) and result.select_clause == select_clause and result.from_clause == from_clause and result.where_clause == where_clause \
            and result.groupby_clause == groupby_clause and result.having_clause == having_clause and result.orderby_clause == orderby_clause and result.limit_clause == limit_clause \
            and result.cte_clause == cte_clause and result.explain == explain_clause and result.hints == hints


class MakeExplicit(Contract):
    target = f"{QAL}:ExplicitSqlQuery.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"select_clause": Cls, **{n: Opt(Cls) for n in ("from_clause", "where_clause", "groupby_clause", "having_clause", "orderby_clause", "limit_clause", "cte_clause", "explain_clause", "hints")}}
    returns = Qry

    def ensures(select_clause, from_clause, where_clause, groupby_clause, having_clause, orderby_clause, limit_clause, cte_clause, explain_clause, hints, result):
        return is_instance_exact(result, ExplicitSqlQuery) and result.select_clause == select_clause and result.from_clause == from_clause and result.where_clause == where_clause \
            and result.groupby_clause == groupby_clause and result.having_clause == having_clause and result.orderby_clause == orderby_clause and result.limit_clause == limit_clause \
            and result.cte_clause == cte_clause and result.explain == explain_clause and result.hints == hints


class MakeMixed(Contract):
    target = f"{QAL}:MixedSqlQuery.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"select_clause": Cls, **{n: Opt(Cls) for n in ("from_clause", "where_clause", "groupby_clause", "having_clause", "orderby_clause", "limit_clause", "cte_clause", "explain_clause", "hints")}}
    returns = Qry

    def ensures(select_clause, from_clause, where_clause, groupby_clause, having_clause, orderby_clause, limit_clause, cte_clause, explain_clause, hints, result):
        return is_instance_exact(result, MixedSqlQuery) and result.select_clause == select_clause and result.from_clause == from_clause and result.where_clause == where_clause \
            and result.groupby_clause == groupby_clause and result.having_clause == having_clause and result.orderby_clause == orderby_clause and result.limit_clause == limit_clause \
            and result.cte_clause == cte_clause and result.explain == explain_clause and result.hints == hints


class MakeSet(Contract):
    target = f"{QAL}:SetQuery.__init__"
    props = P
    constructs = trusted = True
    note = STORES
    params = {"left_query": Qry, "right_query": Qry, "set_operation": SetOp, **{n: Opt(Cls) for n in ("cte_clause", "orderby_clause", "limit_clause", "hints", "explain_clause")}}
    returns = Qry

    def ensures(left_query, right_query, set_operation, cte_clause, orderby_clause, limit_clause, hints, explain_clause, result):
        return is_instance_exact(result, SetQuery) and result.left_query == left_query and result.right_query == right_query and result.set_operation == set_operation and result.cte_clause == cte_clause \
            and result.orderby_clause == orderby_clause and result.limit_clause == limit_clause and result.hints == hints and result.explain == explain_clause


class ExpressionCall(Contract):
    target = f"{TRF}:rename_columns_in_expression"
    props = P
    params = {"expression": Node, "available_renamings": Renamings}
    returns = Node
    trusted = True
    note = "proved by RenameExpression"


class PredicateCall(Contract):
    target = f"{TRF}:rename_columns_in_predicate"
    props = P
    params = {"predicate": Node, "available_renamings": Renamings}
    returns = Node
    trusted = True
    note = "proved by RenamePredicate"
    raises = {"ValueError": "other"}

    def other(predicate):
        return not isinstance(predicate, AbstractPredicate)

    def ensures(result):
        return isinstance(result, AbstractPredicate)


class QueryCall(Contract):
    target = f"{TRF}:rename_columns_in_query"
    props = P
    params = {"query": Qry, "available_renamings": Renamings}
    returns = Qry
    trusted = True
    note = "what nested calls rely upon; proved by RenamedQueryClauses"


class ClauseCall(Contract):
    target = f"{TRF}:rename_columns_in_clause"
    props = P
    params = {"clause": Opt(Cls), "available_renamings": Renamings}
    returns = Opt(Cls)
    trusted = True
    note = "what nested calls rely upon; proved by RenameClause"

    def ensures(clause, result):
        return (clause is None) == (result is None)


class SourceCall(Contract):
    target = f"{TRF}:_rename_columns_in_table_source"
    props = P
    params = {"table_source": Src, "available_renamings": Renamings}
    returns = Src
    trusted = True
    note = "what nested calls rely upon; proved by RenameSource"


def ren(e, m):
    return rename_columns_in_expression(e, m)


def renp(e, m):
    return rename_columns_in_predicate(e, m)


def renq(q, m):
    return rename_columns_in_query(q, m)


def renc(c, m):
    return rename_columns_in_clause(c, m)


def rens(s, m):
    return _rename_columns_in_table_source(s, m)


def both(a, b, kind):
    return is_instance_exact(a, kind) and is_instance_exact(b, kind)


class RenameSource(Contract):
    """columns are replaced in nested queries, join conditions and functions; the tables themselves are retained"""
    use_at_calls = False
    target = f"{TRF}:_rename_columns_in_table_source"
    props = P
    params = {"table_source": Src, "available_renamings": Renamings}
    returns = Src
    note = "all sources but VALUES lists (see RenamedColumns)"
    gens = {"available_renamings": _g("col_renamings"), "table_source": _g("plain_source")}

    def ensures_table(table_source, result):
        return not is_instance_exact(table_source, DirectTableSource) or result == table_source

    def ensures_subquery(table_source, available_renamings, result):
        return not is_instance_exact(table_source, SubqueryTableSource) or (is_instance_exact(result, SubqueryTableSource) and result.query == renq(table_source.query, available_renamings)
                                                                            and result.target_name == table_source.target_name and result.lateral == table_source.lateral)

    def ensures_join(table_source, available_renamings, result):
        return not is_instance_exact(table_source, JoinTableSource) or (is_instance_exact(result, JoinTableSource) and result.left == rens(table_source.left, available_renamings)
                                                                        and result.right == rens(table_source.right, available_renamings)
                                                                        and result.join_condition == renp(table_source.join_condition, available_renamings) and result.join_type == table_source.join_type)

    def ensures_function(table_source, available_renamings, result):
        return not is_instance_exact(table_source, FunctionTableSource) or (is_instance_exact(result, FunctionTableSource) and result.function == ren(table_source.function, available_renamings)
                                                                            and result.target_table == table_source.target_table)


class RenameClause(Contract):
    """columns are replaced in all parts of a clause, everything else is retained"""
    use_at_calls = False
    target = f"{TRF}:rename_columns_in_clause"
    props = P
    params = {"clause": Opt(Cls), "available_renamings": Renamings}
    returns = Opt(Cls)
    note = "CTEs without VALUES lists (see RenamedColumns)"
    gens = {"available_renamings": _g("col_renamings"), "clause": _g("plain_clause")}

    def ensures_none(clause, result):
        return (clause is None) == (result is None)

    def ensures_constant(clause, result):
        return clause is None or not (is_instance_exact(clause, Hint) or is_instance_exact(clause, Explain) or is_instance_exact(clause, Limit) or is_instance_exact(clause, ImplicitFromClause)) or result == clause

    def ensures_cte(clause, available_renamings, result):
        return clause is None or not is_instance_exact(clause, CommonTableExpression) or (
            is_instance_exact(result, CommonTableExpression) and result.recursive == clause.recursive and len(result.queries) == len(clause.queries)
            and forall_index(len(clause.queries), lambda i: result.queries[i].query == renq(clause.queries[i].query, available_renamings)
                             and result.queries[i].target_table == clause.queries[i].target_table and same(result.queries[i].materialized, clause.queries[i].materialized)))

    def ensures_select(clause, available_renamings, result):
        return clause is None or not is_instance_exact(clause, Select) or (
            is_instance_exact(result, Select) and len(result.targets) == len(clause.targets)
            and forall_index(len(clause.targets), lambda i: result.targets[i].expression == ren(clause.targets[i].expression, available_renamings) and result.targets[i].target_name == clause.targets[i].target_name))

    def ensures_distinct(clause, available_renamings, result):
        return clause is None or not is_instance_exact(clause, Select) or (
            is_instance_exact(result, Select) and result._distinct_type == clause._distinct_type and len(result._distinct_cols) == len(clause._distinct_cols)
            and forall_index(len(clause._distinct_cols), lambda i: result._distinct_cols[i] == ren(clause._distinct_cols[i], available_renamings)))

    def ensures_from(clause, available_renamings, result):
        return clause is None or not (is_instance_exact(clause, From) or is_instance_exact(clause, ExplicitFromClause)) or (
            (both(clause, result, From) or both(clause, result, ExplicitFromClause)) and len(result.items) == len(clause.items)
            and forall_index(len(clause.items), lambda i: result.items[i] == rens(clause.items[i], available_renamings)))

    def ensures_where(clause, available_renamings, result):
        return clause is None or not is_instance_exact(clause, Where) or (is_instance_exact(result, Where) and result.predicate == renp(clause.predicate, available_renamings))

    def ensures_having(clause, available_renamings, result):
        return clause is None or not is_instance_exact(clause, Having) or (is_instance_exact(result, Having) and result.condition == renp(clause.condition, available_renamings))

    def ensures_groupby(clause, available_renamings, result):
        return clause is None or not is_instance_exact(clause, GroupBy) or (
            is_instance_exact(result, GroupBy) and result.distinct == clause.distinct and len(result.group_columns) == len(clause.group_columns)
            and forall_index(len(clause.group_columns), lambda i: result.group_columns[i] == ren(clause.group_columns[i], available_renamings)))

    def ensures_orderby(clause, available_renamings, result):
        return clause is None or not is_instance_exact(clause, OrderBy) or (
            is_instance_exact(result, OrderBy) and len(result.expressions) == len(clause.expressions)
            and forall_index(len(clause.expressions), lambda i: result.expressions[i].column == ren(clause.expressions[i].column, available_renamings)
                             and same(result.expressions[i].ascending, clause.expressions[i].ascending) and same(result.expressions[i].nulls_first, clause.expressions[i].nulls_first)))

    def ensures_set_operation(clause, available_renamings, result):
        return clause is None or not (is_instance_exact(clause, UnionClause) or is_instance_exact(clause, IntersectClause) or is_instance_exact(clause, ExceptClause)) or (
            (both(clause, result, UnionClause) and result.union_all == clause.union_all or both(clause, result, IntersectClause) or both(clause, result, ExceptClause))
            and result.left_query == renq(clause.left_query, available_renamings) and result.right_query == renq(clause.right_query, available_renamings))


class RenamedQueryClauses(Contract):
    """columns are replaced in all clauses of a query, which are all retained"""
    use_at_calls = False
    target = f"{TRF}:rename_columns_in_query"
    props = P
    params = {"query": Qry, "available_renamings": Renamings}
    returns = Qry
    gens = {"available_renamings": _g("col_renamings")}

    def ensures_kind(query, result):
        return both(query, result, ImplicitSqlQuery) or both(query, result, ExplicitSqlQuery) or both(query, result, MixedSqlQuery) or both(query, result, SetQuery)

    def ensures_shared(query, available_renamings, result):
        return result.cte_clause == renc(query.cte_clause, available_renamings) and result.orderby_clause == renc(query.orderby_clause, available_renamings) and result.limit_clause == query.limit_clause \
            and result.hints == query.hints and result.explain == query.explain

    def ensures_set(query, available_renamings, result):
        return not isinstance(query, SetQuery) or (result.left_query == renq(query.left_query, available_renamings) and result.right_query == renq(query.right_query, available_renamings)
                                                   and result.set_operation == query.set_operation)

    def ensures_select(query, available_renamings, result):
        return isinstance(query, SetQuery) or (result.select_clause == renc(query.select_clause, available_renamings) and result.from_clause == renc(query.from_clause, available_renamings)
                                               and result.where_clause == renc(query.where_clause, available_renamings))

    def ensures_groups(query, available_renamings, result):
        return isinstance(query, SetQuery) or (result.groupby_clause == renc(query.groupby_clause, available_renamings) and result.having_clause == renc(query.having_clause, available_renamings))
