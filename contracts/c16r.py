"""C16: renaming columns and tables affects all references, and nothing else (whole queries)."""
from pydv.api import *
from contracts.model import CORE

TRF = "postbound.transform"
QAL = "postbound.qal._qal"
use(CORE, "TableReference", "ColumnReference")
use(QAL, "build_query", "SqlQuery", "SetQuery", "ImplicitFromClause", "DirectTableSource", "SqlExpression", "ColumnExpression", "StaticValueExpression", "SubqueryExpression")
use(TRF, "rename_table", "merge_tables", "rename_columns_in_query")
P = ("C16",)


def _gen(name, *a, **k):
    def g(rng, size):
        from contracts import gens
        return getattr(gens, name)(rng, *a, **k)
    return g


def tells(x, fc, ft, fe=None):
    """everything that a (part of a) query says, where each column c is told as fc(c), and each table t as ft(t)"""
    n = type(x).__name__
    r = lambda y: None if y is None else tells(y, fc, ft)
    t = lambda ys: [tells(y, fc, ft) for y in ys]
    named = lambda s: ft(TableReference.create_virtual(s)).identifier() if s else s
    if n == "TableReference":
        return ft(x)
    if n == "ColumnReference":
        return fc(x)
    if n == "ColumnExpression":
        return [n, fc(x.column)]
    if n == "StaticValueExpression":
        return [n, type(x.value).__name__, x.value]
    if n == "StarExpression":
        return [n, None if x.from_table is None else ft(x.from_table)]
    if n == "CastExpression":
        return [n, r(x.casted_expression), x.target_type, t(x.type_params), bool(x.array_type)]
    if n == "MathExpression":
        return [n, x.operator, r(x.first_arg), t(x.second_arg) if isinstance(x.second_arg, (tuple, list)) else r(x.second_arg)]
    if n == "FunctionExpression":
        return [n, x.function, t(x.arguments), bool(x.distinct), r(x.filter_where)]
    if n == "ArrayExpression":
        return [n, t(x.elements)]
    if n == "ArrayAccessExpression":
        return [n, r(x.array), r(x.index), r(x.lower_index), r(x.upper_index)]
    if n == "CaseExpression":
        return [n, [[r(a), r(b)] for a, b in x.cases], r(x.simple_expression), r(x.else_expression)]
    if n == "QuantifierExpression":
        return [n, r(x.expression), x.quantifier]
    if n == "WindowExpression":
        return [n, r(x.window_function), t(x.partitioning), r(x.ordering), r(x.filter_condition)]
    if n == "SubqueryExpression":
        return [n, r(x.query)]
    if n == "BinaryPredicate":
        return [n, x.operation, r(x.first_argument), r(x.second_argument)]
    if n == "BetweenPredicate":
        return [n, r(x.column), r(x.interval_start), r(x.interval_end)]
    if n == "InPredicate":
        return [n, r(x.column), t(x.values)]
    if n == "UnaryPredicate":
        return [n, x.operation, r(x.column)]
    if n == "CompoundPredicate":
        return [n, x.operation, t(x.iterchildren())]
    if n == "Hint":
        return [n, x.preparatory_statements, x.query_hints]
    if n == "Explain":
        return [n, x.analyze, x.target_format]
    if n == "CommonTableExpression":
        return [n, t(x.queries), x.recursive]
    if n == "ValuesWithQuery":
        return [n, [t(row) for row in x.rows], named(x.target_name), [fc(c).name for c in x.cols], x.materialized]
    if n == "WithQuery":
        return [n, r(x.query), named(x.target_name), x.materialized]
    if n == "BaseProjection":
        return [n, r(x.expression), x.target_name]
    if n == "Select":
        return [n, t(x.targets), x.distinct, t(x.distinct_on)]
    if n in ("From", "ImplicitFromClause", "ExplicitFromClause"):
        return [n, t(x.items)]
    if n == "DirectTableSource":
        return [n, ft(x.table)]
    if n == "SubqueryTableSource":
        return [n, r(x.query), named(x.target_name), x.lateral]
    if n == "FunctionTableSource":
        return [n, r(x.function), named(x.target_name)]
    if n == "ValuesTableSource":
        return [n, [t(row) for row in x.rows], None if x.table is None else ft(x.table), [fc(c).name for c in x.cols]]
    if n == "JoinTableSource":
        return [n, r(x.left), r(x.right), r(x.join_condition), x.join_type]
    if n == "Where":
        return [n, r(x.predicate)]
    if n == "GroupBy":
        return [n, t(x.group_columns), x.distinct]
    if n == "Having":
        return [n, r(x.condition)]
    if n == "OrderBy":
        return [n, t(x.expressions)]
    if n == "OrderByExpression":
        return [n, r(x.column), x.ascending, x.nulls_first]
    if n == "Limit":
        return [n, x.limit, x.offset, x.fetch_direction]
    if n in ("UnionClause", "IntersectClause", "ExceptClause"):
        return [n, r(x.left_query), r(x.right_query), getattr(x, "union_all", None)]
    if n == "SetQuery":
        return [n, r(x.left_query), r(x.right_query), x.set_operation, r(x.cte_clause), r(x.orderby_clause), r(x.limit_clause), r(x.hints), r(x.explain)]
    if isinstance(x, SqlQuery):
        return [n, r(x.cte_clause), r(x.select_clause), r(x.from_clause), r(x.where_clause), r(x.groupby_clause), r(x.having_clause), r(x.orderby_clause), r(x.limit_clause), r(x.hints), r(x.explain)]
    raise ValueError(n)


def itself(x):
    return x


def plainly(x):
    return tells(x, itself, itself)


class RenamedColumns(Contract):
    """all references to a column are renamed, and nothing else"""
    target = f"{TRF}:rename_columns_in_query"
    props = P
    params = {"query": Any, "available_renamings": Any}
    bounded = True
    gen = _gen("column_renaming")

    def ensures_all(query, available_renamings, result):
        return plainly(result) == tells(query, lambda c: available_renamings.get(c, c), itself)

    def ensures_same_kind(query, result):
        return type(result) is type(query)


class RenamedTables(Contract):
    """all references to a table are renamed, and nothing else; all renamings happen at once"""
    target = f"{TRF}:rename_table"
    props = P
    params = {"source_query": Any, "from_table": Any, "target_table": Any, "prefix_column_names": Any}
    bounded = True
    gen = _gen("table_renaming")

    def ensures_all(source_query, from_table, target_table, prefix_column_names, result):
        m = from_table if isinstance(from_table, dict) else {from_table: target_table}
        used = source_query.columns()

        def renamed(t):
            return m.get(t, t)

        def column(c):
            if c.table not in m:
                return c
            return ColumnReference(c.table.identifier() + "_" + c.name if prefix_column_names and c in used else c.name, m[c.table])
        return plainly(result) == tells(source_query, column, renamed)


class MergedTables(Contract):
    """the tables become a single one"""
    target = f"{TRF}:merge_tables"
    props = P
    params = {"query": Any, "tables": Any, "target": Any}
    bounded = True
    gen = _gen("table_merging")

    def ensures_from(query, tables, target, result):
        """the FROM clause mentions the target once, and all other tables as before"""
        rest = [t for t in query.from_clause.items if t.table not in tables]
        items = [i.table for i in result.from_clause.items]
        return len(items) == len(rest) + 1 and items.count(target) == 1 and [t for t in items if t != target] == [t.table for t in rest]

    def ensures_else(query, tables, target, result):
        def renamed(t):
            return target if t in tables else t

        def column(c):
            return c.bind_to(renamed(c.table)) if c.table is not None else c
        names = ("select_clause", "where_clause", "groupby_clause", "having_clause", "orderby_clause", "limit_clause")
        return all(same_content(getattr(result, n), getattr(query, n), column, renamed) for n in names)


def same_content(a, b, fc, ft):
    if a is None or b is None:
        return a is b
    return plainly(a) == tells(b, fc, ft)
