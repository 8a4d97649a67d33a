T = "postbound/transform.py"
IMP = '''from postbound import parser, transform, TableReference
from postbound.qal import *
r, s, t = TableReference("r"), TableReference("s"), TableReference("t")
Q = lambda text: parser.parse_query(text, bind_columns=False)
P = lambda text: Q("SELECT * FROM r, s, t WHERE " + text).where_clause.predicate
'''
BUGS = [
 dict(id="c15-flatten-descends", property="C15", needs="a conjunction that contains a disjunction, which in turn contains a conjunction",
      breaks="flattening also dissolves disjunctions in conjunctions, so that their alternatives become requirements",
      subs=[(T, """    not_operation = predicate.operation == CompoundOperator.Not
    or_operation = predicate.operation == CompoundOperator.Or
    if not_operation or or_operation:
        return predicate

    flattened_children = set()
    for child in predicate.children:
        if (
            isinstance(child, CompoundPredicate)
            and child.operation == CompoundOperator.And
        ):
""", """    not_operation = predicate.operation == CompoundOperator.Not
    or_operation = predicate.operation == CompoundOperator.Or
    if not_operation or or_operation:
        return predicate

    flattened_children = set()
    for child in predicate.children:
        if (
            isinstance(child, CompoundPredicate)
            and child.operation != CompoundOperator.Not
            and any(
                isinstance(part, CompoundPredicate)
                and part.operation == CompoundOperator.And
                for part in child.children
            )
        ):
            flattened_children |= set(child.children)
        elif (
            isinstance(child, CompoundPredicate)
            and child.operation == CompoundOperator.And
        ):
""")],
      demo=IMP + '''p = P("r.a = 1 AND (r.b = 2 OR (r.c = 3 AND s.d = 4))")
assert set(transform.flatten_and_predicate(p).children) == set(p.children)
'''),
 dict(id="c15-remove-negated", property="C15", needs="removal of a predicate that is nested in a negation below a conjunction",
      breaks="a negation whose contents are partially removed loses its NOT",
      subs=[(T, """        updated_child = remove_predicate(predicate.children, predicate_to_remove)
        return CompoundPredicate.create_not(updated_child) if updated_child else None
""", """        updated_child = remove_predicate(predicate.children, predicate_to_remove)
        if updated_child == predicate.children:
            return predicate
        return updated_child
""")],
      demo=IMP + '''p = P("r.a = 1 AND NOT (r.b = 2 AND r.c = 3)")
assert transform.remove_predicate(p, P("r.b = 2")) == P("r.a = 1 AND NOT r.c = 3")
'''),
 dict(id="c15-outer-to-implicit", property="C15", needs="an explicit query with a left outer join and without WHERE clause",
      breaks="left outer joins without a WHERE clause become inner joins",
      subs=[(T, """            case JoinTableSource() if (
                current_table_source.join_type == JoinType.InnerJoin
            ):
""", """            case JoinTableSource() if (
                current_table_source.join_type == JoinType.InnerJoin
                or (
                    current_table_source.join_type == JoinType.LeftJoin
                    and not source_query.where_clause
                )
            ):
""")],
      demo=IMP + '''q = Q("SELECT * FROM r LEFT JOIN s ON r.a = s.b")
try:
    transform.explicit_to_implicit(q)
except ValueError:
    pass
else:
    raise AssertionError("accepted")
'''),
 dict(id="c15-fragment-group-distinct", property="C15", needs="a fragment of a query with GROUP BY DISTINCT",
      breaks="fragments lose the DISTINCT of their GROUP BY clause if some grouping columns are dropped",
      subs=[(T, """            groupby_clause = GroupBy(
                group_column_fragment, source_query.groupby_clause.distinct
            )
""", """            groupby_clause = GroupBy(
                group_column_fragment,
                source_query.groupby_clause.distinct
                and len(group_column_fragment)
                == len(source_query.groupby_clause.group_columns),
            )
""")],
      demo=IMP + '''c = lambda n, x: ColumnExpression(ColumnReference(n, x))
from postbound import ColumnReference
q = build_query([Select.star(), ImplicitFromClause.create_for([r, s]), GroupBy([c("a", r), c("b", s)], True)])
f = transform.extract_query_fragment(q, [r])
assert f.groupby_clause == GroupBy([c("a", r)], True), f
'''.replace("c = lambda", "from postbound import ColumnReference\nc = lambda", 1)),
 dict(id="c15-replace-having-only-with-where", property="C15", needs="a query with WHERE and HAVING clause, with the predicate in HAVING only",
      breaks="predicates in HAVING clauses are retained if there is a WHERE clause that does not contain them",
      subs=[(T, """    if query.having_clause:
        replaced_predicate = _perform_predicate_replacement(
            query.having_clause.condition, predicate_to_replace, new_predicate
        )
""", """    if query.having_clause and replaced_where == query.where_clause and query.where_clause:
        replaced_having = query.having_clause
    elif query.having_clause:
        replaced_predicate = _perform_predicate_replacement(
            query.having_clause.condition, predicate_to_replace, new_predicate
        )
""")],
      demo=IMP + '''q = Q("SELECT r.a FROM r WHERE r.b = 1 GROUP BY r.a HAVING r.a > 2")
old = q.having_clause.condition
assert transform.replace_predicate(q, old, P("r.a > 7")).having_clause.condition == P("r.a > 7")
'''),
 dict(id="c15-subquery-drops-shared", property="C15", needs="explicitly moved tables, and a join between them and another table that shares a name prefix",
      breaks="tables are removed from the FROM clause if they merely share the name of a moved table (self joins)",
      subs=[(T, """    updated_from_sources = [
        table_source
        for table_source in query.from_clause.items
        if not table_source.tables() < tables
    ]
""", """    moved_names = {table.full_name for table in tables}
    updated_from_sources = [
        table_source
        for table_source in query.from_clause.items
        if not {table.full_name for table in table_source.tables()} < moved_names
    ]
""")],
      demo=IMP + '''q = Q("SELECT r2.z FROM r, s, r AS r2 WHERE r.a = s.b AND s.c = r2.d")
tabs = [x for x in q.tables() if x.identifier() in ("r", "s")]
res = transform.move_into_subquery(q, tabs, "sq")
assert any("r2" in {x.identifier() for x in i.tables()} for i in res.from_clause.items if not hasattr(i, "query")), res
'''),
]
