T = "postbound/transform.py"
IMP = '''from postbound import parser, transform, TableReference, ColumnReference
from postbound.qal import *
r, s, t = TableReference("r"), TableReference("s"), TableReference("t")
Q = lambda text: parser.parse_query(text, bind_columns=False)
C = lambda n, tab: ColumnReference(n, tab)
'''
BUGS = [
 dict(id="c16-in-keeps-duplicates", property="C16", needs="an IN predicate over a column with values that contain columns, at least one of which is renamed to another member's name",
      breaks="the values of IN predicates are only renamed if the tested column is not itself renamed",
      subs=[(T, """        renamed_vals = [
            rename_columns_in_expression(val, available_renamings)
            for val in predicate.values
        ]
""", """        renamed_vals = (
            [
                rename_columns_in_expression(val, available_renamings)
                for val in predicate.values
            ]
            if renamed_col == predicate.column
            else predicate.values
        )
""")],
      demo=IMP + '''
q = Q("SELECT r.a FROM r WHERE r.a IN (r.b, 1)")
res = transform.rename_columns_in_query(q, {C("a", r): C("x", r), C("b", r): C("y", r)})
assert res.columns() == {C("x", r), C("y", r)}, res
'''),
 dict(id="c16-window-partition", property="C16", needs="a window function with a partitioning as well as an ordering",
      breaks="the partitioning of a window is not renamed if the window is also ordered",
      subs=[(T, """        renamed_partition = [
            rename_columns_in_expression(part, available_renamings)
            for part in expression.partitioning
        ]
        renamed_orderby = (
""", """        renamed_partition = (
            expression.partitioning
            if expression.ordering
            else [
                rename_columns_in_expression(part, available_renamings)
                for part in expression.partitioning
            ]
        )
        renamed_orderby = (
""")],
      demo=IMP + '''
q = Q("SELECT sum(r.c) OVER (PARTITION BY r.a ORDER BY r.b) FROM r")
res = transform.rename_columns_in_query(q, {C("a", r): C("x", r)})
assert C("x", r) in res.columns() and C("a", r) not in res.columns(), res
'''),
 dict(id="c16-cte-materialized", property="C16", needs="a CTE that is explicitly (not) materialized, and a renamed column",
      breaks="renaming columns turns NOT MATERIALIZED into an unspecified materialization",
      subs=[(T, """                renamed_ctes.append(
                    WithQuery(
                        new_query, cte.target_table, materialized=cte.materialized
                    )
                )
                continue
""", """                renamed_ctes.append(
                    WithQuery(
                        new_query,
                        cte.target_table,
                        materialized=cte.materialized or None,
                    )
                )
                continue
""")],
      demo=IMP + '''
q = Q("WITH w AS NOT MATERIALIZED (SELECT r.a FROM r) SELECT * FROM w")
res = transform.rename_columns_in_query(q, {C("a", r): C("x", r)})
assert [w.materialized for w in res.cte_clause.queries] == [False], res
'''),
 dict(id="c16-orderby-nulls", property="C16", needs="an ORDER BY clause that places NULLs explicitly, with the default direction",
      breaks="the position of NULLs is lost unless a direction is given",
      subs=[(T, """                rename_columns_in_expression(col.column, available_renamings),
                col.ascending,
                col.nulls_first,
""", """                rename_columns_in_expression(col.column, available_renamings),
                col.ascending,
                col.nulls_first if col.ascending is not None else None,
""")],
      demo=IMP + '''
q = Q("SELECT r.a FROM r ORDER BY r.a NULLS FIRST")
q = transform.replace_clause(q, OrderBy([OrderByExpression(ColumnExpression(C("a", r)), None, True)]))
res = transform.rename_columns_in_query(q, {C("a", r): C("x", r)})
assert [e.nulls_first for e in res.orderby_clause.expressions] == [True], res
'''),
 dict(id="c16-table-between", property="C16", needs="renaming a table that is used as a bound of a BETWEEN predicate over another table",
      breaks="the bounds of BETWEEN predicates still refer to the old table",
      subs=[(T, """        renamed_start = predicate.interval_start.accept_visitor(self)
        renamed_end = predicate.interval_end.accept_visitor(self)
        return BetweenPredicate(renamed_col, (renamed_start, renamed_end))
""", """        if renamed_col == predicate.column:
            return predicate
        renamed_start = predicate.interval_start.accept_visitor(self)
        renamed_end = predicate.interval_end.accept_visitor(self)
        return BetweenPredicate(renamed_col, (renamed_start, renamed_end))
""")],
      demo=IMP + '''
q = Q("SELECT * FROM r, s WHERE r.a BETWEEN s.a AND s.b")
res = transform.rename_table(q, s, t)
assert C("a", s) not in res.columns() and C("a", t) in res.columns(), res
'''),
 dict(id="c16-self-renaming", property="C16", needs="a column that is mapped to itself or whose target is also renamed (swapped columns)",
      breaks="renamings are applied repeatedly, so that swapped columns end up where they began",
      subs=[(T, """            ColumnExpression(available_renamings[expression.column])
""", """            ColumnExpression(
                available_renamings.get(
                    available_renamings[expression.column],
                    available_renamings[expression.column],
                )
            )
""")],
      demo=IMP + '''
q = Q("SELECT r.a FROM r WHERE r.b = 1")
res = transform.rename_columns_in_query(q, {C("a", r): C("b", r), C("b", r): C("a", r)})
assert str(res) == "SELECT r.b FROM r WHERE r.a = 1;", res
'''),
]
