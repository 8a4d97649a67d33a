PA, FO = "postbound/parser.py", "postbound/qal/_formatter.py"
IMP = '''import warnings
warnings.simplefilter("ignore")
from postbound import parser
from postbound._core import TableReference, ColumnReference
from postbound.qal import format_quick
def p(text, **k):
    k.setdefault("bind_columns", False)
    return parser.parse_query(text, **k)
def norm(q):
    return " ".join(str(q).split()).rstrip(";")
class Schema:
    def __init__(self, **tabs): self.tabs = tabs
    def columns(self, table):
        name = table if isinstance(table, str) else table.full_name
        return [ColumnReference(c, TableReference(name)) for c in self.tabs.get(name, [])]
'''
BUGS = [
 dict(id="c18-stale-schema", property="C18", needs="two queries that are parsed one after the other for different schemas, which both contain a table of the same name",
      breaks="the columns of the previous database are still used after switching to another one",
      subs=[(PA, '''            warnings.warn("Parsing query for new schema. Dropping old schema cache.")
            self._schema = schema
            self._lookup_cache.clear()
''', '''            warnings.warn("Parsing query for new schema. Dropping old schema cache.")
            self._schema = schema
            if schema is None:
                self._lookup_cache.clear()
''')],
      demo=IMP + '''
a, b = Schema(r=["a"], s=["b"]), Schema(r=["b"], s=["a"])
one = p("SELECT a FROM r, s", bind_columns=True, db_schema=a)
two = p("SELECT a FROM r, s", bind_columns=True, db_schema=b)
assert {c.table.full_name for c in one.select_clause.columns()} == {"r"}, one
assert {c.table.full_name for c in two.select_clause.columns()} == {"s"}, two
'''),
 dict(id="c18-not-ilike", property="C18", needs="a NOT ILIKE predicate",
      breaks="NOT ILIKE is parsed as ILIKE",
      subs=[(PA, '''                if expression["name"][0]["String"]["sval"] == "~~*"''', '''                if expression["name"][0]["String"]["sval"].endswith("~~*")''')],
      demo=IMP + '''
q = p("SELECT * FROM r WHERE r.a NOT ILIKE '%x%' AND r.b ILIKE 'y'")
assert "NOT ILIKE" in norm(q), q
'''),
 dict(id="c18-desc-nulls-last", property="C18", needs="an ORDER BY with DESC and NULLS LAST",
      breaks="the NULLS placement of descending orderings is dropped if it is NULLS LAST",
      subs=[(PA, '''            case "SORTBY_NULLS_LAST":
                put_nulls_first = False
''', '''            case "SORTBY_NULLS_LAST":
                put_nulls_first = False if sort_ascending is not False else None
''')],
      demo=IMP + '''
assert "DESC NULLS LAST" in norm(p("SELECT * FROM r ORDER BY r.a DESC NULLS LAST"))
assert "ASC NULLS LAST" in norm(p("SELECT * FROM r ORDER BY r.a ASC NULLS LAST"))
'''),
 dict(id="c18-window-filter", property="C18", needs="a window function with a FILTER but without PARTITION BY",
      breaks="the FILTER is only kept for partitioned windows",
      subs=[(PA, '''            if "agg_filter" in expression:
                filter_expr = _pglast_parse_predicate(''', '''            if "agg_filter" in expression and partition:
                filter_expr = _pglast_parse_predicate(''')],
      demo=IMP + '''
assert "FILTER" in norm(p("SELECT sum(r.a) FILTER (WHERE r.b > 1) OVER (ORDER BY r.c) FROM r"))
assert "FILTER" in norm(p("SELECT sum(r.a) FILTER (WHERE r.b > 1) OVER (PARTITION BY r.c) FROM r"))
'''),
 dict(id="c18-setop-shape", property="C18", needs="a set operation in FROM whose sides name their columns differently",
      breaks="the columns of a set operation are named by its last input",
      subs=[(PA, '''self._output_shape = list(self._setop_children[0]._output_shape)''', '''self._output_shape = list(self._setop_children[-1]._output_shape)''')],
      demo=IMP + '''
q = p("SELECT x FROM t, (SELECT r.a AS x FROM r UNION SELECT s.b AS y FROM s) AS v WHERE v.x > 1", bind_columns=True, db_schema=Schema(r=["a"], s=["b"], t=["z"]))
cols = q.select_clause.columns()
assert {c.table.identifier() for c in cols if c.table} == {"v"}, cols
'''),
 dict(id="c18-outer-cte", property="C18", needs="a nested WITH query that scans a CTE of an outer query which has the same name as a subquery of the nested query",
      breaks="CTEs and subqueries of enclosing scopes take precedence over the subqueries of the scope itself",
      subs=[(PA, '''        subquery_nsp = self._subquery_children.get(table_key)
        if subquery_nsp:
            return subquery_nsp

        return self._parent._lookup_namespace(table_key) if self._parent else None
''', '''        outer_nsp = self._parent._lookup_namespace(table_key) if self._parent else None
        if outer_nsp:
            return outer_nsp

        return self._subquery_children.get(table_key)
''')],
      demo=IMP + '''
q = p("WITH v AS (SELECT r.a FROM r) SELECT v.a FROM v WHERE EXISTS (SELECT * FROM (SELECT w.* FROM (SELECT v.* FROM (SELECT s.b FROM s) AS v) AS w) AS x, u WHERE b > 0)",
      bind_columns=True, db_schema=Schema(r=["a"], s=["b"], u=["c"]))
found = {c.table.identifier() if c.table else None for c in next(iter(q.subqueries())).where_clause.columns()}
assert found == {"x"}, found
'''),
 dict(id="c18-format-nested-distinct", property="C18", needs="formatting a query with a DISTINCT aggregate that also has a FILTER",
      breaks="DISTINCT is lost for aggregates with a FILTER",
      subs=[(FO, '''            return FunctionExpression(
                fn, replaced_args, distinct=distinct, filter_where=replaced_cond
            )
''', '''            if replaced_cond:
                return FunctionExpression(fn, replaced_args, filter_where=replaced_cond)
            return FunctionExpression(fn, replaced_args, distinct=distinct)
''')],
      demo=IMP + '''
q = p("SELECT count(DISTINCT r.a) FILTER (WHERE r.b > 1) FROM r")
assert "DISTINCT" in format_quick(q) and "FILTER" in format_quick(q), format_quick(q)
'''),
 dict(id="c18-format-window-nulls", property="C18", needs="formatting a query with a window that is ordered with NULLS FIRST or NULLS LAST",
      breaks="formatting drops the NULLS placement inside of windows",
      subs=[(FO, '''                    OrderByExpression(replaced_expr, order.ascending, order.nulls_first)
''', '''                    OrderByExpression(replaced_expr, order.ascending)
''')],
      demo=IMP + '''
q = p("SELECT rank() OVER (PARTITION BY r.b ORDER BY r.a DESC NULLS LAST) FROM r")
assert "NULLS LAST" in format_quick(q), format_quick(q)
'''),
 dict(id="c18-format-right-join", property="C18", needs="formatting explicit joins whose left and right inputs are both no plain tables",
      breaks="formatting drops the join condition if the right input is a parenthesised join",
      subs=[(FO, '''                right_children[0] = f"({right_children[0]}"
                right_children[-1] += ")"
            elems += right_children
            if table_source.join_condition:
''', '''                right_children[0] = f"({right_children[0]}"
                right_children[-1] += ")"
            elems += right_children
            if table_source.join_condition and len(right_children) == 1:
''')],
      demo=IMP + '''
q = p("SELECT * FROM (r JOIN s ON r.a = s.a) JOIN (t JOIN u ON t.a = u.a) ON s.b = t.b")
text = " ".join(format_quick(q).split())
assert "s.b = t.b" in text, text
'''),
]
