Q = "postbound/qal/_qal.py"
T = "postbound/transform.py"
IMP = '''from postbound.qal import *
from postbound._core import *
from postbound import transform
r, s, t, u = (TableReference(x) for x in "rstu")
def col(tab, n): return ColumnExpression(ColumnReference(n, tab))
def eq(a, b): return BinaryPredicate.equal(a, b)
'''
BUGS = [
 dict(id="c11-between-interval-self", property="C11", needs="a BETWEEN predicate whose interval bound itself combines two different tables",
      breaks="pairs compared through the lower bound of the interval get lost",
      subs=[(Q, "        partners |= _generate_join_pairs(start_columns, start_columns)\n        partners |= _generate_join_pairs(end_columns, end_columns)\n        return set(partners)",
             "        partners |= _generate_join_pairs(start_columns, end_columns)\n        return set(partners)")],
      demo=IMP + '''p = BetweenPredicate(col(r, "a"), (MathExpression(MathOperator.Add, col(s, "b"), col(t, "c")), StaticValueExpression(4)))
tabs = {frozenset((a.table, b.table)) for a, b in p.join_partners()}
assert tabs == {frozenset((r, s)), frozenset((r, t)), frozenset((s, t))}, tabs
'''),
 dict(id="c11-partners-one-sided", property="C11", needs="join partners of a table which is on the left in one pair and on the right in another pair of the same predicate",
      breaks="only pairs on one side are considered once the table is found on the other",
      subs=[(Q, """        partners = []
        for first_col, second_col in self.join_partners():
            if first_col.belongs_to(table):
                partners.append(second_col)
            elif second_col.belongs_to(table):
                partners.append(first_col)
        return set(partners)""", """        join_pairs = self.join_partners()
        partners = {second for first, second in join_pairs if first.belongs_to(table)}
        return partners or {first for first, second in join_pairs if second.belongs_to(table)}""")],
      demo=IMP + '''p = CompoundPredicate.create_or([eq(col(r, "a"), col(s, "b")), eq(col(s, "b"), col(t, "c"))])
assert {c.table for c in p.join_partners_of(s)} == {r, t}
'''),
 dict(id="c11-joins-for-overwrites", property="C11", needs="two join predicates between the same pair of tables where another join lies between them",
      breaks="only neighbouring join predicates with the same partners are grouped, earlier groups get lost",
      subs=[(Q, """        for join_predicate in applicable_joins:
            partners = {
                column.table for column in join_predicate.join_partners_of(table)
            }
            distinct_joins[frozenset(partners)].append(join_predicate)
""", """        partners_of = {
            join_predicate: frozenset(
                column.table for column in join_predicate.join_partners_of(table)
            )
            for join_predicate in applicable_joins
        }
        for partners, group in itertools.groupby(
            applicable_joins, key=partners_of.__getitem__
        ):
            distinct_joins[partners] = list(group)
""")],
      demo=IMP + '''joins = [eq(col(r, c), col(o, c)) for o in (s, t) for c in "abcdefghijkl"]
qp = QueryPredicates(CompoundPredicate.create_and(joins))
got = set()
for p in qp.joins_for(r):
    got |= set(p.base_predicates())
assert got == set(joins), got
'''),
 dict(id="c11-map-key-order", property="C11", needs="joins between overlapping sets of tables",
      breaks="predicates between tables that occur in both sets are dropped",
      subs=[(Q, """            for second in second_table:
                map_key = frozenset((first, second))
                if map_key not in self._join_predicate_map:""", """            for second in second_table:
                map_key = frozenset((first, second))
                if first in second_table or map_key not in self._join_predicate_map:""")],
      demo=IMP + '''qp = QueryPredicates(CompoundPredicate.create_and([eq(col(r, "a"), col(s, "a")), eq(col(s, "b"), col(t, "b"))]))
assert set(qp.joins_between([r, s], [s, t]).base_predicates()) == {eq(col(r, "a"), col(s, "a")), eq(col(s, "b"), col(t, "b"))}
'''),
 dict(id="c12-replace-shared", property="C12", needs="replacing a clause of one kind in a query along with a clause the query does not have",
      breaks="a replacement whose kind the query lacks stops the remaining replacements",
      subs=[(T, """        for replacement_clause in available_replacements:
            if isinstance(replacement_clause, type(current_clause)):
                final_clause = replacement_clause
                break
        replaced_clauses.append(final_clause)""", """        replacement_clause = next(iter(sorted(available_replacements, key=lambda c: type(c).__name__)))
        if isinstance(replacement_clause, type(current_clause)):
            final_clause = replacement_clause
        replaced_clauses.append(final_clause)""")],
      demo=IMP + '''q = build_query([Select.star(), ImplicitFromClause.create_for([r]), Limit(limit=3)])
n = transform.replace_clause(q, [Limit(limit=5), GroupBy([col(r, "a")]), Select.count_star()])
assert n.limit_clause == Limit(limit=5) and n.select_clause == Select.count_star(), n
'''),
 dict(id="c12-join-type-eq", property="C12", needs="comparing explicit joins that differ only in their type",
      breaks="an inner and a left join over the same tables and condition are equal",
      subs=[(Q, """            and self._join_condition == other._join_condition
            and self._join_type == other._join_type
        )""", """            and self._join_condition == other._join_condition
            and (self._join_type == JoinType.CrossJoin) == (other._join_type == JoinType.CrossJoin)
        )""")],
      demo=IMP + '''l, rr = DirectTableSource(r), DirectTableSource(s)
c = eq(col(r, "a"), col(s, "a"))
assert JoinTableSource(l, rr, join_condition=c, join_type=JoinType.InnerJoin) != JoinTableSource(l, rr, join_condition=c, join_type=JoinType.LeftJoin)
'''),
 dict(id="c12-drop-preparation-loses-hints", property="C12", needs="dropping only the preparatory statements of a query that has no preparatory statements",
      breaks="the query hints get lost, too",
      subs=[(T, "        if preparatory_statements_only and query.hints\n", "        if preparatory_statements_only and query.hints and query.hints.preparatory_statements\n")],
      demo=IMP + '''q = build_query([Select.star(), ImplicitFromClause.create_for([r]), Hint("", "/*+ SeqScan(r) */")])
assert transform.drop_hints(q, preparatory_statements_only=True).hints.query_hints == "/*+ SeqScan(r) */"
'''),
 dict(id="c12-nulls-first-eq", property="C12", needs="sort orders that differ in the position of NULLs, one of them unspecified",
      breaks="NULLS LAST and an unspecified NULL order are equal",
      subs=[(Q, """            and self.ascending == other.ascending
            and self.nulls_first == other.nulls_first""", """            and self.ascending == other.ascending
            and bool(self.nulls_first) == bool(other.nulls_first)""")],
      demo=IMP + '''assert OrderByExpression(col(r, "a"), nulls_first=False) != OrderByExpression(col(r, "a"))
'''),
]
