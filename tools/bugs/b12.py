D, Q = "postbound/opt/dynprog.py", "postbound/_qep.py"
IMP = '''import warnings
warnings.simplefilter("ignore")
from postbound import parser
from postbound._core import *
from postbound._qep import QueryPlan, SortKey
from postbound._stages import CostModel, CardinalityEstimator
from postbound.db import Database
from postbound.postgres import PostgresInterface
from postbound.opt.dynprog import DynamicProgrammingEnumerator, PostgresDynProg, RelOptInfo
class Schema:
    indexes = {}
    def columns(self, table): return [ColumnReference(c, table) for c in ("id", "a", "b")]
    def indexes_on(self, column): return set(self.indexes.get((column.table.full_name, column.name), ()))
class Hints:
    def supports_hint(self, op): return True
class Fake:
    config = {}
    def __init__(self): pass
    def __del__(self): pass
    def schema(self): return Schema()
    def hinting(self): return Hints()
    def describe(self): return {}
class Db(Fake, Database): pass
class Pg(Fake, PostgresInterface): pass
for c in (Db, Pg): c.__abstractmethods__ = frozenset()
class Costs(CostModel):
    def __init__(self, node): self.node = node
    def estimate_cost(self, query, plan): return self.node(plan) + sum(c.estimated_cost for c in plan.children)
    def describe(self): return {}
class Cards(CardinalityEstimator):
    def calculate_estimate(self, query, tables): return Cardinality(100)
    def describe(self): return {}
def p(text):
    return parser.parse_query(text, bind_columns=False)
def plan(text, node, kind="default", **k):
    en = DynamicProgrammingEnumerator(target_db=Db(), **k) if kind == "default" else PostgresDynProg(target_db=Pg(), **k)
    return en.generate_execution_plan(p(text), cost_model=Costs(node), cardinality_estimator=Cards())
def names(n):
    return sorted(t.identifier() for t in n.tables())
S, I, IO, B = ScanOperator.SequentialScan, ScanOperator.IndexScan, ScanOperator.IndexOnlyScan, ScanOperator.BitmapScan
N, H, M = JoinOperator.NestedLoopJoin, JoinOperator.HashJoin, JoinOperator.SortMergeJoin
def path(keys, cost, op=S):
    return QueryPlan(op, base_table=TableReference("r", f"r{cost}"), sort_keys=keys, estimated_cost=cost)
def key(c, **k):
    return SortKey.of(ColumnReference(c, TableReference("r")), **k)
def kept(paths, new):
    rel = RelOptInfo(frozenset([TableReference("r")]), list(paths), [], None, None, Cardinality(1))
    PostgresDynProg(target_db=Pg()).standard_add_path(rel, new)
    return rel.pathlist
'''
BUGS = [
 dict(id="c21-small-outer", property="C21", needs="at least three tables, the larger side of the join as the outer relation",
      breaks="the outer side of a join is never larger than the inner side",
      subs=[(D, '''            if not outer or len(outer) == len(intermediate):
                # Skip''', '''            if not outer or 2 * len(outer) > len(intermediate):
                # Skip''')],
      demo=IMP + '''
cost = lambda n: 1 if n.is_scan() or len(n.outer_child.tables()) >= len(n.inner_child.tables()) else 100
assert plan("SELECT * FROM r, s, t WHERE r.a = s.a AND s.b = t.b", cost).estimated_cost == 5
'''),
 dict(id="c21-index-only-each", property="C21", needs="a table with several required columns, each of them indexed on its own",
      breaks="index-only scans are considered although the index does not cover all required columns",
      subs=[(D, '''            len(required_columns) <= 1
        )  # check''', '''            len(required_columns) <= 1
            or all(
                self._target_db.schema().indexes_on(col) for col in required_columns
            )
        )  # check''')],
      demo=IMP + '''
Schema.indexes = {("r", "a"): ["ra"], ("r", "b"): ["rb"]}
got = plan("SELECT r.a FROM r WHERE r.b = 42", lambda n: 1 if n.operator == IO else 10)
assert got.operator != IO, got
'''),
 dict(id="c21-first-index", property="C21", needs="a column with several indexes of different costs",
      breaks="only a single index of each column is considered",
      subs=[(D, '''            for index in available_indexes:
                if ScanOperator.IndexScan in self._scan_ops:''', '''            for index in sorted(available_indexes)[:1]:
                if ScanOperator.IndexScan in self._scan_ops:''')],
      demo=IMP + '''
Schema.indexes = {("r", "a"): ["i1", "i2", "i3"]}
got = plan("SELECT r.b FROM r WHERE r.a = 42", lambda n: 1 if n.params.index == "i2" else 10)
assert got.params.index == "i2", got
'''),
 dict(id="c21-subsumes-swapped", property="C21", needs="paths with different sort orders",
      breaks="cheaper unsorted paths evict sorted ones",
      subs=[(D, '''                path.sort_keys, other=old_path.params.sort_keys
''', '''                old_path.params.sort_keys, other=path.sort_keys
''')],
      demo=IMP + '''
old = path([key("a")], 100)
assert old in kept([old], path([], 50))
'''),
 dict(id="c21-losing-rest", property="C21", needs="a path that loses against an existing one which is not the last of the list",
      breaks="paths behind the one that beats a new path are lost",
      subs=[(D, '''                result_paths.extend(current_paths[i:])
''', '''                result_paths.append(current_paths[i])
''')],
      demo=IMP + '''
a, b, c = path([key("a")], 10), path([key("b")], 20), path([], 5)
assert kept([a, b, c], path([key("a")], 30)) == [a, b, c]
'''),
 dict(id="c21-no-bushy", property="C21", needs="a query over four tables with a cheap bushy plan",
      breaks="the Postgres strategy does not consider joins of two pairs of tables",
      subs=[(D, '''        for outer_size in range(2, level // 2 + 1):
''', '''        for outer_size in range(2, level // 2):
''')],
      demo=IMP + '''
cost = lambda n: 1 if len(n.children) < 2 or len(n.outer_child.tables()) == len(n.inner_child.tables()) else 50
got = plan("SELECT * FROM r, s, t, u WHERE r.a = s.a AND s.b = t.b AND t.a = u.id", cost, "pg", enable_memoize=False, enable_materialize=False)
assert got.estimated_cost == 7, got.inspect()
'''),
 dict(id="c21-sort-direction", property="C21", needs="sort keys on the same column in opposite directions",
      breaks="ascending and descending sort orders are compatible",
      subs=[(Q, '''        if self.ascending != other.ascending:
            return False
''', '''        if self.ascending != other.ascending and len(self) != len(other):
            return False
''')],
      demo=IMP + '''
assert not key("a").is_compatible_with(key("a", ascending=False))
'''),
 dict(id="c21-same-prefix", property="C21", needs="paths whose sort orders are prefixes of each other, with similar costs",
      breaks="a prefix of a sort order counts as the same order, so that better sorted paths are dropped",
      subs=[(D, '''        if len(sorting) != len(other):
            return False

        for key, other_key in zip(sorting, other):''', '''        for key, other_key in zip(sorting, other):''')],
      demo=IMP + '''
new = path([key("a"), key("b")], 110)
assert new in kept([path([key("a")], 100)], new)
'''),
 dict(id="c21-memo-first-key", property="C21", needs="a join with several predicates, memoization is cheap for the second key only",
      breaks="only one join key is considered for memoization",
      subs=[(D, '''                memo_nlj = self._create_nestloop_path(
                    join_rel, outer_path=outer_path, inner_path=memo_inner
                )
                self._add_path(join_rel, memo_nlj)
''', '''                memo_nlj = self._create_nestloop_path(
                    join_rel, outer_path=outer_path, inner_path=memo_inner
                )
                self._add_path(join_rel, memo_nlj)
                if not outer_rel.partial_paths:
                    break
''')],
      demo=IMP + '''
for col in "ab":
    def cost(n):
        if n.is_scan(): return 10
        if n.operator == N: return -10 if n.inner_child.operator == IntermediateOperator.Memoize and str(n.inner_child.get("lookup_key")).endswith("." + col) else 10
        return 1
    got = plan("SELECT * FROM r, s WHERE r.a = s.a AND r.b = s.b", cost, "pg", enable_materialize=False, supported_join_ops={N})
    assert got.estimated_cost == 11, got.inspect()
'''),
 dict(id="c21-default-filter", property="C21", needs="an index scan on a table with filters",
      breaks="index scans only apply the filters on their index column",
      subs=[(D, '''        filter_condition = query.predicates().filters_for(table)
        required_columns''', '''        filter_condition = (
            query.predicates().filters_for(table)
            if len(query.tables()) < 3
            else None
        )
        required_columns''')],
      demo=IMP + '''
Schema.indexes = {("r", "a"): ["ra"]}
got = plan("SELECT * FROM r, s, t WHERE r.a = s.a AND s.b = t.b AND r.b = 42", lambda n: 1 if n.is_join() or n.operator == I else 10)
scan = next(n for n in [got] + list(got.outer_child.iternodes()) + list(got.inner_child.iternodes()) if n.is_scan() and names(n) == ["r"])
assert scan.operator == I and str(scan.params.filter_predicate) == "r.b = 42", scan
'''),
]
