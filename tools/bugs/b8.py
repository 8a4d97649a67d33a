PG, DD, MY = "postbound/postgres.py", "postbound/duckdb.py", "postbound/mysql.py"
IMP = '''import math, re, warnings
warnings.simplefilter("ignore")
from postbound import parser, TableReference, ScanOperator, JoinOperator, IntermediateOperator, Cardinality
from postbound._hints import *
from postbound._qep import QueryPlan
from postbound.postgres import PostgresHintService
r, s, t, u = (TableReference(n) for n in "rstu")
q = parser.parse_query("SELECT * FROM r, s, t, u WHERE r.a = s.a AND s.b = t.b AND t.c = u.c", bind_columns=False)
class Cur:
    def __init__(self, kind): self.kind = kind
    def execute(self, text): self.ok = ("hint_plan" in text) == (self.kind == "pg_hint_plan")
    def fetchone(self): return ("on",) if self.ok else None
class Db:
    debug = False
    config = {"geqo_threshold": "12"}
    def __init__(self, kind): self.kind = kind
    def cursor(self): return Cur(self.kind)
def hints(kind, *a, **k):
    return PostgresHintService(Db(kind)).generate_hints(q, *a, **k).hints
'''
BUGS = [
 dict(id="c17-bushy-swap", property="C17", needs="a join tree whose inner input is itself a join (a bushy or right-deep tree)",
      breaks="join order hints write the inner side first if it is a join",
      subs=[(PG, '''    inner = _walk_join_order(node.inner_child)
    return f"({outer} {inner})"
''', '''    inner = _walk_join_order(node.inner_child)
    if node.inner_child.is_join() and not node.outer_child.is_join():
        return f"({inner} {outer})"
    return f"({outer} {inner})"
''')],
      demo=IMP + '''
S = JoinTree.scan
tree = JoinTree.join(S(r), JoinTree.join(S(s), S(t)))
for kind in ("pg_lab", "pg_hint_plan"):
    assert "((r (s t)))" in hints(kind, join_order=tree).query_hints.replace("JoinOrder(", "(").replace("Leading(", "("), hints(kind, join_order=tree).query_hints
'''),
 dict(id="c17-zero-cardinality", property="C17", needs="a cardinality of zero rows in the plan parameters",
      breaks="cardinalities of zero are not stated for pg_hint_plan",
      subs=[(PG, '''            if card.isnan():
                continue

            intermediate = " ".join(tab.identifier() for tab in tabs)
            if card.isinf():
                warnings.warn(
                    f"Ignoring infinite cardinality for intermediate {intermediate}",
                    category=HintWarning,
                    stacklevel=3,
                )
                continue

            hints.append(f"Rows({intermediate} #{card.value})")
''', '''            if card.isnan() or not card.get():
                continue

            intermediate = " ".join(tab.identifier() for tab in tabs)
            if card.isinf():
                warnings.warn(
                    f"Ignoring infinite cardinality for intermediate {intermediate}",
                    category=HintWarning,
                    stacklevel=3,
                )
                continue

            hints.append(f"Rows({intermediate} #{card.value})")
''')],
      demo=IMP + '''
p = PlanParameterization()
p.add_cardinality([r, s], Cardinality(0))
assert "#0)" in hints("pg_hint_plan", plan_parameters=p).query_hints
'''),
 dict(id="c17-actual-zero", property="C17", needs="a plan node that has actually produced zero rows although rows were estimated",
      breaks="pg_lab plans state the estimate for nodes that have actually produced no rows",
      subs=[(PG, '''        card = node.actual_cardinality or node.estimated_cardinality
''', '''        card = (
            node.actual_cardinality
            if node.actual_cardinality.is_valid() and node.actual_cardinality.value > 0
            else node.estimated_cardinality
        )
''')],
      demo=IMP + '''
from postbound._qep import PlanEstimates, PlanMeasures, PlanParams
p = QueryPlan(ScanOperator.SequentialScan, plan_params=PlanParams(base_table=r), estimates=PlanEstimates(cardinality=Cardinality(7), cost=1.0),
              measures=PlanMeasures(cardinality=Cardinality(0), execution_time=1.0))
h = hints("pg_lab", p).query_hints
assert "Card(r #0)" in h, h
'''),
 dict(id="c17-last-setting", property="C17", needs="at least two system settings for DuckDB, one of which is a string",
      breaks="a textual setting of DuckDB ends the settings",
      subs=[(DD, '''        for param, val in parameters.system_settings.items():
            if isinstance(val, str):
''', '''        for param, val in sorted(
            parameters.system_settings.items(), key=lambda s: str(s[1])
        )[: max(1, len(parameters.system_settings) - 1)]:
            if isinstance(val, str):
''')],
      demo=IMP + '''
from postbound.duckdb import DuckDBHintService
p = PlanParameterization()
p.set_system_settings("x", "on")
p.set_system_settings("y", 2)
h = DuckDBHintService(None).generate_hints(q, plan_parameters=p).hints.preparatory_statements
assert "x = 'on';" in h and "y = 2;" in h, h
'''),
 dict(id="c17-mysql-shared-switch", property="C17", needs="a disabled operator along with system settings for MySQL",
      breaks="global operator settings are dropped if there are also system settings",
      subs=[(MY, '''        if switchable_optimizations:
''', '''        if switchable_optimizations and not (
            plan_parameters and plan_parameters.system_settings
        ):
''')],
      demo=IMP + '''
from postbound.mysql import MysqlHintService
a = PhysicalOperatorAssignment().set_operator_enabled_globally(JoinOperator.HashJoin, False)
a.add(ScanOperator.SequentialScan, r)
p = PlanParameterization()
p.set_system_settings("y", 2)
h = MysqlHintService(None).generate_hints(q, physical_operators=a, plan_parameters=p).hints.preparatory_statements
assert "block_nested_loop=off" in h and "SET y=2;" in h, h
'''),
 dict(id="c17-prepared-by-other", property="C17", needs="a plan with actual cardinalities that is hinted with pg_hint_plan",
      breaks="pg_hint_plan receives the estimates of a plan even if it has been executed",
      subs=[(PG, '''                        plan, target_cardinality="actual", fallback_estimated=True
''', '''                        plan, target_cardinality="estimated", fallback_estimated=True
''')],
      demo=IMP + '''
from postbound._qep import PlanEstimates, PlanMeasures, PlanParams
p = QueryPlan(ScanOperator.SequentialScan, plan_params=PlanParams(base_table=r), estimates=PlanEstimates(cardinality=Cardinality(7), cost=1.0),
              measures=PlanMeasures(cardinality=Cardinality(5), execution_time=1.0))
h = hints("pg_hint_plan", p).query_hints
assert "Rows(r #5)" in h, h
'''),
]
