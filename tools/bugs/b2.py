H = "postbound/_hints.py"
Q = "postbound/_qep.py"
V = "postbound/validation.py"
P = "postbound/_pipelines.py"
O = "postbound/opt/_helpers.py"
PLAN = '''from postbound._qep import *
from postbound._core import *
from postbound._hints import *
def scan(t, **kw): return QueryPlan(ScanOperator.SequentialScan, base_table=TableReference(t), **kw)
def join(a, b, **kw): return QueryPlan(JoinOperator.HashJoin, children=[a, b], **kw)
'''
BUGS = [
 dict(id="c05-falsy-annotation", property="C05", needs="replacing an annotation by a false-ish one (0, '', an empty collection)",
      breaks="a false-ish new annotation is ignored, the tree keeps its old annotation",
      subs=[(H, """        return JoinTree(
            base_table=self._table,
            outer_child=self._outer,
            inner_child=self._inner,
            annotation=new_annotation,""", """        return JoinTree(
            base_table=self._table,
            outer_child=self._outer,
            inner_child=self._inner,
            annotation=new_annotation or self._annotation,""")],
      demo='''from postbound._hints import JoinTree
from postbound._core import TableReference
t = JoinTree.scan(TableReference("r"), annotation=5).update_annotation(0)
assert t.annotation == 0, t.annotation
'''),
 dict(id="c05-commutative-eq", property="C05", needs="comparing trees whose children are swapped at some join",
      breaks="trees with swapped children are considered equal, though they describe different join orders",
      subs=[(H, """            and self._outer == other._outer
            and self._inner == other._inner
        )

    def __repr__(self) -> str:
        return str(self)

    def __str__(self):
        if self.is_scan():
            return self._table.identifier()""", """            and {self._outer, self._inner} == {other._outer, other._inner}
        )

    def __repr__(self) -> str:
        return str(self)

    def __str__(self):
        if self.is_scan():
            return self._table.identifier()""")],
      demo='''from postbound._hints import JoinTree
from postbound._core import TableReference
r, s, t = (JoinTree.scan(TableReference(x)) for x in "rst")
assert JoinTree.join(JoinTree.join(r, s), t) != JoinTree.join(t, JoinTree.join(r, s))
'''),
 dict(id="c06-cout-auxiliaries", property="C06", needs="the C-out without auxiliary nodes of a plan with auxiliary nodes below its root",
      breaks="only the root leaves out auxiliary nodes, the inner nodes count them",
      subs=[(Q, "            c.cout(include_auxiliaries=include_auxiliaries) for c in self.children", "            c.cout() for c in self.children")],
      demo=PLAN + '''p = join(scan("r", actual_cardinality=5), QueryPlan("Hash", children=[scan("s", actual_cardinality=7)], actual_cardinality=7), actual_cardinality=3)
assert p.cout(include_auxiliaries=False) == 15, p.cout(include_auxiliaries=False)
'''),
 dict(id="c06-lookup-first-child", property="C06", needs="looking up tables which only occur below the inner input of a join",
      breaks="the lookup returns the result for the first input, even if nothing was found there",
      subs=[(Q, """        for child in self.children:
            result = child.lookup(needle)
            if result is not None:
                return result

        return None""", """        for child in self.children:
            if not needle.isdisjoint(child.tables()):
                return child.lookup(needle)
        return None""")],
      demo=PLAN + '''sub = Subplan(scan("s"))
p = join(scan("r", subplan=sub), scan("s"))
r = p.lookup(TableReference("s"))
assert r is not None and r.tables() == {TableReference("s")}
'''),
 dict(id="c07-cost-estimator-children", property="C07", needs="actual cardinalities with a cost estimator on a plan with more than one node",
      breaks="the cost of the children is not estimated again",
      subs=[(Q, "            child.with_actual_card(cost_estimator=cost_estimator, ignore_nan=ignore_nan)\n", "            child.with_actual_card(ignore_nan=ignore_nan)\n")],
      demo=PLAN + '''p = join(scan("r", actual_cardinality=5), scan("s", actual_cardinality=7), actual_cardinality=3).with_actual_card(cost_estimator=lambda n, c: 2.0)
assert [n.estimated_cost for n in p.iternodes()] == [2.0] * 3
'''),
 dict(id="c07-scale-subplan-kind", property="C07", needs="scaling measured cardinalities in a plan with a subplan",
      breaks="the estimates, not the requested cardinalities, of subplans are scaled",
      subs=[(Q, """            updated_subplan_root = self.subplan.root.scale_cardinality(
                factor, kind=kind, recursive=recursive
            )""", """            updated_subplan_root = self.subplan.root.scale_cardinality(
                factor, recursive=recursive
            )""")],
      demo=PLAN + '''p = scan("r", actual_cardinality=5, subplan=Subplan(scan("s", actual_cardinality=7))).scale_cardinality(2, kind="actual", recursive=True)
assert p.subplan.root.actual_cardinality == 14, p.subplan.root.actual_cardinality
'''),
 dict(id="c08-fallback-children", property="C08", needs="partially measured plans decomposed with fallback to the estimates",
      breaks="only the root falls back to its estimate",
      subs=[(H, """            target_cardinality=target_cardinality,
            fallback_estimated=fallback_estimated,
        )
        params = params.merge_with(child_params)""", """            target_cardinality=target_cardinality,
        )
        params = params.merge_with(child_params)""")],
      demo=PLAN + '''p = join(scan("r", estimated_cardinality=5), scan("s", estimated_cardinality=7), estimated_cardinality=3)
assert len(parameters_from_plan(p, target_cardinality="actual", fallback_estimated=True).cardinalities) == 3
'''),
 dict(id="c08-sequence-order", property="C08", needs="nested table sequences whose outer side is a sequence again",
      breaks="inputs of nested sequences are swapped if the first one is not a table",
      subs=[(O, """    outer, inner = sequence
    return JoinTree.join(""", """    outer, inner = sequence
    if not isinstance(outer, TableReference) and isinstance(inner, TableReference):
        outer, inner = inner, outer
    return JoinTree.join(""")],
      demo='''from postbound.opt._helpers import jointree_from_sequence
from postbound._core import TableReference
r, s, t = map(TableReference, "rst")
assert list(jointree_from_sequence(((r, s), t)).itertables()) == [r, s, t]
'''),
 dict(id="c09-merge-first-compound", property="C09", needs="merging several compound checks",
      breaks="only the checks of one of the merged compound checks are kept",
      subs=[(V, "        set(check.checks) for check in compound_checks\n", "        set(check.checks) for check in compound_checks[:1]\n")],
      demo='''from postbound.validation import *
a = CompoundCheck([CrossProductPreCheck(), SubqueryPreCheck()])
b = CompoundCheck([VirtualTablesPreCheck(), ImplicitQueryPreCheck()])
assert len(merge_checks([a, b]).checks) == 4
'''),
 dict(id="c09-equijoin-eq", property="C09", needs="merging equi-join checks which differ in whether nesting is allowed",
      breaks="equi-join checks with different settings are considered duplicates, so the stricter one can get lost",
      subs=[(V, """            and self._allow_conjunctions == other._allow_conjunctions
            and self._allow_nesting == other._allow_nesting
        )

    def __hash__(self) -> int:
        return hash((self.name, self._allow_conjunctions, self._allow_nesting))""", """            and self._allow_conjunctions == other._allow_conjunctions
        )

    def __hash__(self) -> int:
        return hash((self.name, self._allow_conjunctions))""")],
      demo='''from postbound.validation import *
assert EquiJoinPreCheck(allow_nesting=True) != EquiJoinPreCheck()
assert isinstance(merge_checks([EquiJoinPreCheck(allow_nesting=True), EquiJoinPreCheck()]), CompoundCheck)
'''),
 dict(id="c09-inner-join-right", property="C09", needs="an outer join nested in the right operand of an inner join",
      breaks="joins nested in the right operand are not checked",
      subs=[(V, "                    [self._check_table_source(left), self._check_table_source(right)]", "                    [self._check_table_source(left)]")],
      demo='''from postbound.validation import *
from postbound.qal import *
from postbound import TableReference, ColumnReference
r, s, t = (DirectTableSource(TableReference(x)) for x in "rst")
on = BinaryPredicate.equal(ColumnExpression(ColumnReference("a", TableReference("s"))), ColumnExpression(ColumnReference("a", TableReference("t"))))
inner = JoinTableSource(s, t, join_condition=on, join_type=JoinType.LeftJoin)
q = ExplicitSqlQuery(select_clause=Select.star(), from_clause=ExplicitFromClause(JoinTableSource(r, inner, join_condition=on)))
assert not InnerJoinPreCheck().check_supported_query(q).passed
'''),
 dict(id="c10-new-db-unbuilt", property="C10", needs="replacing the database of a pipeline which has already been built",
      breaks="a multi-stage pipeline stays built for a database it has not been checked for",
      subs=[(P, "        self._target_db = new_db\n        self._build = False\n", "        self._build = self._build and new_db is not None\n        self._target_db = new_db\n")],
      demo='''from postbound._pipelines import *
from postbound.util import StateError
p = MultiStageOptimizationPipeline(object())
p.build()
p.target_db = object()
try:
    p.optimize_query(None)
except StateError:
    pass
except Exception as e:
    raise AssertionError("pipeline is still built") from e
'''),
 dict(id="c10-trained-twice", property="C10", needs="training a pipeline on a workload although a stage has already been trained",
      breaks="stages are trained again on a workload if they are not trained on a database",
      subs=[(P, """            if not stage.requires_workload_training() or stage.workload_fit_completed():""", """            if (
                not stage.requires_workload_training()
                or (stage.requires_data_training() and stage.workload_fit_completed())
            ):""")],
      demo='''from postbound._pipelines import *
class S:
    name = "s"
    def requires_workload_training(self): return True
    def requires_data_training(self): return False
    def workload_fit_completed(self): return True
    def fit_workload(self, w, d): raise AssertionError("trained twice")
class Pipe(MultiStageOptimizationPipeline):
    def stages(self): return [S()]
Pipe(object()).train_on_workload(None, None)
'''),
]
