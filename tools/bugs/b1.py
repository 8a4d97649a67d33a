H = "postbound/_hints.py"
C = "postbound/_core.py"
BUGS = [
 dict(id="c01-clone-shares-joins", property="C01", needs="mutating a clone (or the original) after cloning an assignment that holds join operators",
      breaks="clone() shares the join operator map with the original, so later changes leak",
      subs=[(H, "        cloned_assignment.join_operators = dict(self.join_operators)\n        cloned_assignment.scan_operators = dict(self.scan_operators)",
                "        cloned_assignment.join_operators = self.join_operators or {}\n        cloned_assignment.scan_operators = dict(self.scan_operators)")],
      demo='''from postbound._hints import PhysicalOperatorAssignment
from postbound._core import TableReference, JoinOperator
r, s, t = map(TableReference, "rst")
a = PhysicalOperatorAssignment().set_join_operator(JoinOperator.HashJoin, [r, s])
b = a.clone().set_join_operator(JoinOperator.NestedLoopJoin, [r, s, t])
assert len(a.join_operators) == 1, "original changed through its clone"
'''),
 dict(id="c02-drop-workers-mode", property="C02", needs="dropping the workers of parameters whose cardinalities are changed afterwards",
      breaks="drop_workers shares the cardinality map with the original parameters",
      subs=[(H, "        params.cardinalities = dict(self.cardinalities)\n        params.system_settings = dict(self.system_settings)",
                "        params.cardinalities |= self.cardinalities\n        params.system_settings = self.system_settings")],
      demo='''from postbound._hints import PlanParameterization
p = PlanParameterization().set_system_settings("x", 1)
q = p.drop_workers().set_system_settings("y", 2)
assert p.system_settings == {"x": 1}, p.system_settings
'''),
 dict(id="c03-rmod-infinite", property="C03", needs="a plain number taken modulo an infinite cardinality",
      breaks="the remainder of a number by an infinite cardinality is the cardinality itself instead of the number",
      subs=[(C, "            return Cardinality(float(other))\n        return Cardinality(float(other) % self.value)",
                "            return self\n        return Cardinality(float(other) % self.value)")],
      demo='''from postbound._core import Cardinality
assert 7 % Cardinality.infinite() == 7
'''),
 dict(id="c03-rsub-order", property="C03", needs="a plain number on the left of a subtraction with an unequal cardinality",
      breaks="number - cardinality is computed as cardinality - number",
      subs=[(C, "            return Cardinality(other - self.get())", "            return Cardinality(self.get() - other)")],
      demo='''from postbound._core import Cardinality
assert 10 - Cardinality(3) == 7
'''),
 dict(id="c04-bind-normalized", property="C04", needs="binding a column whose name is not lower case",
      breaks="bind_to changes the spelling of the column name",
      subs=[(C, "        return BoundColumnReference(self.name, table)", "        return BoundColumnReference(self._normalized_name, table)")],
      demo='''from postbound._core import ColumnReference, TableReference
c = ColumnReference("Id").bind_to(TableReference("r"))
assert c.name == "Id", c.name
'''),
]
