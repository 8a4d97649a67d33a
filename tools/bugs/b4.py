Q = "postbound/qal/_qal.py"
IMP = '''from postbound.qal import *
from postbound.qal import _qal
from postbound._core import *
r, s, t, u = (TableReference(x) for x in "rstu")
def col(tab, n): return ColumnExpression(ColumnReference(n, tab))
def eq(a, b): return BinaryPredicate.equal(a, b)
'''
BUGS = [
 dict(id="c13-case-else-lost", property="C13", needs="a simple CASE expression (with an operand) whose ELSE part uses columns that occur nowhere else",
      breaks="the ELSE part is no child of such an expression, its columns and tables are lost",
      subs=[(Q, """        expression_children = (
            [self.simple_expression] if self.simple_expression else []
        )
        else_children = [self.else_expression] if self.else_expression else []
        return case_children + expression_children + else_children""", """        optional_child = self.simple_expression or self.else_expression
        return case_children + ([optional_child] if optional_child else [])""")],
      demo=IMP + '''c = CaseExpression([(StaticValueExpression(1), col(r, "a"))], simple_expr=col(s, "b"), else_expr=col(t, "c"))
assert c.tables() == {r, s, t} and len(list(c.iterchildren())) == 4
'''),
 dict(id="c13-slice-eq", property="C13", needs="two array accesses with the same index expression, one as index or as lower bound, the other as upper bound of a slice",
      breaks="they are considered equal",
      subs=[(Q, """            and self._array == other._array
            and self._idx == other._idx
            and self._lower_idx == other._lower_idx
            and self._upper_idx == other._upper_idx
""", """            and self.arguments == other.arguments
""")],
      demo=IMP + '''i = StaticValueExpression(2)
a, b, c = ArrayAccessExpression(col(r, "a"), idx=i), ArrayAccessExpression(col(r, "a"), lower_idx=i), ArrayAccessExpression(col(r, "a"), upper_idx=i)
assert a != b and b != c and a != c and a == ArrayAccessExpression(col(r, "a"), idx=i)
'''),
 dict(id="c13-collector-innermost", property="C13", needs="continue_after_match, with matching expressions nested in each other",
      breaks="only the innermost matches are collected",
      subs=[(Q, """        return own_match | util.set_union(
            child.accept_visitor(self) for child in expression.iterchildren()
        )
""", """        child_matches = util.set_union(
            child.accept_visitor(self) for child in expression.iterchildren()
        )
        return child_matches or own_match
""")],
      demo=IMP + '''inner = FunctionExpression("abs", [col(r, "a")])
outer = FunctionExpression("abs", [inner])
assert outer.accept_visitor(ExpressionCollector(lambda e: isinstance(e, FunctionExpression), continue_after_match=True)) == {inner, outer}
'''),
 dict(id="c13-between-bounds-eq", property="C13", needs="two BETWEEN predicates whose bounds are exchanged",
      breaks="equality of BETWEEN predicates depends on the bounds as a set",
      subs=[(Q, """            and self.column == other.column
            and self.interval == other.interval
""", """            and self.column == other.column
            and set(self.interval) == set(other.interval)
""")],
      demo=IMP + '''a, b = StaticValueExpression(1), StaticValueExpression(2)
assert BetweenPredicate(col(r, "a"), (a, b)) != BetweenPredicate(col(r, "a"), (b, a))
'''),
 dict(id="c13-as-predicate-bounds", property="C13", needs="as_predicate with a BETWEEN operation whose interval is given as one pair of columns or values in descending order",
      breaks="the bounds are sorted",
      subs=[(Q, "            lower, upper = arguments[0]\n", "            lower, upper = sorted(arguments[0])\n")],
      demo=IMP + '''p = as_predicate(ColumnReference("a", r), LogicalOperator.Between, (5, 2))
assert p.interval_start == StaticValueExpression(5) and p.interval_end == StaticValueExpression(2)
'''),
]
