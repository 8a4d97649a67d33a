EN, RA, NX = "postbound/opt/enumeration.py", "postbound/opt/randomized.py", "postbound/util/nx.py"
IMP = '''import itertools, random, warnings
warnings.simplefilter("ignore")
from postbound import parser
from postbound._core import ScanOperator, JoinOperator, TableReference
from postbound._hints import JoinTree
from postbound.opt.enumeration import ExhaustiveJoinOrderEnumerator, ExhaustiveOperatorEnumerator
from postbound.opt.randomized import RandomJoinOrderGenerator, RandomOperatorGenerator, RandomPlanGenerator
def p(text):
    return parser.parse_query(text, bind_columns=False)
chain = p("SELECT * FROM r, s, t, u WHERE r.a = s.a AND s.b = t.b AND t.c = u.c")
cycle = p("SELECT * FROM r, s, t WHERE r.a = s.a AND s.b = t.b AND t.c = r.c")
class Hints:
    def __init__(self, ops): self.ops = ops
    def supports_hint(self, op): return op in self.ops
class Db:
    def __init__(self, *ops): self.ops = ops
    def hinting(self): return Hints(self.ops)
def nest(t):
    return t.base_table.full_name if t.is_scan() else (nest(t.outer_child), nest(t.inner_child))
r, s, t, u = (TableReference(n) for n in "rstu")
'''
BUGS = [
 dict(id="c19-bushy-mirror", property="C19", needs="an exhaustive enumeration over four or more tables in which two composite join trees are merged",
      breaks="bushy join orders whose inputs are both joins are only enumerated in one direction",
      subs=[(EN, '''        end_start_tree = _merge_nodes(query, target_node, start_node)
''', '''        if isinstance(start_node, JoinTree) and isinstance(target_node, JoinTree):
            continue
        end_start_tree = _merge_nodes(query, target_node, start_node)
''')],
      demo=IMP + '''
got = [nest(o) for o in ExhaustiveJoinOrderEnumerator().all_join_orders_for(chain)]
assert (("r", "s"), ("t", "u")) in got and (("t", "u"), ("r", "s")) in got
'''),
 dict(id="c19-right-deep-direction", property="C19", needs="a right-deep tree structure for a random join order",
      breaks="right-deep random join orders are left-deep",
      subs=[(RA, '''        direction = "inner" if self._tree_structure == "left-deep" else "outer"
''', '''        direction = "outer" if self._tree_structure == "right_deep" else "inner"
''')],
      demo=IMP + '''
for o in itertools.islice(RandomJoinOrderGenerator(tree_structure="right-deep").random_join_orders_for(chain), 20):
    while o.is_join():
        assert o.outer_child.is_scan(), o
        o = o.inner_child
'''),
 dict(id="c19-supported-scan", property="C19", needs="requested scan operators that the database does not support",
      breaks="requested scan operators are used even if the database does not support them",
      subs=[(RA, '''            for scan_op in allowed_scan_ops
            if self._db.hinting().supports_hint(scan_op)
''', '''            for scan_op in allowed_scan_ops
            if scan_operators or self._db.hinting().supports_hint(scan_op)
''')],
      demo=IMP + '''
db = Db(ScanOperator.SequentialScan, JoinOperator.HashJoin)
g = RandomOperatorGenerator([ScanOperator.SequentialScan, ScanOperator.IndexScan], database=db)
assert set(g.allowed_scan_ops) == {ScanOperator.SequentialScan}
'''),
 dict(id="c19-shared-assignment", property="C19", needs="an enumeration of operators whose assignments are compared after they have all been generated",
      breaks="the enumerated assignments with the same scans share one object",
      subs=[(EN, '''                current_total_assignment = current_scan_assignment.clone()
''', '''                current_total_assignment = current_scan_assignment
''')],
      demo=IMP + '''
db = Db(ScanOperator.SequentialScan, JoinOperator.HashJoin, JoinOperator.NestedLoopJoin)
q = p("SELECT * FROM r, s WHERE r.a = s.a")
got = list(ExhaustiveOperatorEnumerator(database=db).all_operator_assignments_for(q, JoinTree.join(JoinTree.scan(r), JoinTree.scan(s))))
assert len({a.join_operators[frozenset([r, s])].operator for a in got}) == 2
'''),
 dict(id="c19-walk-shell", property="C19", needs="a random linear join order over a join graph that has to return to an earlier branch",
      breaks="the random walk only continues from the last table, and jumps to unconnected tables in dead ends",
      subs=[(NX, '''        shell_nodes |= set(
            n for n in graph.adj[current_node].keys() if n not in visited_nodes
        )
''', '''        shell_nodes = set(
            n for n in graph.adj[current_node].keys() if n not in visited_nodes
        )
''')],
      demo=IMP + '''
q = p("SELECT * FROM r, s, t, u WHERE r.a = s.a AND r.b = t.b AND t.c = u.c")
edges = [{"r", "s"}, {"r", "t"}, {"t", "u"}]
random.seed(3)
for o in itertools.islice(RandomJoinOrderGenerator(tree_structure="left-deep").random_join_orders_for(q), 200):
    while o.is_join():
        new = o.inner_child.base_table.full_name
        old = {x.full_name for x in o.outer_child.tables()}
        assert any(new in e and (e - {new}) & old for e in edges), o
        o = o.outer_child
'''),
 dict(id="c19-frontier-branch", property="C19", needs="an exhaustive enumeration of linear join orders over a branching join graph",
      breaks="linear join orders only continue at the last table as long as that is possible",
      subs=[(NX, '''        available_edges.extend(current_edges)
''', '''        if frontier_node == current_walk.final_node() and current_edges:
            available_edges = list(current_edges)
            break
        available_edges.extend(current_edges)
''')],
      demo=IMP + '''
from postbound.util.nx import nx_frontier_walks
q = p("SELECT * FROM r, s, t WHERE r.a = s.a AND r.b = t.b")
import networkx as nx
g = nx.Graph([("r", "s"), ("r", "t"), ("t", "u")])
got = {tuple(w.nodes()) for w in nx_frontier_walks(g)}
assert ("t", "r", "u", "s") in got and ("t", "r", "s", "u") in got and ("r", "t", "s", "u") in got, got
'''),
 dict(id="c19-base-table-left", property="C19", needs="a random bushy join order with a base table that is joined with other tables first",
      breaks="the base table is not joined first if it has a single join partner",
      subs=[(RA, '''    if base_table is not None:
        candidate_edges''', '''    if base_table is not None and len(join_graph.adj[base_table]) > 1:
        candidate_edges''')],
      demo=IMP + '''
random.seed(1)
for o in itertools.islice(RandomJoinOrderGenerator().random_join_orders_for(chain, base_table=u), 100):
    found = [n for n in o.iternodes() if n.is_join() and any(c.is_scan() and c.base_table == u for c in (n.outer_child, n.inner_child))]
    assert len(found) == 1 and found[0].outer_child.is_scan() and found[0].inner_child.is_scan(), o
'''),
]
