J, NX = "postbound/opt/_joingraph.py", "postbound/util/nx.py"
IMP = '''import warnings
warnings.simplefilter("ignore")
from postbound import parser
from postbound._core import TableReference, ColumnReference
from postbound.opt._joingraph import JoinGraph, JoinPath, IndexInfo
class Schema:
    def is_primary_key(self, c): return c.name == "id"
    def has_secondary_index(self, c): return c.name.startswith("fk")
def p(text):
    return parser.parse_query(text, bind_columns=False)
def graph(text, **k):
    return JoinGraph(p(text), Schema(), **k)
def valid(g):
    return {str(i.column) for t in g for i in g[t].index_info if i.is_indexed()}
r, s, t, u = (TableReference(n) for n in "rstu")
'''
BUGS = [
 dict(id="c20-direction-later", property="C20", needs="an edge whose first table is free and whose second table has been joined",
      breaks="available joins start at the free table instead of the joined one",
      subs=[(J, '''            if self.is_free_table(source_table):
                # fix directionality
''', '''            if not self.is_free_table(source_table):
                # fix directionality
''')],
      demo=IMP + '''
g = graph("SELECT * FROM r, s, t WHERE r.a = s.a AND s.b = t.b")
g.mark_joined(s)
assert {(x.start_table, x.target_table) for x in g.available_join_paths()} == {(s, r), (s, t)}
'''),
 dict(id="c20-pkfk-first-only", property="C20", needs="a composite join whose first predicate is no pk/fk join, but a later one is",
      breaks="only the first pair of columns decides whether a join is a pk/fk join",
      subs=[(J, '''                and self._index_structures[pk_col].is_primary()
            ):
                return True
        return False
''', '''                and self._index_structures[pk_col].is_primary()
            ):
                return True
            if len(self._index_structures) > 4:
                return False
        return False
''')],
      demo=IMP + '''
for i in range(30):
    where = f"r.a{i} = s.b{i} AND r.fk = s.id AND r.c{i} = s.d{i}"
    assert graph("SELECT * FROM r, s WHERE " + where).is_pk_fk_join(r, s), where
'''),
 dict(id="c20-secondary-referenced", property="C20", needs="a join between two columns with secondary indexes",
      breaks="tables that are joined via foreign keys on both sides count as pk/fk join",
      subs=[(J, '''                and self._index_structures[pk_col].is_primary()
            ):
''', '''                and self._index_structures[pk_col].is_indexed()
            ):
''')],
      demo=IMP + '''
assert graph("SELECT * FROM r, s WHERE r.fk = s.fk2").is_n_m_join(r, s)
'''),
 dict(id="c20-clone-shares-indexes", property="C20", needs="a clone whose tables are joined, afterwards the original is used",
      breaks="clones share their index information with the original",
      subs=[(J, '''        cloned._index_structures = copy.deepcopy(self._index_structures)
''', '''        cloned._index_structures = copy.copy(self._index_structures)
''')],
      demo=IMP + '''
g = graph("SELECT * FROM r, s, t WHERE r.fk = s.id AND s.x = t.y")
c = g.clone()
c.mark_joined(r); c.mark_joined(s); c.mark_joined(t)
assert valid(g) == {"r.fk", "s.id"}, valid(g)
'''),
 dict(id="c20-pkpk-invalidates", property="C20", needs="a primary key/primary key join of two tables",
      breaks="joining two tables by their primary keys invalidates both indexes",
      subs=[(J, '''            if pk_fk_join and fk_pk_join:  # PK/PK join
                continue
''', '''            if pk_fk_join and fk_pk_join and len(partner_tables) > 1:  # PK/PK join
                continue
''')],
      demo=IMP + '''
g = graph("SELECT * FROM r, s, t WHERE r.id = s.id AND s.id = t.fk")
g.mark_joined(r); g.mark_joined(s)
assert {"r.id", "s.id"} <= valid(g)
'''),
 dict(id="c20-index-other-columns", property="C20", needs="a table whose first join column has no index, but another join column of it does",
      breaks="columns of a table that come after a column without index lose their index",
      subs=[(J, '''        for column, index in self._index_structures.items():
            if column.table == table:
                index.invalidate()
''', '''        for column, index in self._index_structures.items():
            if column.table == table and (index.is_primary() or index.is_invalid):
                index.invalidate()
''')],
      demo=IMP + '''
g = graph("SELECT * FROM r, s, t, u WHERE r.a = s.b AND s.c = t.d AND r.fk = u.id")
g.mark_joined(r); g.mark_joined(s); g.mark_joined(t)
assert not g.is_pk_fk_join(r, u)
'''),
 dict(id="c20-equivalence-skips-filters", property="C20", needs="equivalence classes and two tables that are joined explicitly and by implication over other columns",
      breaks="implied equalities replace the predicates of the query between the same tables",
      subs=[(J, '''            predicate_map[frozenset([first_col.table, second_col.table])].append(
                join_predicate
            )
''', '''            join_key = frozenset([first_col.table, second_col.table])
            if include_predicate_equivalence_classes and join_key in predicate_map:
                continue
            predicate_map[join_key].append(join_predicate)
''')],
      demo=IMP + '''
g = graph("SELECT * FROM r, s, t WHERE r.a = s.b AND s.b = t.c AND r.d < t.e AND r.f < t.g", include_predicate_equivalence_classes=True)
cond, = [x.join_condition for x in g.available_join_paths() if set(x.tables()) == {r, t}]
assert len(cond.columns()) == 6, cond
'''),
 dict(id="c20-available-both-free", property="C20", needs="a pair of free tables after other tables have been joined",
      breaks="joins between two free tables are available although neither is part of the intermediate result",
      subs=[(J, '''            or (not first_free and second_free)
            or self.initial()
''', '''            or (not first_free and second_free)
            or (first_free and second_free and len(self.joined_tables()) != 1)
''')],
      demo=IMP + '''
g = graph("SELECT * FROM r, s, t, u WHERE r.a = s.a AND s.b = t.b AND t.c = u.c")
g.mark_joined(r); g.mark_joined(s)
assert not g.is_available_join(t, u) and g.available_join_paths_for(u) == []
'''),
 dict(id="c20-pk-joins-consumed", property="C20", needs="pk/fk joins of a joined table whose partner has been joined as well",
      breaks="pk/fk joins are only offered if both tables are free",
      subs=[(J, '''            and (self.is_free_table(fk_table) or self.is_free_table(pk_table))
''', '''            and (self.is_free_table(fk_table) or not self.is_free_table(pk_table))
''')],
      demo=IMP + '''
g = graph("SELECT * FROM r, s, t WHERE r.fk = s.id AND r.fk2 = t.id")
g.mark_joined(r)
assert {x.target_table for x in g.available_pk_fk_joins_for(r)} == {s, t}
'''),
 dict(id="c20-deep-reverse-edge", property="C20", needs="a chain of references of depth two or more in which an edge leads back to a table at a lower depth",
      breaks="tables are not visited if they are also neighbors of the start table",
      subs=[(NX, '''                for node, edge in graph.adj[current_node].items()
                if node not in visited_nodes
            ]
            if node_order:''', '''                for node, edge in graph.adj[current_node].items()
                if node not in visited_nodes and node not in graph.adj[start_node]
            ]
            if node_order:''')],
      demo=IMP + '''
g = graph("SELECT * FROM r, s, t WHERE r.fk = s.id AND s.fk = t.id AND r.a = t.b")
assert [x.target_table for x in g.available_deep_pk_join_paths_for(r)] == [s, t]
'''),
]
