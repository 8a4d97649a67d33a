S = "postbound/_stages.py"
C = "postbound/opt/_cardinalities.py"
IMP = '''from postbound import parser, Cardinality, TableReference
from postbound._stages import CardinalityEstimator
from postbound.opt import PreciseCardinalities, CardinalityDistortion, PreComputedCardinalities
import math, random
r, s = TableReference("r"), TableReference("s")
class Est(CardinalityEstimator):
    def __init__(self, f): super().__init__(); self.f = f
    def calculate_estimate(self, q, i): return self.f(q, frozenset([i] if isinstance(i, TableReference) else i))
    def describe(self): return {}
class Db:
    def __init__(self): self.seen = []
    def execute_query(self, q, **kw): self.seen.append(q); return len(self.seen)
    def describe(self): return {}
'''
BUGS = [
 dict(id="c14-zero-estimates", property="C14", needs="a given join order, and an estimator that considers one of its nodes to be empty",
      breaks="estimates of zero rows are treated like missing estimates",
      subs=[(S, """        for intermediate in join_order.iternodes():
            estimate = self.calculate_estimate(query, intermediate.tables())
            if not math.isnan(estimate):
""", """        for intermediate in join_order.iternodes():
            estimate = self.calculate_estimate(query, intermediate.tables())
            if estimate > 0:
""")],
      demo=IMP + '''from postbound._hints import JoinTree
q = parser.parse_query("SELECT * FROM r, s WHERE r.a = s.b", bind_columns=False)
order = JoinTree.join(JoinTree.scan(r), JoinTree.scan(s))
p = Est(lambda q, i: Cardinality(0) if len(i) == 2 else Cardinality(4)).generate_plan_parameters(q, order, None)
assert p.cardinalities == {frozenset([r]): Cardinality(4), frozenset([s]): Cardinality(4), frozenset([r, s]): Cardinality(0)}
'''),
 dict(id="c14-cache-by-tables", property="C14", needs="a caching estimator that is asked about the same tables for two queries with different predicates",
      breaks="the cardinality of the first query is delivered for the second one",
      subs=[(C, """        intermediate = util.enlist(intermediate)
        subquery = transform.extract_query_fragment(query, intermediate)
        subquery = transform.as_count_star_query(subquery)
        if self.cache_enabled and subquery in self._cardinality_cache:
            return self._cardinality_cache[subquery]
        cardinality = Cardinality(self.database.execute_query(subquery))
        if self.cache_enabled:
            self._cardinality_cache[subquery] = cardinality
        return cardinality
""", """        intermediate = frozenset(util.enlist(intermediate))
        if self.cache_enabled and intermediate in self._cardinality_cache:
            return self._cardinality_cache[intermediate]
        subquery = transform.extract_query_fragment(query, intermediate)
        subquery = transform.as_count_star_query(subquery)
        cardinality = Cardinality(self.database.execute_query(subquery))
        if self.cache_enabled:
            self._cardinality_cache[intermediate] = cardinality
        return cardinality
""")],
      demo=IMP + '''db = Db()
e = PreciseCardinalities(db, enable_cache=True)
a = parser.parse_query("SELECT * FROM r WHERE r.a = 1", bind_columns=False)
b = parser.parse_query("SELECT * FROM r WHERE r.a = 2", bind_columns=False)
assert [e.calculate_estimate(q, r) for q in (a, b, a)] == [Cardinality(1), Cardinality(2), Cardinality(1)]
'''),
 dict(id="c14-random-below-one", property="C14", needs="a random distortion with a factor above one, and a draw from the lower part of the interval",
      breaks="overestimations may underestimate",
      subs=[(C, """                min(self.distortion_factor, 1.0), max(self.distortion_factor, 1.0)
""", """                min(self.distortion_factor, 1.0 / self.distortion_factor),
                max(self.distortion_factor, 1.0),
""")],
      demo=IMP + '''q = parser.parse_query("SELECT * FROM r", bind_columns=False)
e = CardinalityDistortion(Est(lambda q, i: Cardinality(1000)), 3.0, distortion_strategy="random")
for i in range(300):
    random.seed(i)
    assert Cardinality(1000) <= e.calculate_estimate(q, r) <= Cardinality(3000)
'''),
 dict(id="c14-label-prefix", property="C14", needs="a workload with labels that are prefixes of each other, with the same tables in both queries",
      breaks="pre-computed cardinalities of the other query are considered, too",
      subs=[(C, """            self._true_card_df[self._label_col] == label
""", """            self._true_card_df[self._label_col].astype(str).str.startswith(str(label))
""")],
      demo=IMP + '''import tempfile, os
from postbound import util, workloads
import pandas as pd
qs = {"1a": parser.parse_query("SELECT * FROM r WHERE r.a = 1", bind_columns=False), "1ab": parser.parse_query("SELECT * FROM r WHERE r.a = 2", bind_columns=False)}
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "c.csv")
    pd.DataFrame({"label": list(qs), "tables": [util.to_json({r})] * 2, "cardinality": [3, 4]}).to_csv(f, index=False)
    e = PreComputedCardinalities(workloads.Workload(qs, name="w"), f)
    assert [e.calculate_estimate(q, r) for q in qs.values()] == [Cardinality(3), Cardinality(4)]
'''),
]
