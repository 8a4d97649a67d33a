W, D = "postbound/workloads.py", "postbound/util/dicts.py"
IMP = '''import os, random, tempfile, warnings
warnings.simplefilter("ignore")
from postbound import parser, util
from postbound.workloads import *
from postbound import workloads
def p(text):
    return parser.parse_query(text, bind_columns=False)
A, B, C = p("SELECT * FROM a"), p("SELECT * FROM b"), p("SELECT * FROM c")
'''
BUGS = [
 dict(id="c22-shuffled-first", property="C22", needs="a shuffled workload",
      breaks="the first queries are selected by the current order of the workload",
      subs=[(W, '''        first_n_labels = self._sorted_labels[:n]
''', '''        first_n_labels = natsort.natsorted(self._sorted_labels)[:n]
''')],
      demo=IMP + '''
w = Workload({f"q{i}": p(f"SELECT * FROM t{i}") for i in range(30)})
for seed in range(5):
    random.seed(seed)
    s = w.shuffle()
    assert set(s.first(5)) == set(s.labels()[:5])
'''),
 dict(id="c22-shuffle-queries", property="C22", needs="a workload that is shuffled twice",
      breaks="labels and queries of a shuffled workload are in the same order",
      subs=[(W, '''        shuffled_workload._sorted_labels = random.sample(
            self._sorted_labels, k=len(self)
        )
        shuffled_workload._update_query_order()
''', '''        order = random.sample(range(len(self)), k=len(self))
        shuffled_workload._sorted_labels = [self._sorted_labels[i] for i in order]
        shuffled_workload._sorted_queries = [
            shuffled_workload._sorted_queries[i] for i in order
        ]
''')],
      demo=IMP + '''
w = Workload({f"q{i}": p(f"SELECT * FROM t{i}") for i in range(30)})
for seed in range(5):
    random.seed(seed)
    s = w.shuffle().shuffle()
    assert all(s[label] == query for label, query in s.entries())
'''),
 dict(id="c22-sum-conflict", property="C22", needs="workloads with a common label but different queries",
      breaks="the first workload has precedence in sums",
      subs=[(W, '''        return Workload(
            other.data | self.data, name=self._name, root=self._root
        )  # retain own labels in case of conflict

    def __sub__''', '''        return Workload(
            self.data | other.data, name=self._name, root=self._root
        )  # retain own labels in case of conflict

    def __sub__''')],
      demo=IMP + '''
assert (Workload({"q": A}) + Workload({"q": B, "r": C}))["q"] == A
'''),
 dict(id="c22-prefix-in", property="C22", needs="a label that contains the prefix somewhere else",
      breaks="selection by prefix",
      subs=[(W, '''            if label.startswith(label_prefix)
''', '''            if label_prefix in label
''')],
      demo=IMP + '''
assert set(Workload({"1a": A, "11a": B, "21a": C}).with_prefix("1")) == {"1a", "11a"}
'''),
 dict(id="c22-label-stem", property="C22", needs="query files with dots in their names",
      breaks="each query receives its own label",
      subs=[(W, '''            query_label = query_file_path.stem
            queries[label_prefix + query_label] = parsed_query
''', '''            query_label = query_file_path.name.split(".")[0]
            queries[label_prefix + query_label] = parsed_query
''')],
      demo=IMP + '''
with tempfile.TemporaryDirectory() as d:
    for name, q in {"q1.1": A, "q1.2": B}.items():
        with open(os.path.join(d, name + ".sql"), "w") as f:
            f.write(str(q))
    w = Workload.read(d, bind_columns=False)
    assert set(w) == {"q1.1", "q1.2"}, w.labels()
'''),
 dict(id="c22-pick-twice", property="C22", needs="several queries are picked",
      breaks="the picked queries are unique",
      subs=[(W, '''        selected_labels = random.sample(self._sorted_labels, n)
''', '''        selected_labels = random.choices(self._sorted_labels, k=n)
''')],
      demo=IMP + '''
w = Workload({i: p(f"SELECT * FROM t{i}") for i in range(10)})
for seed in range(5):
    random.seed(seed)
    assert len(w.pick_random(9)) == 9
'''),
 dict(id="c22-difference-queries", property="C22", needs="a query that is contained in both workloads under different labels",
      breaks="differences are based on labels",
      subs=[(D, '''    return {k: v for k, v in a.items() if k not in b}
''', '''    values = set(b.values())
    return {k: v for k, v in a.items() if k not in b and v not in values}
''')],
      demo=IMP + '''
assert set(Workload({"q1": A, "q2": B}) - Workload({"q9": A, "q2": B})) == {"q1"}
'''),
 dict(id="c22-nested-recursion", property="C22", needs="query files at least two levels below the root",
      breaks="all subdirectories are read",
      subs=[(W, '''            query_file_pattern=query_file_pattern,
            recurse_subdirectories=True,
''', '''            query_file_pattern=query_file_pattern,
            recurse_subdirectories=bool(list(subdir.glob(query_file_pattern))),
''')],
      demo=IMP + '''
with tempfile.TemporaryDirectory() as d:
    os.makedirs(os.path.join(d, "x", "y"))
    with open(os.path.join(d, "x", "y", "q.sql"), "w") as f:
        f.write(str(A))
    w = read_workload(d, recurse_subdirectories=True, bind_columns=False)
    assert list(w.queries()) == [A]
'''),
]
