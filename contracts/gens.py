"""Concrete generators for the runtime-contract search (CPython only)."""
import random
import math
from postbound._core import (Cardinality, ColumnReference, IntermediateOperator, JoinOperator, ScanOperator, TableReference)
from postbound import _hints as H

NAMES = ["r", "s", "t", "u"]


def table(rng, n=4):
    i = rng.randrange(n)
    k = rng.random()
    if k < 0.6:
        return TableReference(NAMES[i])
    if k < 0.9:
        return TableReference("base", NAMES[i])
    return TableReference.create_virtual(NAMES[i])


def simple_tables(rng, k):
    return [TableReference(n) for n in rng.sample(["r", "s", "t", "u", "v", "w", "x"], k)]


def tables(rng, lo=1, hi=4):
    return frozenset(table(rng) for _ in range(rng.randint(lo, hi)))


def column(rng):
    return ColumnReference(rng.choice(["a", "b", "c"]), table(rng))


def workers(rng):
    return rng.choice([math.nan, math.nan, 1, 2, 4, 0, 3.0])


def scan_assignment(rng):
    return H.ScanOperatorAssignment(rng.choice(list(ScanOperator)), table(rng), workers(rng))


def two_tables(rng):
    while True:
        t = frozenset(table(rng) for _ in range(rng.randint(2, 4)))
        if len(t) >= 2:
            return t


def join_assignment(rng):
    op = rng.choice(list(JoinOperator))
    ts = two_tables(rng)
    if rng.random() < 0.5:
        return H.JoinOperatorAssignment(op, ts, parallel_workers=workers(rng))
    ls = sorted(ts, key=str)
    k = rng.randint(1, len(ls) - 1)
    return H.DirectionalJoinOperatorAssignment(op, ls[:k], ls[k:], parallel_workers=workers(rng))


def cardinality(rng):
    k = rng.random()
    if k < 0.15:
        return Cardinality(math.nan)
    if k < 0.25:
        return Cardinality(math.inf)
    return Cardinality(rng.choice([0, 1, 2, 3, 10, 42, 1000, 10**9]))


def poa(rng, size=3):
    a = H.PhysicalOperatorAssignment()
    for op in list(ScanOperator) + list(JoinOperator) + list(IntermediateOperator):
        if rng.random() < 0.25:
            a.global_settings[op] = rng.random() < 0.5
    for _ in range(rng.randint(0, size)):
        o = scan_assignment(rng)
        a.scan_operators[o.table] = o
    for _ in range(rng.randint(0, size)):
        o = join_assignment(rng)
        a.join_operators[o.join] = o
    for _ in range(rng.randint(0, size)):
        a.intermediate_operators[two_tables(rng) if rng.random() < 0.7 else tables(rng, 1, 1)] = rng.choice(list(IntermediateOperator))
    return a


def params(rng, size=3):
    p = H.PlanParameterization()
    for _ in range(rng.randint(0, size)):
        p.cardinalities[tables(rng, 1, 3)] = cardinality(rng)
    for _ in range(rng.randint(0, size)):
        p.parallel_workers[tables(rng, 1, 3)] = rng.choice([1, 2, 3, 8])
    for _ in range(rng.randint(0, 2)):
        p.system_settings[rng.choice(["x", "y", "z"])] = rng.choice(["on", "off", 1])
    p.execution_mode = rng.choice([None, "sequential", "parallel"])
    return p


def jointree(rng, size=3, tabs=None, logical=None, empty=True):
    logical = rng.random() < 0.5 if logical is None else logical
    cls = H.LogicalJoinTree if logical else H.JoinTree
    if tabs is None:
        if empty and rng.random() < 0.08:
            return cls.empty()
        tabs = simple_tables(rng, rng.randint(1, min(7, size + 1)))

    def ann():
        if logical:
            return rng.choice([None, cardinality(rng)])
        return rng.choice([None, None, "x", 3])
    if len(tabs) == 1:
        return cls.scan(tabs[0], annotation=ann())
    k = rng.choice([1, len(tabs) - 1, rng.randint(1, len(tabs) - 1)])
    return cls.join(jointree(rng, size, tabs[:k], logical), jointree(rng, size, tabs[k:], logical), annotation=ann())


def plan_params(rng, table=None):
    from postbound import _qep as Q
    kw = {}
    if rng.random() < 0.3:
        kw["index"] = rng.choice(["idx", "pk"])
    if rng.random() < 0.3:
        kw["parallel_workers"] = rng.choice([1, 2, 0])
    if rng.random() < 0.3:
        kw["custom"] = rng.choice(["x", 5])
    return Q.PlanParams(base_table=table, **kw)


def plan_estimates(rng):
    from postbound import _qep as Q
    kw = {"startup": 3.5} if rng.random() < 0.3 else {}
    return Q.PlanEstimates(cardinality=cardinality(rng), cost=rng.choice([math.nan, 1.0, 17.5]), **kw)


def plan_measures(rng):
    from postbound import _qep as Q
    if rng.random() < 0.3:
        return Q.PlanMeasures()
    kw = {"loops": 2} if rng.random() < 0.3 else {}
    return Q.PlanMeasures(cardinality=cardinality(rng), execution_time=rng.choice([math.nan, 0.5, 2.0]),
                          cache_hits=rng.choice([None, 0, 7]), cache_misses=rng.choice([None, 3]), **kw)


def plan(rng, size=3, depth=0, subplans=True, shapes="any"):
    """query plans: scans (sometimes with inputs of their own), joins, auxiliary nodes with any number of inputs"""
    from postbound import _qep as Q
    k = rng.random()
    sub = None
    if subplans and rng.random() < 0.12 and depth < 3:
        sub = Q.Subplan(plan(rng, 1, depth + 2, False, shapes), rng.choice(["", "cte"]))
    common = dict(estimates=plan_estimates(rng), measures=plan_measures(rng), subplan=sub)
    rec = lambda: plan(rng, size, depth + 1, subplans, shapes)
    leaf = depth > size
    if not leaf and k < 0.42:
        return Q.QueryPlan(rng.choice(list(JoinOperator)), children=[rec(), rec()], plan_params=plan_params(rng), **common)
    if not leaf and k < 0.68:
        n = 1 if shapes == "core" else rng.choice([1, 1, 1, 1, 2, 3, 0])
        op = rng.choice([None, None, IntermediateOperator.Sort, IntermediateOperator.Memoize])
        return Q.QueryPlan(rng.choice(["Sort", "Hash", "Aggregate"]), operator=op, children=[rec() for _ in range(n)],
                           plan_params=plan_params(rng), **common)
    kids = []
    if shapes == "any" and rng.random() < 0.1:
        kids = [Q.QueryPlan("Bitmap Index Scan", plan_params=plan_params(rng), estimates=plan_estimates(rng))]
    return Q.QueryPlan(rng.choice(list(ScanOperator)), children=kids, plan_params=plan_params(rng, table(rng)), **common)


def opt_plan(rng, size=3, tabs=None, subplans=False):
    """query plans over distinct tables: scans (bitmap scans with their index inputs), joins, chains of auxiliary nodes"""
    from postbound import _qep as Q
    if tabs is None:
        tabs = simple_tables(rng, rng.randint(1, min(7, size + 1)))
    common = lambda: dict(estimates=plan_estimates(rng), measures=plan_measures(rng))
    if len(tabs) == 1:
        kids = []
        if rng.random() < 0.15:
            kids = [Q.QueryPlan("Bitmap Index Scan") for _ in range(rng.choice([1, 2]))]
            if len(kids) == 2 and rng.random() < 0.5:
                kids = [Q.QueryPlan("Bitmap And", children=kids)]
        p = Q.QueryPlan(rng.choice(list(ScanOperator)), children=kids, plan_params=plan_params(rng, tabs[0]), **common())
    else:
        k = rng.choice([1, len(tabs) - 1, rng.randint(1, len(tabs) - 1)])
        p = Q.QueryPlan(rng.choice(list(JoinOperator)), children=[opt_plan(rng, size, tabs[:k]), opt_plan(rng, size, tabs[k:])],
                        plan_params=plan_params(rng), **common())
    while rng.random() < 0.3:
        p = Q.QueryPlan(rng.choice(["Sort", "Hash", "Aggregate"]), operator=rng.choice([None, None] + list(IntermediateOperator)), children=[p],
                        plan_params=plan_params(rng), **common())
    return p


# ---- queries, predicates, databases ------------------------------------------------------------------------------

def qtables(rng, k=None):
    """distinct base tables, some of them with an alias"""
    from postbound._core import TableReference
    k = rng.randint(1, 4) if k is None else k
    out = []
    for n in rng.sample(["r", "s", "t", "u", "v"], k):
        out.append(TableReference(n) if rng.random() < 0.7 else TableReference(n, "x" + n))
    if k > 1 and rng.random() < 0.2:  # a self join
        i, j = rng.sample(range(k), 2)
        out[i] = TableReference(out[j].full_name, "y" + out[j].full_name)
    return out


def qcol(rng, tab):
    return ColumnReference(rng.choice(["a", "b", "c"]), tab)


def join_pred(rng, a, b):
    from postbound.qal import as_predicate, LogicalOperator
    op = LogicalOperator.Equal if rng.random() < 0.75 else rng.choice([LogicalOperator.Less, LogicalOperator.NotEqual, LogicalOperator.GreaterEqual])
    return as_predicate(qcol(rng, a), op, qcol(rng, b))


def filter_pred(rng, tab, nesting=True):
    from postbound import qal as q
    k = rng.randrange(9 if nesting else 6)
    c = qcol(rng, tab)
    if k <= 1:
        return q.as_predicate(c, rng.choice([q.LogicalOperator.Equal, q.LogicalOperator.Less, q.LogicalOperator.NotEqual]), rng.choice([1, 2, 42]))
    if k == 2:
        return q.BetweenPredicate.between(c, 1, 5) if hasattr(q.BetweenPredicate, "between") else q.BetweenPredicate(q.ColumnExpression(c), (q.StaticValueExpression(1), q.StaticValueExpression(5)))
    if k == 3:
        return q.InPredicate(q.ColumnExpression(c), [q.StaticValueExpression(v) for v in rng.sample([1, 2, 3], rng.randint(1, 3))])
    if k == 4:
        return q.UnaryPredicate.is_null(c) if hasattr(q.UnaryPredicate, "is_null") else q.as_predicate(c, q.LogicalOperator.Is, None)
    if k == 5:
        return q.as_predicate(c, q.LogicalOperator.Equal, qcol(rng, tab))
    if k == 6:
        return q.CompoundPredicate.create_or([filter_pred(rng, tab, False), filter_pred(rng, tab, False)])
    if k == 7:
        return q.CompoundPredicate.create_and([filter_pred(rng, tab, False), filter_pred(rng, tab, False)])
    return q.CompoundPredicate.create_not(filter_pred(rng, tab, False))


def predicate_over(rng, tabs, size=3, connected=None, compound_joins=True):
    """a conjunction of joins and filters over the tables (or None)"""
    from postbound import qal as q
    ps = []
    connected = rng.random() < 0.6 if connected is None else connected
    for i in range(1, len(tabs)):
        if connected or rng.random() < 0.5:
            ps.append(join_pred(rng, tabs[rng.randrange(i)], tabs[i]))
            if compound_joins and rng.random() < 0.15:
                ps[-1] = q.CompoundPredicate.create_or([ps[-1], join_pred(rng, *(ps[-1].tables() if len(ps[-1].tables()) == 2 else (tabs[0], tabs[i])))])
            elif compound_joins and rng.random() < 0.1:
                ps[-1] = q.CompoundPredicate.create_not(ps[-1])
    if len(tabs) > 1 and rng.random() < 0.3:
        a, b = rng.sample(tabs, 2)
        ps.append(join_pred(rng, a, b))
    for _ in range(rng.randint(0, size)):
        ps.append(filter_pred(rng, rng.choice(tabs)))
    rng.shuffle(ps)
    if not ps:
        return None
    if len(ps) > 2 and rng.random() < 0.3:
        return q.CompoundPredicate.create_and([q.CompoundPredicate.create_and(ps[:2])] + ps[2:])
    return q.CompoundPredicate.create_and(ps)


def _select(rng, tabs):
    from postbound import qal as q
    if rng.random() < 0.4:
        return q.Select([q.BaseProjection.star()])
    cols = [q.BaseProjection.column(qcol(rng, rng.choice(tabs))) for _ in range(rng.randint(1, 2))]
    return q.Select(cols, distinct=rng.random() < 0.2)


def query(rng, size=3, depth=1, kinds=("implicit", "implicit", "explicit", "mixed", "exists", "subfrom", "nofrom", "cte")):
    """queries over all kinds of FROM clauses"""
    from postbound import qal as q
    k = rng.choice(kinds)
    tabs = qtables(rng, rng.randint(1, min(4, size + 1)))
    if k == "nofrom":
        return q.build_query([q.Select([q.BaseProjection(q.StaticValueExpression(1))])])
    clauses = [_select(rng, tabs)]
    if k in ("implicit", "exists", "cte"):
        pred = predicate_over(rng, tabs, size)
        if k == "exists" and depth:
            sub = query(rng, size, depth - 1, ("implicit", "explicit"))
            if rng.random() < 0.5:
                st = q.build_query([q.Select([q.BaseProjection.star()]), q.ImplicitFromClause.create_for([TableReference("z")]),
                                    q.Where(q.as_predicate(qcol(rng, TableReference("z")), q.LogicalOperator.Equal, qcol(rng, rng.choice(tabs))))])
                sub = st
            e = q.UnaryPredicate(q.SubqueryExpression(sub), q.LogicalOperator.Exists)
            pred = e if pred is None else q.CompoundPredicate.create_and([pred, e])
        clauses.append(q.ImplicitFromClause.create_for(tabs))
        if pred is not None:
            clauses.append(q.Where(pred))
        if k == "cte" and depth:
            sub = query(rng, size, depth - 1, ("implicit",))
            clauses.append(q.CommonTableExpression([q.WithQuery(sub, "w")]))
            clauses[1] = q.ImplicitFromClause.create_for(tabs + [TableReference.create_virtual("w")])
    else:
        def joined(ts):
            src = q.DirectTableSource(ts[0])
            for i in range(1, len(ts)):
                ty = q.JoinType.InnerJoin if rng.random() < 0.8 else rng.choice([q.JoinType.LeftJoin, q.JoinType.OuterJoin, q.JoinType.RightJoin])
                nxt = q.DirectTableSource(ts[i])
                l, r = (src, nxt) if rng.random() < 0.8 else (nxt, src)
                src = q.JoinTableSource(l, r, join_condition=join_pred(rng, ts[rng.randrange(i)], ts[i]), join_type=ty)
            return src
        if k == "explicit" and len(tabs) > 1:
            clauses.append(q.ExplicitFromClause(joined(tabs)))
        elif k == "subfrom" and depth:
            sub = q.SubqueryTableSource(query(rng, size, depth - 1, ("implicit", "explicit")), "y")
            clauses.append(q.From([sub] + [q.DirectTableSource(TableReference("z"))]))
            tabs = [TableReference("z")]
            clauses[0] = q.Select([q.BaseProjection.star()])
        else:
            cut = rng.randint(1, len(tabs))
            items = [joined(tabs[:cut])] + [q.DirectTableSource(t) for t in tabs[cut:]]
            rng.shuffle(items)
            clauses.append(q.From(items) if len(items) > 1 or isinstance(items[0], q.JoinTableSource) else q.ImplicitFromClause(items))
        pred = predicate_over(rng, tabs, size, connected=False)
        if pred is not None and rng.random() < 0.6:
            clauses.append(q.Where(pred))
    return q.build_query(clauses)


class FakeHints:
    def __init__(self, supported):
        self.supported = supported

    def supports_hint(self, hint):
        return hint in self.supported


def fake_db(rng):
    """a database that only knows which hints it supports"""
    from postbound.db import Database
    from postbound._hints import HintType
    ops = list(ScanOperator) + list(JoinOperator) + list(HintType)
    sup = frozenset(o for o in ops if rng.random() < 0.6)
    cls = type("FakeDb", (Database,), {"hinting": lambda self: FakeHints(self._sup), "__repr__": lambda self: f"<db {sorted(map(str, self._sup))}>",
                                       "__str__": lambda self: repr(self), "__hash__": object.__hash__, "__eq__": lambda a, b: a is b})
    cls.__abstractmethods__ = frozenset()
    db = object.__new__(cls)
    db._sup = sup
    return db


def precheck(rng, size=2, compound=True):
    from postbound import validation as V
    from postbound._hints import HintType
    ops = list(ScanOperator) + list(JoinOperator) + list(HintType)
    k = rng.randrange(12 if compound and size > 0 else 10)
    if k < 7:
        return rng.choice([V.CrossProductPreCheck, V.VirtualTablesPreCheck, V.EquiJoinPreCheck, V.InnerJoinPreCheck, V.SubqueryPreCheck,
                           V.DependentSubqueryPreCheck, V.SetOperationsPreCheck, V.ImplicitQueryPreCheck, V.EmptyPreCheck,
                           lambda: V.EquiJoinPreCheck(allow_conjunctions=True), lambda: V.EquiJoinPreCheck(allow_nesting=True)])()
    if k < 9:
        return V.SupportedHintCheck(rng.sample(ops, rng.randint(1, 3)))
    if k == 9:
        return V.CustomCheck(rng.choice(["c1", "custom-check"]), query_check=rng.choice([None, lambda q: V.PreCheckResult(False, ""), lambda q: V.PreCheckResult(False, "X")]),
                             db_check=rng.choice([None, lambda d: V.PreCheckResult(False, "D"), lambda d: V.PreCheckResult(False)]))
    return V.CompoundCheck([precheck(rng, size - 1) for _ in range(rng.randint(0, 3))])


# ---- pipelines: stages and databases that record what they are asked -----------------------------------------------

_RECORDED = {}


def recorded(base, *payload):
    """an object that only knows how it was obtained"""
    if base not in _RECORDED:
        class Recorded(base):
            def __init__(self, payload):
                self.__dict__["payload"] = payload

            __eq__ = lambda self, other: type(self) is type(other) and self.payload == other.payload
            __hash__ = lambda self: hash(self.payload[0])
            __repr__ = __str__ = lambda self: f"{base.__name__}{self.payload}"
            __bool__ = lambda self: True
            __len__ = lambda self: 1
        for n in getattr(Recorded, "__abstractmethods__", ()):
            setattr(Recorded, n, lambda self, *a, **k: None)
        Recorded.__abstractmethods__ = frozenset()
        _RECORDED[base] = Recorded
    cls = _RECORDED[base]
    o = object.__new__(cls)
    o.__dict__["payload"] = payload
    return o


class _FakeHinting(FakeHints):
    def generate_hints(self, query, plan=None, *, join_order=None, physical_operators=None, plan_parameters=None):
        from postbound.qal import SqlQuery
        return recorded(SqlQuery, "hinted", query, plan, join_order, physical_operators, plan_parameters)


class _FakeOptimizer:
    def query_plan(self, query):
        from postbound._qep import QueryPlan
        return recorded(QueryPlan, "plan of", query)


def pipeline_db(rng, every=False):
    db = fake_db(rng)
    cls = type(db)
    if every:
        from postbound._hints import HintType
        db._sup = frozenset(list(ScanOperator) + list(JoinOperator) + list(HintType))
    cls.hinting = lambda self: _FakeHinting(self._sup)
    cls.optimizer = lambda self: _FakeOptimizer()
    cls.describe = lambda self: {"name": "fake"}
    return db


def stage(rng, kind, name=None, check=None, training=None):
    """a stage of a pipeline: a deterministic function of its name and inputs"""
    from postbound import _stages as S
    from postbound import validation as V
    base = {"join": S.JoinOrderOptimization, "ops": S.PhysicalOperatorSelection, "params": S.ParameterGeneration, "card": S.CardinalityEstimator, "lcard": S.CardinalityEstimator,
            "cost": S.CostModel, "enum": S.PlanEnumerator, "complete": S.CompleteOptimizationAlgorithm, "step": S.IncrementalOptimizationStep}[kind]
    chk = check if check is not None else (V.EmptyPreCheck() if rng.random() < 0.5 else precheck(rng, 1))
    name = name or rng.choice(["A", "B", "C", "D"])
    from postbound._hints import JoinTree, PhysicalOperatorAssignment, PlanParameterization
    from postbound._qep import QueryPlan
    t = training if training is not None else [rng.random() < 0.5 for _ in range(4)]
    done = rng.random() < 0.4

    def init(self):
        base.__init__(self)
        self.name = name

    body = {"__init__": init, "pre_check": lambda self: chk, "describe": lambda self: {"name": self.name},
            "optimize_join_order": lambda self, query: recorded(JoinTree, "jo", self.name, query),
            "select_physical_operators": lambda self, query, join_order: recorded(PhysicalOperatorAssignment, "ops", self.name, query, join_order),
            "calculate_estimate": lambda self, query, intermediate: Cardinality(7),
            "estimate_cost": lambda self, query, plan: 3.0}
    if kind in ("params", "card"):
        body["generate_plan_parameters"] = lambda self, query, join_order, operator_assignment: recorded(PlanParameterization, "params", self.name, query, join_order, operator_assignment)
    elif kind == "lcard":
        body["generate_plan_parameters"] = lambda self, query, join_order, operator_assignment: recorded(
            PlanParameterization, "params", self.name, query, join_order, operator_assignment, self.query, self.target_db)
    elif kind == "enum":
        body["generate_execution_plan"] = lambda self, query, *, cost_model, cardinality_estimator: recorded(QueryPlan, "enum", self.name, query, cost_model, cardinality_estimator)
    elif kind == "complete":
        body["optimize_query"] = lambda self, query: recorded(QueryPlan, "complete", self.name, query)
    elif kind == "step":
        body["optimize_query"] = lambda self, query, current_plan: recorded(QueryPlan, "step", self.name, query, current_plan)
    if t[0]:
        body["fit_database"] = lambda self, database: ("db", self.name, database)
        body["database_fit_completed"] = lambda self: done
    if t[1]:
        body["fit_workload"] = lambda self, queries, database: ("wl", self.name, queries, database)
        body["workload_fit_completed"] = lambda self: done
    if t[2]:
        body["fit_samples"] = lambda self, samples: ("samples", self.name, samples)
        body["sample_spec"] = lambda self: ("spec", self.name)
        body["sample_fit_completed"] = lambda self: done
    if t[3]:
        body["learn_from_feedback"] = lambda self, query, result_set, *, exec_time: ("feedback", self.name, query, result_set, exec_time)
    return type("Fake" + kind.title(), (base,), body)()


def bare_stage(kind, body):
    """a stage class that implements nothing but its core method and the given ones"""
    from postbound import _stages as S
    base, core = {"join": (S.JoinOrderOptimization, "optimize_join_order"), "ops": (S.PhysicalOperatorSelection, "select_physical_operators"),
                  "params": (S.ParameterGeneration, "generate_plan_parameters"), "cost": (S.CostModel, "estimate_cost"),
                  "enum": (S.PlanEnumerator, "generate_execution_plan"), "complete": (S.CompleteOptimizationAlgorithm, "optimize_query"),
                  "step": (S.IncrementalOptimizationStep, "optimize_query")}[kind]
    return type("Bare" + kind.title(), (base,), {core: lambda self, *a, **k: None, **body})


def settings(rng):
    from postbound._pipelines import OptimizationSettings
    made = {"query_pre_check": maybe(rng, lambda: precheck(rng, 1), 0.4), "build_join_order_optimizer": maybe(rng, lambda: stage(rng, "join")),
            "build_physical_operator_selection": maybe(rng, lambda: stage(rng, "ops")), "build_plan_parameterization": maybe(rng, lambda: stage(rng, rng.choice(["params", "card"])))}
    return type("FakeSettings", (OptimizationSettings,), {k: (lambda self, _v=v: _v) for k, v in made.items() if v is not None})()


def maybe(rng, f, p=0.7):
    return f() if rng.random() < p else None


def pipeline(rng, kind, size=2, build=None):
    from postbound import _pipelines as PL
    db = pipeline_db(rng, rng.random() < 0.6)
    if kind == "integrated":
        p = PL.IntegratedOptimizationPipeline(db)
        a = maybe(rng, lambda: stage(rng, "complete"), 0.9)
        if a is not None:
            p.setup_optimization_algorithm(a)
    elif kind in ("multi", "lmulti"):
        p = PL.MultiStageOptimizationPipeline(db)
        for k, setup in [("join", p.setup_join_order_optimization), ("ops", p.setup_physical_operator_selection),
                         (rng.choice(["params", "lcard" if kind == "lmulti" else "card"]), p.setup_plan_parameterization)]:
            s = maybe(rng, lambda: stage(rng, k))
            if s is not None:
                setup(s)
        c = maybe(rng, lambda: precheck(rng, 1), 0.4)
        if c is not None:
            p.setup_query_support_check(c)
    elif kind == "textbook":
        p = PL.TextBookOptimizationPipeline(db)
        p.setup_cardinality_estimator(stage(rng, "card")).setup_cost_model(stage(rng, "cost")).setup_plan_enumerator(stage(rng, "enum"))
    else:
        p = PL.IncrementalOptimizationPipeline(db)
        try:
            if rng.random() < 0.7:
                p.initial_plan_generator = stage(rng, "complete")
        except Exception:
            pass
        for _ in range(rng.randint(0, size)):
            try:
                p.add_optimization_step(stage(rng, "step"))
            except Exception:
                pass
    if hasattr(p, "build") and (rng.random() < 0.7 if build is None else build):
        try:
            p.build()
        except Exception:
            pass
    return p


def any_pipeline(rng):
    return pipeline(rng, rng.choice(["integrated", "multi", "textbook", "incremental"]))


def samples(rng):
    from postbound.train import TrainingData
    return recorded(TrainingData, rng.choice(["s1", "s2"]))


def sample_repository(rng):
    from postbound.train import TrainingData, TrainingDataRepository
    r = recorded(TrainingDataRepository, rng.choice(["repo1", "repo2"]))
    gone = set(rng.sample(["A", "B", "C", "D"], rng.choice([0, 0, 1])))
    type(r).retrieve_merged = lambda self, spec: None if spec[1] in self.gone else recorded(TrainingData, self.payload, spec)
    r.__dict__["gone"] = gone
    return r


def emulated(rng, kind=None):
    from postbound._stages import as_complete_algorithm
    return as_complete_algorithm(stage(rng, kind or rng.choice(["join", "ops", "params", "card"])), database=pipeline_db(rng))


# ---- arbitrary expressions and predicates ----------------------------------------------------------------------------

def expr(rng, tabs, depth=2):
    """all kinds of expressions over (qualified) columns of the tables"""
    from postbound import qal as q
    k = rng.randrange(5 if depth <= 0 else 16)
    rec = lambda: expr(rng, tabs, depth - 1)
    if k <= 2:
        return q.ColumnExpression(qcol(rng, rng.choice(tabs)))
    if k <= 4:
        return q.StaticValueExpression(rng.choice([1, 2, "x", None]))
    if k == 5:
        return q.CastExpression(rec(), rng.choice(["int", "text"]), type_params=rng.choice([None, None, [rec()]]))
    if k == 6:
        return q.MathExpression(rng.choice(list(q.MathOperator)), rec(), rec())
    if k == 7:
        return q.MathExpression(q.MathOperator.Add, rec(), [rec() for _ in range(rng.randint(1, 3))])
    if k == 8:
        return q.MathExpression(q.MathOperator.Subtract, rec())
    if k == 9:
        return q.FunctionExpression(rng.choice(["abs", "coalesce"]), [rec() for _ in range(rng.randint(0, 2))])
    if k == 10:
        return q.FunctionExpression("sum", [rec()], filter_where=pred(rng, tabs, depth - 1) if rng.random() < 0.5 else None)
    if k == 11:
        return q.ArrayExpression([rec() for _ in range(rng.randint(1, 2))])
    if k == 12:
        return q.CaseExpression([(pred(rng, tabs, depth - 1), rec()) for _ in range(rng.randint(1, 2))], simple_expr=rec() if rng.random() < 0.3 else None,
                                else_expr=rec() if rng.random() < 0.5 else None)
    if k == 13:
        return q.ArrayAccessExpression(rec(), **rng.choice([{"idx": rec()}, {"lower_idx": rec()}, {"lower_idx": rec(), "upper_idx": rec()}]))
    if k == 14:
        return q.WindowExpression(q.FunctionExpression("sum", [rec()]), partitioning=[rec()] if rng.random() < 0.6 else None,
                                  ordering=q.OrderBy([q.OrderByExpression(rec())]) if rng.random() < 0.4 else None,
                                  filter_condition=pred(rng, tabs, depth - 1) if rng.random() < 0.4 else None)
    return subquery_expr(rng, tabs)


def subquery_expr(rng, tabs):
    """subqueries, possibly dependent on one of the tables"""
    from postbound import qal as q
    z = TableReference("z")
    cls = [q.Select([q.BaseProjection.column(qcol(rng, z))]), q.ImplicitFromClause.create_for([z])]
    if rng.random() < 0.6:
        cls.append(q.Where(q.as_predicate(qcol(rng, z), q.LogicalOperator.Equal, qcol(rng, rng.choice(tabs)))))
    return q.SubqueryExpression(q.build_query(cls))


def simple_expr(rng, tabs):
    from postbound import qal as q
    e = q.ColumnExpression(qcol(rng, rng.choice(tabs))) if rng.random() < 0.7 else q.StaticValueExpression(rng.choice([1, 2, "x"]))
    return e if rng.random() < 0.75 else q.CastExpression(e, "int")


def base_pred(rng, tabs, depth=1):
    from postbound import qal as q
    e = (lambda: simple_expr(rng, tabs)) if depth <= 0 or rng.random() < 0.6 else (lambda: expr(rng, tabs, depth - 1))
    k = rng.randrange(8)
    if k <= 3:
        ops = [o for o in q.LogicalOperator if o not in (q.LogicalOperator.In, q.LogicalOperator.Exists, q.LogicalOperator.Between)]
        return q.BinaryPredicate(q.LogicalOperator.Equal if rng.random() < 0.5 else rng.choice(ops), e(), e())
    if k == 4:
        return q.BetweenPredicate(e(), (e(), e()))
    if k == 5:
        return q.InPredicate(e(), [e() for _ in range(rng.randint(1, 3))])
    if k == 6:
        return q.UnaryPredicate(e(), rng.choice([None, q.LogicalOperator.Is, q.LogicalOperator.IsNot]))
    s = subquery_expr(rng, tabs)
    return q.UnaryPredicate(s, q.LogicalOperator.Exists) if rng.random() < 0.5 else q.InPredicate(e(), [s])


def pred(rng, tabs, depth=2):
    """arbitrarily nested predicates, joins and filters mixed"""
    from postbound import qal as q
    if depth <= 0 or rng.random() < 0.35:
        return base_pred(rng, tabs, depth)
    if rng.random() < 0.25:
        return q.CompoundPredicate.create_not(pred(rng, tabs, depth - 1))
    parts = [pred(rng, tabs, depth - 1) for _ in range(rng.randint(2, 4))]
    return (q.CompoundPredicate.create_or if rng.random() < 0.4 else q.CompoundPredicate.create_and)(parts)


def any_pred(rng, depth=2):
    return pred(rng, qtables(rng, rng.randint(1, 4)), depth)


def any_expr(rng, depth=3):
    return expr(rng, qtables(rng, rng.randint(1, 4)), depth)


def query_predicates(rng, depth=3):
    from postbound import qal as q
    r = rng.random()
    if r < 0.05:
        return q.QueryPredicates.empty_predicate()
    tabs = qtables(rng, rng.randint(1, 4))
    p = predicate_over(rng, tabs, 3) if r < 0.4 else None
    return q.QueryPredicates(p if p is not None else pred(rng, tabs, depth))


# ---- queries with all kinds of clauses ---------------------------------------------------------------------------------

CLAUSES = ["hint", "explain", "cte", "select", "from", "where", "groupby", "having", "orderby", "limit"]
MAYBE = ["hint", "explain", "cte", "where", "groupby", "having", "orderby", "limit"]


def table_source(rng, tabs, depth=1, prefix="y"):
    """a FROM item over all of the tables"""
    from postbound import qal as q
    if len(tabs) > 1:
        cut = rng.randint(1, len(tabs) - 1)
        ty = rng.choice([q.JoinType.InnerJoin] * 4 + list(q.JoinType))
        natural = ty.name.startswith("Natural") or ty == q.JoinType.CrossJoin
        return q.JoinTableSource(table_source(rng, tabs[:cut], depth, prefix + "l"), table_source(rng, tabs[cut:], depth, prefix + "r"),
                                 join_condition=None if natural else pred(rng, tabs, 1), join_type=ty)
    k = rng.randrange(8)
    if k < 5 or depth <= 0:
        return q.DirectTableSource(tabs[0])
    if k == 5:
        return q.SubqueryTableSource(rich_query(rng, depth - 1, sets=False), prefix, lateral=rng.random() < 0.4)
    if k == 6:
        return q.ValuesTableSource([(q.StaticValueExpression(1), q.StaticValueExpression(rng.choice([1, 2])))], alias=prefix + "v", columns=rng.choice([["a", "b"], ["b", "c"]]))
    return q.FunctionTableSource(q.FunctionExpression("generate_series", [simple_expr(rng, tabs)]), alias=rng.choice(["", prefix + "f"]))


def clause(rng, kind, tabs, depth=1, frm=("implicit", "explicit", "mixed")):
    from postbound import qal as q
    e = lambda: expr(rng, tabs, depth)
    if kind == "hint":
        return q.Hint(rng.choice(["", "SET x = 1;"]), rng.choice(["HashJoin(r s)", "Leading((r s))"]))
    if kind == "explain":
        return rng.choice([q.Explain.plan(), q.Explain.explain_analyze(), q.Explain(True, None), q.Explain.plan("")])
    if kind == "cte":
        ws = [q.WithQuery(rich_query(rng, depth - 1, sets=False), n, materialized=rng.choice([None, True, False])) if rng.random() < 0.75 else
              q.ValuesWithQuery([(q.StaticValueExpression(1),)], target_name=n, columns=["a"]) for n in rng.sample(["w1", "w2", "w3"], rng.randint(1, 2))]
        return q.CommonTableExpression(ws, recursive=rng.random() < 0.3)
    if kind == "select":
        ts = [q.BaseProjection(e(), rng.choice(["", "", "p1", "p2"])) for _ in range(rng.randint(1, 3))] if rng.random() < 0.8 else [q.BaseProjection.star()]
        return q.Select(ts, distinct=rng.choice([False, False, True, [e()]]))
    if kind == "from":
        f = rng.choice(frm)
        if f == "implicit":
            return q.ImplicitFromClause.create_for(tabs)
        if f == "explicit" and len(tabs) > 1:
            return q.ExplicitFromClause(table_source(rng, tabs, depth))
        cut = rng.randint(1, len(tabs))
        return q.From([table_source(rng, tabs[:cut], depth)] + [q.DirectTableSource(t) for t in tabs[cut:]])
    if kind == "where":
        return q.Where(pred(rng, tabs, depth + 1))
    if kind == "groupby":
        return q.GroupBy([e() for _ in range(rng.randint(1, 2))], rng.random() < 0.3)
    if kind == "having":
        return q.Having(pred(rng, tabs, depth))
    if kind == "orderby":
        return q.OrderBy([q.OrderByExpression(e(), rng.choice([None, True, False]), rng.choice([None, True, False])) for _ in range(rng.randint(1, 2))])
    if kind == "limit":
        return q.Limit(limit=rng.choice([1, 5]), offset=rng.choice([None, 0, 3]), fetch_direction=rng.choice(["first", "next"]))
    l, r = rich_query(rng, depth - 1, sets=False), rich_query(rng, depth - 1, sets=depth > 1)
    if kind == "union":
        return q.UnionClause(l, r, union_all=rng.random() < 0.5)
    return (q.IntersectClause if kind == "intersect" else q.ExceptClause)(l, r)


def clauses(rng, depth=1, sets=None, tabs=None, frm=("implicit", "explicit", "mixed")):
    """the clauses of a query, shuffled"""
    tabs = tabs or qtables(rng, rng.randint(1, 3))
    sets = (rng.random() < 0.2) if sets is None else sets
    p = rng.choice([0.0, 0.25, 0.6])
    may = [k for k in MAYBE if rng.random() < p]
    if depth < 0:
        may = [k for k in may if k not in ("cte", "explain")]
    if sets:
        kinds = [rng.choice(["union", "intersect", "except"])] + [k for k in may if k not in ("where", "groupby", "having")]
    else:
        kinds = ["select"] + may + (["from"] if rng.random() < 0.95 else [])
    out = [clause(rng, k, tabs, depth, frm) for k in kinds]
    rng.shuffle(out)
    return out


def rich_query(rng, depth=1, sets=None, tabs=None, frm=("implicit", "explicit", "mixed")):
    from postbound import qal as q
    return q.build_query(clauses(rng, depth, sets, tabs, frm))


def any_clause(rng, depth=1, sets=True):
    return clause(rng, rng.choice(CLAUSES + ["union", "intersect", "except"] if sets else CLAUSES), qtables(rng, rng.randint(1, 3)), depth)


def many_clauses(rng, depth=1):
    tabs = qtables(rng, rng.randint(1, 3))
    return [clause(rng, rng.choice(CLAUSES), tabs, depth) for _ in range(rng.choice([0, 1, 2, 4, 7]))]


def some_clauses(rng, depth=1):
    """the clauses of a set operation, sometimes with one too many"""
    cs = clauses(rng, depth, sets=True)
    if rng.random() < 0.25:
        cs.append(clause(rng, rng.choice(CLAUSES), qtables(rng, 2), depth))
    return cs


def _tweaked(rng, make):
    import random
    seed = rng.getrandbits(32)
    a = make(random.Random(seed))
    return a, (make(random.Random(seed)) if rng.random() < 0.4 else make(rng))


def two_clauses(rng, size=0):
    kind = rng.choice(CLAUSES + ["union", "intersect", "except"])
    tabs = qtables(rng, rng.randint(1, 3))
    a, b = _tweaked(rng, lambda r: clause(r, kind, tabs, rng.choice([0, 0, 1])))
    if rng.random() < 0.1:
        b = any_clause(rng)
    elif rng.random() < 0.3:
        b = mutated(rng, a)
    return {"a": a, "b": b}


def mutated(rng, c):
    """a clause that differs in one argument"""
    from postbound import qal as q
    if isinstance(c, q.Hint):
        return rng.choice([q.Hint(c.preparatory_statements, c.query_hints + " "), q.Hint(c.preparatory_statements + " ", c.query_hints)])
    if isinstance(c, q.Explain):
        return rng.choice([q.Explain(not c.analyze, c.target_format), q.Explain(c.analyze, "XML")])
    if isinstance(c, q.Limit):
        return rng.choice([q.Limit(limit=(c.limit or 0) + 1, offset=c.offset, fetch_direction=c.fetch_direction), q.Limit(limit=c.limit, offset=(c.offset or 0) + 1, fetch_direction=c.fetch_direction),
                           q.Limit(limit=c.limit, offset=c.offset, fetch_direction="next" if c.fetch_direction != "next" else "last")])
    if isinstance(c, q.CommonTableExpression):
        return q.CommonTableExpression(c.queries if rng.random() < 0.5 else list(c.queries)[::-1], recursive=not c.recursive)
    if isinstance(c, q.Select):
        return q.Select(c.targets, distinct=rng.choice([True, False, [c.targets[0].expression]])) if rng.random() < 0.6 else q.Select(list(c.targets)[::-1], distinct=c.distinct_on or c.is_distinct())
    if isinstance(c, q.GroupBy):
        return q.GroupBy(c.group_columns, not c.distinct) if rng.random() < 0.6 else q.GroupBy(list(c.group_columns)[::-1], c.distinct)
    if isinstance(c, q.OrderBy):
        o = c.expressions[0]
        return q.OrderBy([rng.choice([q.OrderByExpression(o.column, not o.ascending, o.nulls_first), q.OrderByExpression(o.column, o.ascending, not o.nulls_first)])] + list(c.expressions)[1:])
    if isinstance(c, q.UnionClause):
        return q.UnionClause(c.left_query, c.right_query, union_all=not c.is_union_all()) if rng.random() < 0.5 else q.UnionClause(c.right_query, c.left_query, union_all=c.is_union_all())
    if isinstance(c, (q.IntersectClause, q.ExceptClause)):
        return type(c)(c.right_query, c.left_query) if rng.random() < 0.5 else rng.choice([q.IntersectClause, q.ExceptClause])(c.left_query, c.right_query)
    if isinstance(c, q.ImplicitFromClause):
        return rng.choice([q.From(c.items), q.ImplicitFromClause(list(c.items)[::-1])])
    if isinstance(c, q.Where):
        return q.Where(q.CompoundPredicate.create_not(c.predicate))
    if isinstance(c, q.Having):
        return q.Having(q.CompoundPredicate.create_not(c.condition))
    return c


def two_queries(rng, size=0):
    from postbound import qal as q
    tabs = qtables(rng, rng.randint(1, 3))
    a, b = _tweaked(rng, lambda r: rich_query(r, rng.choice([0, 0, 1]), tabs=tabs))
    if rng.random() < 0.5:
        cs = list(a.clauses())
        i = rng.randrange(len(cs))
        keep = (q.Select, q.UnionClause, q.IntersectClause, q.ExceptClause)
        cs[i:i + 1] = [mutated(rng, cs[i])] if isinstance(cs[i], keep) or rng.random() < 0.7 else []
        b = q.build_query(cs)
    return {"a": a, "b": b}


# ---- two objects of the same kind --------------------------------------------------------------------------------------

def _part(rng, kind, tabs):
    from postbound import qal as q
    opt = lambda f, p=0.6: f() if rng.random() < p else None
    e = lambda: expr(rng, tabs, rng.choice([0, 0, 1]))
    if kind.startswith("opt"):
        return opt(lambda: _part(rng, kind[3:], tabs))
    if kind in ("projections", "orderexprs", "withs", "sources"):
        return tuple(_part(rng, kind[:-1], tabs) for _ in range(rng.randint(1, 2)))
    return {"expr": e, "types": lambda: rng.choice(["int", "text", "varchar", "numeric"]), "exprs": lambda: tuple(e() for _ in range(rng.randint(0, 3))),
            "exprs1": lambda: tuple(e() for _ in range(rng.randint(1, 3))), "exprs2": lambda: tuple(e() for _ in range(rng.randint(2, 3))),
            "bool": lambda: rng.random() < 0.5, "table": lambda: rng.choice(tabs), "column": lambda: qcol(rng, rng.choice(tabs)), "int": lambda: rng.choice([0, 1, 2, -1]),
            "str": lambda: rng.choice(["", "x", "X", "it's", "*"]), "mathop": lambda: rng.choice(list(q.MathOperator)), "pred": lambda: pred(rng, tabs, 1),
            "preds2": lambda: tuple(pred(rng, tabs, 1) for _ in range(rng.randint(2, 3))), "fname": lambda: rng.choice(["sum", "SUM", "count", "Min", "abs", "coalesce", "string_agg", "lower"]),
            "query": lambda: rich_query(rng, 0), "function": lambda: function_expr(rng, tabs), "order": lambda: order_by(rng, tabs), "cases": lambda: tuple((e(), e()) for _ in range(rng.randint(1, 2))),
            "quantop": lambda: rng.choice(list(q.QuantifierOperator)), "logicalop": lambda: rng.choice(list(q.LogicalOperator)),
            "name": lambda: rng.choice(["n1", "n2", "N1"]), "names": lambda: tuple(rng.sample(["a", "b", "c"], rng.randint(0, 2))), "direction": lambda: rng.choice(["first", "next", "prior", "last"]),
            "source": lambda: table_source(rng, rng.sample(list(tabs), rng.randint(1, len(tabs))), 1), "jointype": lambda: rng.choice(list(q.JoinType)),
            "projection": lambda: q.BaseProjection(e(), rng.choice(["", "p1"])), "orderexpr": lambda: q.OrderByExpression(e(), rng.choice([None, True, False]), rng.choice([None, True, False])),
            "with": lambda: q.WithQuery(rich_query(rng, 0), rng.choice(["w1", "w2"]), materialized=rng.choice([None, True, False])),
            "unaryop": lambda: opt(lambda: rng.choice(list(q._qal.UnarySqlOperators)), 0.7), "andor": lambda: rng.choice([q.CompoundOperator.And, q.CompoundOperator.Or]),
            }[kind]()


def function_expr(rng, tabs=None):
    from postbound import qal as q
    tabs = tabs or qtables(rng, 2)
    return q.FunctionExpression(rng.choice(["sum", "rank", "count"]), [expr(rng, tabs, 0) for _ in range(rng.randint(0, 2))])


def order_by(rng, tabs=None):
    from postbound import qal as q
    tabs = tabs or qtables(rng, 2)
    return q.OrderBy([q.OrderByExpression(expr(rng, tabs, 0), rng.choice([None, True, False]), rng.choice([None, True, False])) for _ in range(rng.randint(1, 2))])


def twice(rng, kinds, size=0):
    """arguments x1 and x2 of each of the kinds; equal ones are not identical"""
    tabs = qtables(rng, rng.randint(1, 3))
    equal = rng.choice([1.0, 0.85, 0.85, 0.5, 0.0])
    out = {}
    for p, k in kinds.items():
        seed = rng.random()
        k = k if isinstance(k, str) else rng.choice(k)
        out[p + "1"] = _part(random.Random(seed), k, tabs)
        out[p + "2"] = _part(random.Random(seed if rng.random() < equal else rng.random()), k, tabs)
    same = {}
    for p, k in kinds.items():
        if isinstance(k, str):
            same.setdefault(k.removeprefix("opt"), []).append(p)
    for k, ps in same.items():
        if len(ps) > 1 and rng.random() < 0.2:      # the same parts in other places
            for p, o in zip(ps, rng.sample(ps, len(ps))):
                if kinds[p].startswith("opt") or out[o + "1"] is not None:
                    out[p + "2"] = out[o + "1"]
    return out


def deep_expr(rng, tabs=None, depth=2):
    """all kinds of expressions and predicates with all of their options"""
    from postbound import qal as q
    tabs = tabs or qtables(rng, rng.randint(1, 3))
    k = rng.randrange(9)
    rec = lambda: deep_expr(rng, tabs, depth - 1) if depth > 0 else simple_expr(rng, tabs)
    p = lambda: pred(rng, tabs, max(depth - 1, 0))
    opt = lambda f: f() if rng.random() < 0.5 else None
    if k == 0:
        return q.QuantifierExpression(rec(), quantifier=rng.choice(list(q.QuantifierOperator)))
    if k == 1:
        return q.CastExpression(rec(), rng.choice(["int", "text"]), type_params=[rec() for _ in range(rng.randint(0, 2))], array_type=rng.random() < 0.5)
    if k == 2:
        return q.FunctionExpression(rng.choice(["sum", "count"]), [rec() for _ in range(rng.randint(1, 2))], distinct=rng.random() < 0.5, filter_where=opt(p))
    if k == 3:
        return q.WindowExpression(function_expr(rng, tabs), partitioning=[rec() for _ in range(rng.randint(0, 2))], ordering=opt(lambda: order_by(rng, tabs)), filter_condition=opt(p))
    if k == 4:
        return q.StarExpression(from_table=rng.choice([None] + list(tabs)))
    if k == 5:
        return q.BinaryPredicate(rng.choice([q.LogicalOperator.Equal, q.LogicalOperator.Less]), rec(), rec())
    if k == 6:
        return pred(rng, tabs, depth)
    return expr(rng, tabs, depth)


def _swap_one(rng, xs, f):
    xs = list(xs)
    i = rng.randrange(len(xs))
    xs[i] = f(xs[i])
    return xs


def vary(rng, e):
    """an expression that differs in one detail (or, rarely, in none)"""
    from postbound import qal as q
    v = lambda x: vary(rng, x)
    o = lambda x: None if x is None else v(x)
    one = rng.random
    n = type(e).__name__
    if n == "ColumnExpression":
        return q.ColumnExpression(qcol(rng, e.column.table))
    if n == "StaticValueExpression":
        return q.StaticValueExpression(rng.choice([1, 2, "x", "1", None]))
    if n == "StarExpression":
        return q.StarExpression(from_table=None if e.from_table else TableReference("r"))
    if n == "CastExpression":
        k = rng.randrange(4)
        return q.CastExpression(v(e.casted_expression) if k == 0 else e.casted_expression, "text" if k == 1 else e.target_type,
                                type_params=_swap_one(rng, e.type_params, v) if k == 2 and e.type_params else e.type_params, array_type=e.array_type ^ (k == 3))
    if n == "MathExpression":
        k, s = rng.randrange(3), e.second_arg
        if k == 2 and s is not None:
            s = tuple(_swap_one(rng, s, v)) if isinstance(s, tuple) else v(s)
        return q.MathExpression(q.MathOperator.Multiply if k == 0 else e.operator, v(e.first_arg) if k == 1 else e.first_arg, s)
    if n == "FunctionExpression":
        k = rng.randrange(4)
        agg = e.is_aggregate()
        if k == 3 and agg:
            return q.FunctionExpression(e.function, e.arguments, distinct=e.distinct, filter_where=o(e.filter_where))
        return q.FunctionExpression("max" if k == 0 and agg else e.function, _swap_one(rng, e.arguments, v) if k == 1 and e.arguments else e.arguments, distinct=(e.distinct ^ (k == 2)) and agg,
                                    filter_where=e.filter_where)
    if n == "ArrayExpression":
        return q.ArrayExpression(_swap_one(rng, e.elements, v)) if e.elements else e
    if n == "ArrayAccessExpression":
        k = rng.randrange(2)
        return q.ArrayAccessExpression(v(e.array) if k else e.array, idx=e.index if k else o(e.index), lower_idx=e.lower_index, upper_idx=e.upper_index if k else o(e.upper_index))
    if n == "QuantifierExpression":
        return q.QuantifierExpression(v(e.expression), quantifier=e.quantifier) if one() < 0.5 else q.QuantifierExpression(e.expression, quantifier=rng.choice(list(q.QuantifierOperator)))
    if n == "CaseExpression":
        k = rng.randrange(3)
        return q.CaseExpression(_swap_one(rng, e.cases, lambda c: (c[0], v(c[1]))) if k == 0 else e.cases, simple_expr=o(e.simple_expression) if k == 1 else e.simple_expression,
                                else_expr=o(e.else_expression) if k == 2 else e.else_expression)
    if n == "WindowExpression":
        k = rng.randrange(4)
        return q.WindowExpression(v(e.window_function) if k == 0 else e.window_function, partitioning=_swap_one(rng, e.partitioning, v) if k == 1 and e.partitioning else e.partitioning,
                                  ordering=e.ordering and mutated(rng, e.ordering) if k == 2 else e.ordering, filter_condition=o(e.filter_condition) if k == 3 else e.filter_condition)
    if n == "BinaryPredicate":
        k = rng.randrange(3)
        return q.BinaryPredicate(q.LogicalOperator.Greater if k == 0 else e.operation, v(e.first_argument) if k == 1 else e.first_argument, v(e.second_argument) if k == 2 else e.second_argument)
    if n == "BetweenPredicate":
        k = rng.randrange(3)
        return q.BetweenPredicate(v(e.column) if k == 0 else e.column, (v(e.interval_start) if k == 1 else e.interval_start, v(e.interval_end) if k == 2 else e.interval_end))
    if n == "InPredicate":
        return q.InPredicate(v(e.column), e.values) if one() < 0.5 else q.InPredicate(e.column, _swap_one(rng, e.values, v))
    if n == "UnaryPredicate":
        return e if isinstance(e.column, q.SubqueryExpression) else q.UnaryPredicate(v(e.column), e.operation)
    if n == "CompoundPredicate":
        return q.CompoundPredicate(e.operation, _swap_one(rng, e.iterchildren(), v)) if not e.is_negation() else q.CompoundPredicate(e.operation, v(e.children))
    return e


def two_exprs(rng, size=0):
    tabs = qtables(rng, rng.randint(1, 3))
    a, b = _tweaked(rng, lambda r: deep_expr(r, tabs, r.choice([0, 1, 1, 2])))
    if rng.random() < 0.4:
        b = vary(rng, a)
    return {"a": a, "b": b}


def estimator(rng):
    """an arbitrary, but deterministic estimator"""
    from postbound import _stages as S
    salt = rng.randrange(1000)

    class Est(S.CardinalityEstimator):
        def calculate_estimate(self, query, intermediate):
            tabs = [intermediate] if isinstance(intermediate, TableReference) else list(intermediate)
            return cardinality(random.Random(repr((salt, str(query), sorted(repr(t) for t in tabs)))))

        def describe(self):
            return {"name": f"est{salt}"}

    return Est(allow_cross_products=rng.random() < 0.4)


def small_query(rng):
    for _ in range(20):
        q = query(rng, rng.randint(0, 2))
        if len(q.tables()) <= 5:
            return q
    return q


def some_jointree(rng):
    return jointree(rng, rng.randint(1, 3), empty=False)


def counting_db(rng):
    """a database that answers queries by a function of their text"""
    db = pipeline_db(rng)
    cls = type(db)
    salt = rng.randrange(1000)

    def answer(q):
        return random.Random(repr((salt, str(q)))).choice([0, 1, 2, 17, 1000])

    cls.execute_query = lambda self, q, **kw: answer(q)
    return db


def _subset(rng, q):
    tabs = sorted(q.tables(), key=repr)
    return frozenset(rng.sample(tabs, rng.randint(1, len(tabs)))) if tabs else frozenset()


def _fragmentable(rng):
    from postbound.qal import ImplicitSqlQuery
    while True:
        q = query(rng, rng.randint(0, 2), kinds=("implicit",))
        if isinstance(q, ImplicitSqlQuery) and 0 < len(q.tables()) <= 5:
            return q


def precise_estimator(rng):
    from postbound.opt import PreciseCardinalities
    return PreciseCardinalities(counting_db(rng), enable_cache=rng.random() < 0.5, allow_cross_products=rng.random() < 0.5)


def precise_case(rng):
    from postbound import transform
    e = precise_estimator(rng)
    qs = [_fragmentable(rng) for _ in range(2)]
    for q in qs:
        for _ in range(rng.randint(0, 2)):
            e.calculate_estimate(q, _subset(rng, q))
    if rng.random() < 0.3:
        # the data changes
        old = type(e.database).execute_query
        type(e.database).execute_query = lambda self, q, **kw: old(self, q) + 1
    q = rng.choice(qs)
    s = _subset(rng, q)
    return {"self": e, "query": q, "intermediate": s}


def distorted_estimator(rng):
    from postbound.opt import CardinalityDistortion
    return CardinalityDistortion(estimator(rng), rng.choice([0.0, 0.5, 0.25, 1.0, 1.5, 2.0, 3.0, 10.0]),
                                 distortion_strategy=rng.choice(["fixed", "fixed", "random", "random", "other"]))


def distortion_case(rng):
    q = small_query(rng)
    return {"self": distorted_estimator(rng), "query": q, "tables": _subset(rng, q)}


def planning_db(rng):
    """a database whose optimizer is a deterministic function of the query"""
    db = counting_db(rng)
    salt = rng.randrange(1000)

    class Opt:
        def cardinality_estimate(self, q):
            return cardinality(random.Random(repr((salt, str(q)))))

        def query_plan(self, q):
            return opt_plan(random.Random(repr((salt, str(q)))), 2)

    class Hinting(FakeHints):
        def generate_hints(self, query, plan=None, *, join_order=None, physical_operators=None, plan_parameters=None):
            from postbound import transform
            from postbound.qal import Hint
            return transform.add_clause(query, Hint("", repr((str(plan), str(join_order), str(physical_operators), str(plan_parameters)))))

    type(db).optimizer = lambda self: Opt()
    type(db).hinting = lambda self: Hinting(frozenset())
    return db


def native_estimator(rng):
    from postbound.opt.native import NativeCardinalityEstimator
    return NativeCardinalityEstimator(planning_db(rng))


def native_case(rng):
    q = _fragmentable(rng)
    return {"self": native_estimator(rng), "query": q, "intermediate": _subset(rng, q)}


def _native(cls):
    def g(rng):
        from postbound.opt import native
        return getattr(native, cls)(planning_db(rng))
    return g


native_order, native_operators, native_parameters, native_optimizer = [
    _native(c) for c in ("NativeJoinOrderOptimizer", "NativePhysicalOperatorSelection", "NativePlanParameterization", "NativeOptimizer")]


def some_operators(rng):
    return poa(rng, 2)


def precomputed_case(rng):
    """a workload, stored cardinalities, options of the estimator and requests"""
    queries = []
    while len(queries) < rng.randint(1, 3):
        q = _fragmentable(rng)
        if q not in queries:
            queries.append(q)
    scheme = rng.choice(["q{i}", "1{i}a", "{bs}", "Q{as_}"])
    labels = [scheme.format(i=i, bs="1a" + "b" * i, as_="a" * i) for i in range(len(queries))]
    stored = {}
    for q, label in zip(queries, labels):
        for _ in range(rng.randint(0, 3)):
            stored[(label, _subset(rng, q))] = rng.choice([0, 1, 2, 17, 1000, 10**9])
    for (label, s) in list(stored):
        for q, other in zip(queries, labels):
            if other != label and s <= q.tables() and rng.random() < 0.5:
                stored.setdefault((other, s), rng.choice([3, 5, 99]))
    requests = []
    for _ in range(rng.randint(1, 4)):
        i = rng.randrange(len(queries))
        known = [s for (label, s) in stored if label == labels[i]]
        requests.append((i, rng.choice(known) if known and rng.random() < 0.4 else _subset(rng, queries[i])))
    if rng.random() < 0.5:
        requests.append(rng.choice(requests))
    names = rng.choice([("label", "tables", "cardinality"), ("l", "t", "c")])
    live = rng.random() < 0.5
    return {"queries": queries, "labels": labels, "stored": stored, "requests": requests, "names": names, "extra": rng.random() < 0.4,
            "default": rng.choice([None, None, Cardinality(5), Cardinality.unknown()]), "live": live, "style": rng.choice(["actual", "estimated"]), "save": rng.random() < 0.7,
            "error": rng.random() < 0.6, "db": planning_db(rng), "twice": rng.random() < 0.1 and bool(stored)}


def nested_pred(rng, depth=None):
    """nested predicates, also with repeated parts and directly nested conjunctions"""
    from postbound import qal as q
    tabs = qtables(rng, rng.randint(1, 4))
    atoms = [simple_atom(rng, tabs) for _ in range(rng.randint(1, 5))]

    def go(d):
        if d <= 0 or rng.random() < 0.25:
            return rng.choice(atoms)
        if rng.random() < 0.2:
            return q.CompoundPredicate.create_not(go(d - 1))
        parts = [go(d - 1) for _ in range(rng.randint(2, 3))]
        return q.CompoundPredicate(q.CompoundOperator.And if rng.random() < 0.55 else q.CompoundOperator.Or, parts)

    return go(rng.randint(0, 4) if depth is None else depth)


def simple_atom(rng, tabs):
    return base_pred(rng, tabs, 0) if rng.random() < 0.5 else base_pred(rng, [rng.choice(tabs)], 0)


def _parts_of(p):
    from postbound import qal as q
    return [p] + ([x for c in p.iterchildren() for x in _parts_of(c)] if isinstance(p, q.CompoundPredicate) else [])


def removal(rng):
    """a predicate and one of its parts (or an unrelated one)"""
    p = nested_pred(rng)
    return {"predicate": None if rng.random() < 0.05 else p, "predicate_to_remove": rng.choice(_parts_of(p)) if rng.random() < 0.85 else nested_pred(rng)}


def replacement(rng):
    p = nested_pred(rng)
    return {"current_predicate": p, "target_predicate": rng.choice(_parts_of(p)) if rng.random() < 0.85 else nested_pred(rng), "new_predicate": nested_pred(rng)}


def plain_atom(rng, tabs):
    """a base predicate without subqueries, over one or two of the tables"""
    from postbound import qal as q
    some = rng.sample(tabs, rng.randint(1, min(2, len(tabs))))
    e = lambda: simple_expr(rng, some)
    k = rng.randrange(8)
    if k <= 2:
        return q.BinaryPredicate(q.LogicalOperator.Equal, q.ColumnExpression(qcol(rng, rng.choice(tabs))), q.ColumnExpression(qcol(rng, rng.choice(tabs))))
    if k <= 4:
        return q.BinaryPredicate(rng.choice([q.LogicalOperator.Equal, q.LogicalOperator.Less, q.LogicalOperator.Like]), q.ColumnExpression(qcol(rng, rng.choice(some))), e())
    if k == 5:
        return q.BetweenPredicate(e(), (e(), e()))
    if k == 6:
        return q.InPredicate(e(), [e() for _ in range(rng.randint(1, 3))])
    return q.UnaryPredicate(q.ColumnExpression(qcol(rng, rng.choice(some))), rng.choice([q.LogicalOperator.Is, q.LogicalOperator.IsNot]) if rng.random() < 0.3 else None)


def plain_pred(rng, tabs, depth=None):
    from postbound import qal as q
    atoms = [plain_atom(rng, tabs) for _ in range(rng.randint(1, 6))]

    def go(d, top=False):
        if d <= 0 or rng.random() < 0.3:
            return rng.choice(atoms)
        if not top and rng.random() < 0.2:
            return q.CompoundPredicate.create_not(go(d - 1))
        parts = [go(d - 1) for _ in range(rng.randint(2, 4))]
        return q.CompoundPredicate(q.CompoundOperator.And if top or rng.random() < 0.5 else q.CompoundOperator.Or, parts)

    return go(rng.randint(0, 3) if depth is None else depth, rng.random() < 0.7)


def table_pred(rng):
    while True:
        p = nested_pred(rng)
        if p.tables():
            return p


def plain_clauses(rng, tabs, p=0.4):
    """clauses other than FROM and WHERE, without subqueries"""
    from postbound import qal as q
    some = lambda: [rng.choice(tabs) for _ in range(rng.randint(1, 2))]
    e = lambda: simple_expr(rng, some()) if rng.random() < 0.7 else q.FunctionExpression("f", [simple_expr(rng, some()) for _ in range(rng.randint(0, 2))])
    out = [q.Select([q.BaseProjection(e(), rng.choice(["", "p1"])) for _ in range(rng.randint(1, 4))] if rng.random() < 0.7 else [rng.choice([q.BaseProjection.star(), q.BaseProjection.count_star()])],
                    distinct=rng.random() < 0.3)]
    if rng.random() < p:
        out.append(q.GroupBy([e() for _ in range(rng.randint(1, 3))], rng.random() < 0.3))
    if rng.random() < p:
        out.append(q.Having(plain_pred(rng, tabs, 2)))
    if rng.random() < p:
        out.append(q.OrderBy([q.OrderByExpression(e(), rng.choice([None, True, False]), rng.choice([None, True, False])) for _ in range(rng.randint(1, 3))]))
    if rng.random() < p:
        out.append(clause(rng, "limit", tabs))
    return out


def fragment_case(rng):
    """an implicit query, a set of tables, and how to project"""
    from postbound import qal as q
    tabs = qtables(rng, rng.randint(1, 4))
    cs = plain_clauses(rng, tabs)
    if rng.random() < 0.2:
        names = rng.sample(["w1", "w2", "w3"], rng.randint(1, 2))
        inner = [TableReference(n) for n in ["i1", "i2"]]
        cs.append(q.CommonTableExpression([q.WithQuery(q.build_query([q.Select.star(), q.ImplicitFromClause.create_for([rng.choice(inner)])]), n) for n in names],
                                          recursive=rng.random() < 0.3))
        tabs = tabs + [TableReference.create_virtual(n) for n in names]
    if rng.random() < 0.95:
        cs.append(q.ImplicitFromClause.create_for(tabs))
    if rng.random() < 0.85:
        cs.append(q.Where(plain_pred(rng, tabs)))
    query_ = q.build_query(cs)
    ts = rng.sample(tabs, rng.randint(1, len(tabs)))
    if rng.random() < 0.1:
        ts.append(TableReference("z"))
    arg = ts[0] if len(ts) == 1 and rng.random() < 0.5 else rng.choice([list, set, frozenset, tuple])(ts)
    return {"source_query": query_, "referenced_tables": arg, "projection": rng.choice(["keep", "keep", "star", "*", "count_star"])}


def predicate_query(rng):
    """an implicit query with a WHERE and/or HAVING clause, and a predicate to replace"""
    from postbound import qal as q
    tabs = qtables(rng, rng.randint(1, 3))
    cs = [c for c in plain_clauses(rng, tabs)] + [q.ImplicitFromClause.create_for(tabs)]
    if rng.random() < 0.8:
        cs.append(q.Where(plain_pred(rng, tabs)))
    if rng.random() < 0.3:
        cs.append(q.Hint("", "x"))
    query_ = q.build_query(cs)
    ps = [p for c in ([query_.where_clause.predicate] if query_.where_clause else []) + ([query_.having_clause.condition] if query_.having_clause else []) for p in _parts_of(c)]
    return {"query": query_, "predicate_to_replace": rng.choice(ps) if ps and rng.random() < 0.85 else plain_pred(rng, tabs), "new_predicate": plain_pred(rng, tabs)}


def _inner_joins(rng, tabs):
    from postbound import qal as q
    if len(tabs) == 1:
        return q.DirectTableSource(tabs[0])
    cut = rng.randint(1, len(tabs) - 1)
    ty = rng.choice([q.JoinType.InnerJoin] * 15 + [q.JoinType.LeftJoin])
    cond = plain_pred(rng, tabs, rng.choice([0, 0, 1, 2]))
    return q.JoinTableSource(_inner_joins(rng, tabs[:cut]), _inner_joins(rng, tabs[cut:]), join_condition=cond, join_type=ty)


def explicit_query(rng):
    """queries with explicit (inner) joins, and other clauses"""
    from postbound import qal as q
    tabs = qtables(rng, rng.randint(2, 5))
    cs = plain_clauses(rng, tabs)
    if rng.random() < 0.6:
        cs.append(q.Where(plain_pred(rng, tabs)))
    if rng.random() < 0.2:
        cs.append(q.Hint("", "x"))
    if rng.random() < 0.2:
        cs.append(q.Explain.plan())
    if rng.random() < 0.2:
        cs.append(q.CommonTableExpression([q.WithQuery(q.build_query([q.Select.star(), q.ImplicitFromClause.create_for([TableReference("i1")])]), "w1")]))
    return q.ExplicitSqlQuery(**{k: v for k, v in _by_kind(cs).items()}, from_clause=q.ExplicitFromClause(_inner_joins(rng, tabs)))


def _by_kind(cs):
    from postbound import qal as q
    names = {q.Select: "select_clause", q.Where: "where_clause", q.GroupBy: "groupby_clause", q.Having: "having_clause", q.OrderBy: "orderby_clause", q.Limit: "limit_clause",
             q.Hint: "hints", q.Explain: "explain_clause", q.CommonTableExpression: "cte_clause"}
    return {names[type(c)]: c for c in cs}


def join_query(rng):
    """an implicit query whose joins form equivalence classes"""
    from postbound import qal as q
    tabs = qtables(rng, rng.randint(1, 4))
    parts = [plain_atom(rng, tabs) for _ in range(rng.randint(0, 3))]
    for _ in range(rng.randint(0, 4)):
        a, b = (q.ColumnExpression(qcol(rng, rng.choice(tabs))) for _ in range(2))
        parts.append(q.BinaryPredicate.equal(a, b))
    if rng.random() < 0.3:
        parts.append(plain_pred(rng, tabs, 2))
    if rng.random() < 0.15:
        parts.append(q.CompoundPredicate.create_and([plain_atom(rng, tabs), plain_atom(rng, tabs)]))
    rng.shuffle(parts)
    cs = plain_clauses(rng, tabs, 0.2) + [q.ImplicitFromClause.create_for(tabs)] + ([q.Where(q.CompoundPredicate.create_and(parts))] if parts else [])
    if rng.random() < 0.2:
        cs.append(q.Hint("", "x"))
    return q.build_query(cs)


def subquery_case(rng):
    """a query, and the tables to move into a subquery"""
    from postbound import qal as q
    while True:
        tabs = qtables(rng, rng.randint(2, 4))
        moved = rng.sample(tabs, rng.randint(1, len(tabs)))
        unique = rng.random() < 0.85

        def name(t):
            return ColumnReference(rng.choice(["a", "b"]) + ("_" + t.identifier() if unique else ""), t)

        parts = []
        for _ in range(rng.randint(0, 4)):
            a, b = (q.ColumnExpression(name(rng.choice(tabs))) for _ in range(2))
            parts.append(rng.choice([q.BinaryPredicate.equal(a, b), q.BinaryPredicate(q.LogicalOperator.Less, a, q.StaticValueExpression(1)),
                                     q.CompoundPredicate.create_or([q.BinaryPredicate.equal(a, b), q.UnaryPredicate(a, None)]), q.CompoundPredicate.create_not(q.BinaryPredicate.equal(a, b))]))
        cs = [q.Select([q.BaseProjection(q.ColumnExpression(name(rng.choice(tabs))), rng.choice(["", "p"])) for _ in range(rng.randint(1, 3))]), q.ImplicitFromClause.create_for(tabs)]
        if parts:
            cs.append(q.Where(q.CompoundPredicate.create_and(parts)))
        if rng.random() < 0.3:
            cs.append(q.OrderBy([q.OrderByExpression(q.ColumnExpression(name(rng.choice(tabs))), True)]))
        if rng.random() < 0.3:
            cs.append(q.GroupBy([q.ColumnExpression(name(rng.choice(tabs)))]))
        if rng.random() < 0.2:
            cs.append(q.Limit(limit=3))
        if rng.random() < 0.2:
            cs.append(q.Hint("", "x"))
        return {"query": q.build_query(cs), "tables": rng.choice([list, set, tuple])(moved), "subquery_name": rng.choice(["", "sq"])}


# ---- renaming columns and tables ----------------------------------------------------------------------------------------

def col_renamings(rng):
    out = {}
    for t in qtables(rng, rng.randint(1, 5)):
        for n in "abc":
            if rng.random() < 0.4:
                out[ColumnReference(n, t)] = ColumnReference(rng.choice(["d", "e", "a", "b"]), t)
    return out


def _has_values(x):
    n = type(x).__name__
    if n == "ValuesTableSource":
        return True
    if n == "JoinTableSource":
        return _has_values(x.left) or _has_values(x.right)
    if n == "CommonTableExpression":
        return any(type(w).__name__ == "ValuesWithQuery" for w in x.queries)
    return False


def plain_source(rng):
    while True:
        s = table_source(rng, qtables(rng, rng.choice([1, 1, 2, 3])))
        if not _has_values(s):
            return s


def plain_clause(rng):
    while True:
        c = any_clause(rng)
        if not _has_values(c) and (not hasattr(c, "items") or not any(_has_values(s) for s in c.items)):
            return None if rng.random() < 0.05 else c


def _unambiguous(q):
    names = [t.identifier() for t in q.tables() if t]
    return len(names) == len(set(names))


def column_renaming(rng, size=0):
    q = rich_query(rng, rng.choice([0, 1, 1, 2]), sets=None)
    cols = sorted((c for c in q.columns() if c.table), key=str)
    cols += [ColumnReference("a", t) for t in sorted((t for t in q.tables() if t), key=str)]
    out = {}
    for c in cols:
        if rng.random() < 0.6:
            out[c] = ColumnReference(rng.choice(["d", "e", "a", "b", "c"]), c.table)
    if rng.random() < 0.2:
        other = TableReference("zz")
        out = {c: (d if c.table.virtual else ColumnReference(d.name, other)) for c, d in out.items()}
    return {"query": q, "available_renamings": out}


def table_renaming(rng, size=0):
    while True:
        q = rich_query(rng, rng.choice([0, 1, 1, 2]), sets=None)
        if _unambiguous(q):
            break
    tabs = sorted((t for t in q.tables() if t), key=str)
    fresh = [TableReference("n1"), TableReference("n2", "xn"), TableReference("n3", "r9"), TableReference("n4")]
    rng.shuffle(fresh)
    prefix = rng.random() < 0.3
    if rng.random() < 0.5 or not tabs:
        old = rng.choice(tabs) if tabs and rng.random() < 0.9 else TableReference("zz")
        new = TableReference.create_virtual("n5") if old.virtual else fresh[0]
        if rng.random() < 0.3:
            return {"source_query": q, "from_table": {old: new}, "target_table": None, "prefix_column_names": prefix}
        return {"source_query": q, "from_table": old, "target_table": new, "prefix_column_names": prefix}
    some = [t for t in rng.sample(tabs, rng.randint(1, len(tabs))) if not t.virtual]
    targets = some[1:] + some[:1] if rng.random() < 0.4 else [fresh[i] if i < 4 else t for i, t in enumerate(some)]
    return {"source_query": q, "from_table": dict(zip(some, targets)), "target_table": None, "prefix_column_names": prefix}


def table_merging(rng, size=0):
    while True:
        q = rich_query(rng, rng.choice([0, 0, 1]), sets=False, frm=("implicit",))
        if q.from_clause is not None and _unambiguous(q) and q.cte_clause is None:
            break
    tabs = [i.table for i in q.from_clause.items]
    some = rng.sample(tabs, rng.randint(1, len(tabs)))
    target = rng.choice([TableReference("n1"), TableReference("n2", "xn")] + some)
    return {"query": q, "tables": rng.choice([list, set, tuple])(some), "target": target}


# ---- hint generation -----------------------------------------------------------------------------------------------

class _HintCursor:
    """answers which hinting extension a Postgres server offers"""

    def __init__(self, backend, log):
        self.backend, self.log, self.answer = backend, log, None

    def execute(self, text, *args, **kwargs):
        self.log.append(str(text))
        self.answer = ("on",) if ("hint_plan" in str(text)) == (self.backend == "pg_hint_plan") else None

    def fetchone(self):
        return self.answer


class _HintPg:
    """what the hint service asks a Postgres server"""

    def __init__(self, backend, geqo):
        self.debug, self.config, self._backend, self.log = False, {"geqo_threshold": str(geqo)}, backend, []

    def cursor(self):
        return _HintCursor(self._backend, self.log)

    def __repr__(self):
        return f"<pg {self._backend} geqo_threshold={self.config['geqo_threshold']}>"


class _HintMysql:
    system_name = "mysql"

    def __init__(self, modes):
        self.modes = modes

    def server_mode(self):
        return self.modes


def hint_service(rng, kind):
    if kind in ("pg_lab", "pg_hint_plan"):
        from postbound.postgres import PostgresHintService
        return PostgresHintService(_HintPg(kind, rng.choice([12, 12, 4])))
    if kind == "duckdb":
        from postbound.duckdb import DuckDBHintService
        db = fake_db(rng)
        db.system_name = "duck"
        return DuckDBHintService(db)
    from postbound.mysql import MysqlHintService
    return MysqlHintService(_HintMysql(rng.choice(["ANSI_QUOTES", ""])))


def _subsets(rng, tabs, lo, n):
    out = []
    for _ in range(n):
        if len(tabs) >= lo:
            out.append(frozenset(rng.sample(tabs, rng.randint(lo, len(tabs)))))
    return out


_HINTED_JOINS = [JoinOperator.NestedLoopJoin, JoinOperator.HashJoin, JoinOperator.SortMergeJoin]


def hint_ops(rng, tabs, kind):
    scans = {"duckdb": [ScanOperator.SequentialScan, ScanOperator.IndexScan]}.get(kind, list(ScanOperator))
    joins = {"mysql": [JoinOperator.NestedLoopJoin, JoinOperator.HashJoin]}.get(kind, _HINTED_JOINS)
    sure = rng.random() < 0.85
    a = H.PhysicalOperatorAssignment()
    if not sure and kind == "duckdb":
        scans, joins = list(ScanOperator), list(JoinOperator)
    n = rng.choice([0, 1, 2, 9])
    w = lambda: rng.choice([math.nan, math.nan, 1, 0] + [2, 4, 8] * (rng.random() < 0.5))
    for t in rng.sample(tabs, min(n, len(tabs))):
        a.add(H.ScanOperatorAssignment(rng.choice(scans), t, w()))
    for s in _subsets(rng, tabs, 2, rng.choice([0, 1, 2, 3])):
        if rng.random() < 0.6:
            a.add(H.JoinOperatorAssignment(rng.choice(joins), s, parallel_workers=w()))
        else:
            ls = sorted(s, key=str)
            a.add(H.DirectionalJoinOperatorAssignment(rng.choice(joins), ls[:1], ls[1:], parallel_workers=w()))
    if kind != "duckdb" or not sure:
        for s in _subsets(rng, tabs, 1, rng.choice([0, 0, 1, 2])):
            a.add(rng.choice(list(IntermediateOperator)), s)
    glob = {"mysql": [JoinOperator.HashJoin], "duckdb": scans + joins}.get(kind, scans + joins + list(IntermediateOperator))
    for o in rng.sample(glob, rng.randint(0, min(2, len(glob)))):
        a.set_operator_enabled_globally(o, rng.random() < 0.5)
    return a


def hint_params(rng, tabs, kind):
    p = H.PlanParameterization()
    for s in _subsets(rng, tabs, 1, rng.randint(0, 4)):
        p.add_cardinality(s, cardinality(rng))
    if kind != "duckdb" or rng.random() < 0.1:
        for s in _subsets(rng, tabs, 1, rng.choice([0, 0, 1, 2])):
            p.set_workers(s, rng.choice([1, 2, 3, 8]))
    for _ in range(rng.choice([0, 0, 1, 2])):
        p.set_system_settings(**{rng.choice(["x", "y", "z"]): rng.choice(["on", "off", 1, 2.5, True, False])})
    if rng.random() < 0.3:
        p.execution_mode = rng.choice(["sequential", "parallel"])
    return p


def hints_for(rng, kind):
    """a hint service, a query, and optimizer decisions for it"""
    while True:
        q = rich_query(rng, rng.choice([0, 0, 1]), sets=False)
        if getattr(q, "from_clause", None) is not None and rng.random() < 0.9:
            break
    tabs = [TableReference(n) if rng.random() < 0.6 else TableReference("base", n) for n in rng.sample(["r", "s", "t", "u", "v", "T2"], rng.randint(1, 5))]
    plan = order = ops = par = None
    k = rng.random()
    if k < 0.35:
        plan = opt_plan(rng, 3, tabs)
        if rng.random() < 0.1:
            par = hint_params(rng, tabs, kind)
    else:
        if rng.random() < 0.6:
            order = jointree(rng, 3, rng.sample(tabs, rng.randint(1, len(tabs))))
            if kind == "mysql" and rng.random() < 0.8:
                order = None
                for t in tabs:
                    s = H.JoinTree.scan(t)
                    order = s if order is None else (H.JoinTree.join(order, s) if rng.random() < 0.6 else H.JoinTree.join(s, order))
        if rng.random() < 0.7:
            ops = hint_ops(rng, tabs, kind)
        if rng.random() < 0.6:
            par = hint_params(rng, tabs, kind)
    joins = _HINTED_JOINS[:2] if kind == "mysql" else _HINTED_JOINS
    if kind != "duckdb" and plan is not None and any(n.is_join() and n.operator not in joins for n in plan.iternodes()):
        return hints_for(rng, kind)
    return {"self": hint_service(rng, kind), "query": q, "plan": plan, "join_order": order, "physical_operators": ops, "plan_parameters": par}


def hint_parts(rng):
    from postbound.duckdb import HintParts
    some = lambda *xs: rng.sample(xs, rng.randint(0, len(xs)))
    return HintParts(some("SET x = 1;", "SET y = 2;", "SET z = 3;"), some("SeqScan(r)", "IdxScan(s)", "Card(r #1)"))


# -- C18: name spaces of the parser

def ns_table(rng):
    from postbound._core import TableReference
    name, alias, virtual = rng.choice(["r", "s", "t", ""]), rng.choice(["", "", "a", "b", "r"]), rng.random() < 0.3
    return TableReference(name or ("" if alias else "u"), alias, virtual=virtual)


def namespace(rng, depth=2):
    from postbound.parser import QueryNamespace
    ns = QueryNamespace.empty(ns_schema(rng) if rng.random() < 0.7 else None)
    for _ in range(rng.randint(0, depth)):
        ns = ns_fill(rng, ns).open_nested(source="temporary")
    return ns_fill(rng, ns)


def flat_namespace(rng):
    from postbound.parser import QueryNamespace
    return ns_fill(rng, QueryNamespace(parent=namespace(rng, 1)), ["table", "shape"])


def ns_fill(rng, ns, kinds=("table", "table", "cte", "subquery", "shape")):
    for _ in range(rng.randint(0, 4)):
        kind = rng.choice(kinds)
        if kind == "table":
            ns.register_table(ns_table(rng))
        elif kind == "shape":
            ns.determine_output_shape([rng.choice(["x", "y", "z"]) for _ in range(rng.randint(1, 3))])
        else:
            child = ns.open_nested(alias=rng.choice(["a", "c", "r", "s"]), source=kind)
            child.determine_output_shape([rng.choice(["x", "y", "z"]) for _ in range(rng.randint(1, 3))])
    return ns


class FakeSchema:
    """the schema of a database that does not exist"""
    def __init__(self, tables):
        self._tables = tables

    def columns(self, table):
        from postbound._core import ColumnReference
        name = table if isinstance(table, str) else table.full_name
        return [ColumnReference(c) for c in self._tables.get(name, [])]


def ns_schema(rng):
    return FakeSchema({t: [c for c in ["x", "y", "z"] if rng.random() < 0.5] for t in ["r", "s", "t", "u"] if rng.random() < 0.7})


def schema_cache(rng):
    from postbound.parser import SchemaCache
    cache = SchemaCache(ns_schema(rng) if rng.random() < 0.8 else None)
    for _ in range(rng.randint(0, 3)):
        cache.columns_of(rng.choice(["r", "s", "t"]))
    return cache


# ---- enumeration and sampling of join orders (C19) ---------------------------------------------------------------------

def spj(rng, lo=1, hi=4, connected=0.9):
    """a query over its tables with two-table join predicates (several per pair of tables, cycles, self joins) and filters"""
    from postbound import qal as q
    n = rng.randint(lo, hi)
    tabs = qtables(rng, n)
    preds = []
    link = rng.random() < connected
    for i in range(1, n):
        if link or rng.random() < 0.7:
            j = rng.choice([0, i - 1, rng.randrange(i)])
            preds.append(_join_of(rng, tabs[i], tabs[j]))
    for _ in range(rng.choice([0, 0, 1, 2]) if n > 1 else 0):
        preds.append(_join_of(rng, *rng.sample(tabs, 2)))
    if n > 1 and not link:  # the connection does not go through predicates that are no joins
        pass
    for t in tabs:
        if rng.random() < 0.4:
            preds.append(q.as_predicate(qcol(rng, t), rng.choice([q.LogicalOperator.Equal, q.LogicalOperator.Less]), rng.choice([1, 2, 42])))
    rng.shuffle(preds)
    clauses = [q.Select.star(), q.ImplicitFromClause.create_for(tabs)]
    if preds:
        clauses.append(q.Where(preds[0] if len(preds) == 1 else q.CompoundPredicate.create_and(preds)))
    return q.build_query(clauses)


def _join_of(rng, a, b):
    from postbound import qal as q
    one = lambda: q.as_predicate(qcol(rng, a), rng.choice([q.LogicalOperator.Equal] * 4 + [q.LogicalOperator.Less]), qcol(rng, b))
    return one() if rng.random() < 0.85 else q.CompoundPredicate.create_or([one(), one()])


def structure(rng):
    return rng.choice(["bushy", "bushy", "left-deep", "right-deep"])


def enum_db(rng, lo=1, hi=3):
    """a database that supports at least one scan and one join operator"""
    db = fake_db(rng)
    db._sup = frozenset(rng.sample(list(ScanOperator), rng.randint(lo, hi)) + rng.sample(list(JoinOperator), rng.randint(lo, hi)))
    return db


def operator_args(rng, lo=1, hi=3, both=False):
    """the arguments of an operator generator, such that there are some operators to choose from"""
    db = enum_db(rng, lo, hi)
    kw = {"database": db}
    for key, ops in (("scan_operators", ScanOperator), ("join_operators", JoinOperator)):
        own = [o for o in ops if o in db._sup]
        if rng.random() < 0.4:
            kw[key] = rng.sample(own, rng.randint(1, len(own))) + rng.sample(list(ops), rng.randint(0, 1))
        elif rng.random() < 0.3:
            kw[key] = rng.choice([None, [], set()])
    k = rng.random()
    if k < 0.4 and not both:
        kw["include_scans" if k < 0.2 else "include_joins"] = False
    return kw


def enum_orders(rng, size=3):
    import random
    from postbound.opt import enumeration as E
    random.seed(rng.random())
    s = structure(rng)
    return {"self": E.ExhaustiveJoinOrderEnumerator(s), "query": spj(rng, 1, 4 if s == "bushy" else 5)}


def order_of(rng, query):
    """some join tree over the tables of a query"""
    tabs = sorted(query.tables(), key=str)
    rng.shuffle(tabs)
    return jointree(rng, 3, tabs, rng.random() < 0.2)


def enum_ops(rng, size=3):
    from postbound.opt import enumeration as E
    q = spj(rng, 1, 3)
    return {"self": E.ExhaustiveOperatorEnumerator(**operator_args(rng, 1, 2)), "query": q, "join_order": order_of(rng, q)}


def enum_plans(rng, size=3):
    from postbound.opt import enumeration as E
    return {"self": E.ExhaustivePlanEnumerator(join_order_args=rng.choice([None, {"tree_structure": structure(rng)}]), operator_args=operator_args(rng, 1, 2, True)), "query": spj(rng, 1, 3, 0.97)}


def random_orders(rng, size=3):
    import random
    from postbound.opt import randomized as R
    random.seed(rng.random())
    q = spj(rng, 1, 5 if rng.random() < 0.5 else 3)
    s = structure(rng)
    args = {"self": R.RandomJoinOrderGenerator(rng.random() < 0.4, tree_structure=s), "query": q, "base_table": None}
    if rng.random() < 0.4:
        args["base_table"] = rng.choice(sorted(q.tables(), key=str))
    return args


def random_ops(rng, size=3):
    import random
    from postbound.opt import randomized as R
    random.seed(rng.random())
    q = spj(rng, 1, 4)
    return {"self": R.RandomOperatorGenerator(eliminate_duplicates=rng.random() < 0.4, **operator_args(rng)), "query": q, "join_order": order_of(rng, q)}


def random_plans(rng, size=3):
    import random
    from postbound.opt import randomized as R
    random.seed(rng.random())
    kw = operator_args(rng, both=True)
    outer = {"database": kw.pop("database")} if rng.random() < 0.5 else {}
    return {"self": R.RandomPlanGenerator(eliminate_duplicates=rng.random() < 0.4, join_order_args=rng.choice([None, {"tree_structure": structure(rng)}]), operator_args=kw, **outer), "query": spj(rng, 1, 4, 1)}


def random_order_optimizer(rng, size=3):
    import random
    from postbound.opt import randomized as R
    random.seed(rng.random())
    return {"self": R.RandomJoinOrderOptimizer(generator_args=rng.choice([None, {"tree_structure": structure(rng)}])), "query": spj(rng, 1, 5, 1)}


def random_op_optimizer(rng, size=3):
    import random
    from postbound.opt import randomized as R
    random.seed(rng.random())
    q = spj(rng, 1, 4)
    return {"self": R.RandomOperatorOptimizer(generator_args=operator_args(rng)), "query": q, "join_order": order_of(rng, q)}


def random_plan_optimizer(rng, size=3):
    import random
    from postbound.opt import randomized as R
    random.seed(rng.random())
    kw = operator_args(rng, both=True)
    outer = {"database": kw.pop("database")} if rng.random() < 0.5 else {}
    return {"self": R.RandomPlanOptimizer(join_order_args=rng.choice([None, {"tree_structure": structure(rng)}]), operator_args=kw, **outer), "query": spj(rng, 1, 4, 1)}


def small_graph(rng, size=3):
    import random
    import networkx as nx
    random.seed(rng.random())
    g = nx.Graph()
    nodes = list("abcde")[:rng.randint(1, 5)]
    g.add_nodes_from(nodes)
    for i, a in enumerate(nodes):
        for b in nodes[:i]:
            if rng.random() < 0.45:
                g.add_edge(a, b, w=rng.randint(0, 9))
    return g


# ---- the join graph (C20) ----------------------------------------------------------------------------------------------

class JgSchema:
    """primary keys are called id or pk, columns with another index fk or ix"""
    def is_primary_key(self, column):
        return column.name in ("id", "pk")

    def has_secondary_index(self, column):
        return column.name in ("fk", "ix")

    def __repr__(self):
        return "<schema: id, pk primary; fk, ix indexed>"


def jg_schema(rng):
    return JgSchema()


def jg_column(rng, table=None):
    from postbound._core import ColumnReference
    return ColumnReference(rng.choice(["id", "id", "pk", "fk", "fk", "ix", "a", "b"]), jg_table(rng) if table is None else table)


def jg_table(rng):
    return rng.choice(qtables(rng, 3))


def _jg_join(rng, a, b):
    from postbound import qal as q
    op = q.LogicalOperator.Equal if rng.random() < 0.85 else q.LogicalOperator.Less
    c, d = jg_column(rng, a), jg_column(rng, b)
    if rng.random() < 0.06:
        return q.CompoundPredicate.create_or([q.as_predicate(c, op, d), q.as_predicate(c, q.LogicalOperator.Greater, d)])
    return q.as_predicate(c, op, d) if rng.random() < 0.5 else q.as_predicate(d, op, c)


def jg_pred(rng):
    return _jg_join(rng, *qtables(rng, 2))


def jg_path(rng):
    from postbound.opt._joingraph import JoinPath
    a, b = qtables(rng, 2)
    return JoinPath(a, b, _jg_join(rng, a, b) if rng.random() < 0.8 else None)


def jg_info(rng):
    from postbound.opt._joingraph import IndexInfo
    return IndexInfo(jg_column(rng), rng.choice(["primary", "secondary", "none"]), rng.random() < 0.4)


def jg_query(rng, lo=1, hi=5, connected=0.8, dense=0):
    from postbound import qal as q
    n = rng.randint(lo, hi)
    tabs = qtables(rng, n)
    preds = []
    link = rng.random() < connected
    for i in range(1, n):
        if link or rng.random() < 0.6:
            preds.append(_jg_join(rng, tabs[i], tabs[rng.choice([0, i - 1, rng.randrange(i)])]))
    for _ in range(dense + rng.choice([0, 0, 1, 2, 3]) if n > 1 else 0):
        preds.append(_jg_join(rng, *rng.sample(tabs, 2)))
    for t in tabs:
        if rng.random() < 0.3:
            preds.append(q.as_predicate(jg_column(rng, t), rng.choice([q.LogicalOperator.Equal, q.LogicalOperator.Less]), rng.choice([1, 2, 42])))
    rng.shuffle(preds)
    clauses = [q.Select.star(), q.ImplicitFromClause.create_for(tabs)]
    if preds:
        clauses.append(q.Where(preds[0] if len(preds) == 1 else q.CompoundPredicate.create_and(preds)))
    return q.build_query(clauses)


def jg_graph(rng, lo=1, hi=5, marks=True, equi=0.1, connected=0.8, dense=0):
    """a join graph after some tables have been joined"""
    from postbound.opt._joingraph import JoinGraph
    query = jg_query(rng, lo, hi, connected, dense)
    graph = JoinGraph(query, JgSchema(), include_predicate_equivalence_classes=rng.random() < equi)
    if marks:
        tabs = list(query.tables())
        tabs.sort(key=str)
        rng.shuffle(tabs)
        joined = []
        for _ in range(rng.choice([0, 1, 2, 2, 3, 4])):
            near = [t for t in tabs if any(graph.joins_tables(t, j) for j in joined)] if rng.random() < 0.85 else tabs
            near = near or tabs
            if not near:
                break
            t = rng.choice(near)
            tabs.remove(t)
            graph.mark_joined(t)
            joined.append(t)
    return graph


def jg_member(rng, graph, outside=0.0):
    tabs = sorted(graph, key=str)
    if rng.random() < outside:
        return jg_table(rng)
    return rng.choice(tabs)


# ---- dynamic programming (C21) -----------------------------------------------------------------------------------------

def _score(*parts, seed=0, top=50):
    import zlib
    return 1 + zlib.crc32(repr((seed,) + tuple(str(p) for p in parts)).encode()) % top


def _ids(tabs):
    return tuple(sorted(t.identifier() for t in tabs))


class DpSchema:
    """each table has the columns id, a, b, c; some of them are indexed"""
    def __init__(self, seed):
        self.seed = seed

    def columns(self, table):
        from postbound._core import BoundColumnReference
        return [BoundColumnReference(c, table) for c in ["id", "a", "b", "c"]]

    def indexes_on(self, column):
        if column.table is None:
            raise ValueError(column)
        return {f"{column.table.full_name}_{column.name}_{i}" for i in range(_score("idx", column.table.full_name, column.name, seed=self.seed, top=4) - 2)}


def dp_db(rng):
    from postbound.db import Database
    db = enum_db(rng, 1, 3)
    schema = DpSchema(rng.randrange(50))
    type(db).schema = lambda self: self._dp_schema
    db._dp_schema = schema
    return db


def dp_query(rng, lo=1, hi=4, more=[0, 0, 1, 2]):
    from postbound import qal as q
    from postbound._core import ColumnReference
    tabs = qtables(rng, rng.randint(lo, hi))
    col = lambda t: ColumnReference(rng.choice(["id", "a", "b", "c"]), t)
    preds = []
    for i in range(1, len(tabs)):
        preds.append(q.as_predicate(col(tabs[i]), q.LogicalOperator.Equal, col(tabs[rng.choice([0, i - 1, rng.randrange(i)])])))
    for _ in range(rng.choice(more) if len(tabs) > 1 else 0):
        a, b = rng.sample(tabs, 2)
        preds.append(q.as_predicate(col(a), q.LogicalOperator.Equal, col(b)))
    for t in tabs:
        for _ in range(rng.choice([0, 0, 1, 2])):
            preds.append(q.as_predicate(col(t), rng.choice([q.LogicalOperator.Equal, q.LogicalOperator.Less]), rng.choice([1, 2, 42])))
    rng.shuffle(preds)
    k = rng.randrange(5)
    if k == 0:
        select = q.Select.star()
    elif k == 1:
        select = q.Select([q.BaseProjection(q.StarExpression(from_table=rng.choice(tabs)))])
    elif k == 2:
        select = q.Select.count_star()
    else:
        select = q.Select.create_for([col(rng.choice(tabs)) for _ in range(rng.randint(1, 2))])
    clauses = [select, q.ImplicitFromClause.create_for(tabs)]
    if preds:
        clauses.append(q.Where(preds[0] if len(preds) == 1 else q.CompoundPredicate.create_and(preds)))
    return q.build_query(clauses)


def dp_models(rng, top=50):
    """an additive cost model and arbitrary cardinalities; both remember when they were prepared and cleaned up"""
    from postbound._stages import CostModel, CardinalityEstimator
    from postbound._core import Cardinality
    seed = rng.randrange(1000)

    class Costs(CostModel):
        def __init__(self):
            self.seed, self.top, self.log, self.ready = seed, top, [], False

        def __repr__(self):
            return f"<costs {self.seed}>"

        def initialize(self, target_db, query):
            self.log.append(("initialize", target_db, query))
            self.ready = True

        def cleanup(self):
            self.log.append(("cleanup",))
            self.ready = False

        def node(self, plan):
            if plan.is_scan():
                return _score("scan", plan.operator.name, plan.base_table.identifier(), plan.params.index or "", seed=self.seed, top=self.top)
            if len(plan.children) == 1:
                columns = [c for k in plan.sort_keys for e in k.equivalence_class for c in e.columns()] if plan.operator.name == "Sort" else [c for e in [plan.get("lookup_key")] if e for c in e.columns()]
                return _score("other", plan.operator.name, _ids(plan.tables()), *columns, seed=self.seed, top=self.top)
            inner = plan.inner_child.operator.name
            cached = [inner] if inner in ("Memoize", "Materialize") else []  # may be cheaper
            return _score("join", plan.operator.name, _ids(plan.outer_child.tables()), _ids(plan.inner_child.tables()), *cached, seed=self.seed, top=self.top)

        def estimate_cost(self, query, plan):
            if not self.ready or plan.estimated_cardinality != Estimates.card(plan.tables()):
                raise RuntimeError("the cost model is not prepared")
            return self.node(plan) + sum(c.estimated_cost for c in plan.children)

        def describe(self):
            return {}

    class Estimates(CardinalityEstimator):
        def __init__(self):
            self.seed, self.log, self.ready = seed, [], False

        def __repr__(self):
            return f"<estimates {self.seed}>"

        def initialize(self, target_db, query):
            self.log.append(("initialize", target_db, query))
            self.ready = True

        def cleanup(self):
            self.log.append(("cleanup",))
            self.ready = False

        @staticmethod
        def card(tabs):
            return Cardinality(_score("card", _ids(tabs), seed=seed, top=10000))

        def calculate_estimate(self, query, intermediate):
            if not self.ready:
                raise RuntimeError("the estimator is not prepared")
            return self.card([intermediate] if not isinstance(intermediate, (set, frozenset, list, tuple)) else intermediate)

        def describe(self):
            return {}

    return Costs(), Estimates()


def dp_case(rng):
    from postbound.opt.dynprog import DynamicProgrammingEnumerator
    db = dp_db(rng)
    scans = list(ScanOperator)
    joins = [JoinOperator.NestedLoopJoin, JoinOperator.HashJoin, JoinOperator.SortMergeJoin]
    db._sup = db._sup | {ScanOperator.SequentialScan, rng.choice(joins)}
    pick = lambda ops: None if rng.random() < 0.4 else set(rng.sample(ops, rng.randint(1, len(ops))))
    scan_ops, join_ops = pick(scans), pick(joins)
    if scan_ops is not None:
        scan_ops.add(ScanOperator.SequentialScan)
    if join_ops is not None and not join_ops & db._sup:
        join_ops |= {o for o in joins if o in db._sup}
    costs, cards = dp_models(rng)
    costs.db = db
    type(db).describe = lambda self: {}
    return {"self": DynamicProgrammingEnumerator(supported_scan_ops=scan_ops, supported_join_ops=join_ops, target_db=db), "query": dp_query(rng), "cost_model": costs, "cardinality_estimator": cards}


def sort_column(rng):
    return ColumnReference(rng.choice(["id", "a", "b"]), TableReference(rng.choice(NAMES[:2])))


def sort_expr(rng):
    from postbound import qal as q
    return q.ColumnExpression(sort_column(rng))


def sort_key(rng):
    from postbound._qep import SortKey
    return SortKey([sort_expr(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))], ascending=rng.random() < 0.7)


def dp_path(rng):
    from postbound._qep import QueryPlan
    t = TableReference("r", f"r{rng.randrange(10 ** 6)}")  # plans are equal if their tables and operators are
    keys = rng.choice([[], [], [sort_key(rng)], [sort_key(rng), sort_key(rng)]])
    return QueryPlan(rng.choice(list(ScanOperator)), base_table=t, sort_keys=keys, estimated_cost=rng.choice([10, 10.05, 100, 100.5, 101, 101.5, 110, 200, float("inf")]))


def dp_rel(rng):
    from postbound.opt.dynprog import RelOptInfo
    paths = lambda: [dp_path(rng) for _ in range(rng.choice([0, 0, 1, 2, 3, 4]))]
    return RelOptInfo(frozenset([TableReference("r")]), paths(), paths(), None, None, Cardinality(10))


def dp_fake_db(rng):
    db = fake_db(rng)
    type(db).describe = lambda self: {}
    return db


def dp_fake_pg(rng):
    from postbound.postgres import PostgresInterface
    svc = fake_db(rng).hinting()

    class FakePostgres(PostgresInterface):
        def __init__(self):
            self.config = {}

        def __del__(self):
            pass

        def hinting(self):
            return svc

        def describe(self):
            return {}

        def __repr__(self):
            return f"<postgres {sorted(o.name for o in list(ScanOperator) + list(JoinOperator) if svc.supports_hint(o))}>"
    return FakePostgres()


def dp_pg_case(rng):
    from postbound.opt.dynprog import PostgresDynProg
    db = dp_fake_pg(rng)
    schema, seed = DpSchema(rng.randrange(50)), rng.randrange(50)
    stats = type("FakeStats", (), {"n_pages": lambda self, rel: _score("pages", rel, seed=seed, top=500)})()
    type(db).schema = lambda self: schema
    type(db).statistics = lambda self: stats
    type(db).__eq__ = lambda a, b: a is b
    type(db).__hash__ = object.__hash__
    svc = db.hinting()
    joins = [JoinOperator.NestedLoopJoin, JoinOperator.HashJoin, JoinOperator.SortMergeJoin]
    need = {ScanOperator.SequentialScan, rng.choice(joins)}
    svc.supported = svc.supported | need
    pick = lambda ops, always: None if rng.random() < 0.4 else set(rng.sample(ops, rng.randint(1, len(ops)))) | always
    scan_ops, join_ops = pick(list(ScanOperator), {ScanOperator.SequentialScan}), pick(joins, need & set(joins))
    sort = rng.random() < 0.8 or not {j for j in (join_ops if join_ops is not None else joins) if svc.supports_hint(j)} - {JoinOperator.SortMergeJoin}
    workers = rng.choice([None, None, None, 0, 2, 4])
    if rng.random() < 0.25:
        join_ops, need = {JoinOperator.NestedLoopJoin}, need | {JoinOperator.NestedLoopJoin}
        svc.supported = svc.supported | need
    costs, cards = dp_models(rng, 7)
    costs.db = db
    flags = {"enable_materialize": rng.random() < 0.5, "enable_memoize": rng.random() < 0.5, "enable_sort": sort}
    self = PostgresDynProg(supported_scan_ops=scan_ops, supported_join_ops=join_ops, target_db=db, max_parallel_workers=workers, **flags)
    costs.flags, costs.workers = flags, workers
    return {"self": self, "query": dp_query(rng, 1, rng.choice([2, 3, 3, 4]), more=[0, 1, 2, 3]), "cost_model": costs, "cardinality_estimator": cards}
