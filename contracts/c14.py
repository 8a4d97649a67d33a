"""C14: cardinality estimators provide exactly the estimates of the intermediates they are asked for."""
import math
from pydv.api import *
from contracts.model import CORE, HINTS, QEP, Table, Tables, SetOfTables
from contracts.model import _card

ST = "postbound._stages"
OC = "postbound.opt._cardinalities"
ON = "postbound.opt.native"
QAL = "postbound.qal._qal"
DBM = "postbound.db._db"
TRF = "postbound.transform"
COL = "postbound.util.collections"
use(CORE, "Cardinality", "TableReference")
use(HINTS, "PlanParameterization", "jointree_from_plan", "operators_from_plan", "parameters_from_plan")
use(COL, "powerset")
use(TRF, "extract_query_fragment", "as_count_star_query", "as_star_query")
use(OC, "PreciseCardinalities", "CardinalityDistortion", "PreComputedCardinalities")
P = ("C14",)


def _gen(kind):
    def g(rng, size):
        from contracts import gens
        return getattr(gens, kind)(rng)
    return g


def _gen(kind):
    def g(rng, size):
        from contracts import gens
        return getattr(gens, kind)(rng)
    return g


CardV = Ref("CardE", [f"{CORE}:Cardinality"], fields={"_nan": Bool, "_inf": Bool, "_valid": Bool, "_value": Int}, eq="struct", gen=_card)
JoinNode = Ref("EstTree", [f"{HINTS}:JoinTree"], eq="term", opaque=True, truthy=True, gen=_gen("some_jointree"), attrs={"tables()": Tables})
JoinNode.attrs["iternodes()"] = Seq(JoinNode)
Preds = Ref("EstPreds", [f"{QAL}:QueryPredicates"], eq="term", opaque=True)
Query = Ref("EstQuery", [f"{QAL}:SqlQuery"], eq="term", opaque=True, truthy=True, gen=_gen("small_query"),
            attrs={"tables()": Tables, "predicates()": Preds})
Plan = Ref("EstPlan", ["postbound._qep:QueryPlan"], eq="term", opaque=True, truthy=True)
Ops = Ref("EstOps", [f"{HINTS}:PhysicalOperatorAssignment"], eq="term", opaque=True, truthy=True, gen=_gen("some_operators"))
Optimizer = Ref("EstOptimizer", [f"{DBM}:OptimizerInterface"], eq="term", opaque=True)
Hinting = Ref("EstHinting", [f"{DBM}:HintService"], eq="term", opaque=True)
Db = Ref("EstDb", [f"{DBM}:Database"], eq="term", opaque=True, truthy=True, gen=_gen("counting_db"), attrs={"optimizer()": Optimizer, "hinting()": Hinting})
Estimator = Ref("Estimator", [f"{ST}:CardinalityEstimator"], eq="term", opaque=True, truthy=True, gen=_gen("estimator"), attrs={"allow_cross_products": Bool})


def _pp(rng, size):
    from contracts import gens
    return gens.params(rng, size)


Params = Obj("EstParams", f"{HINTS}:PlanParameterization", {
    "cardinalities": Map(Tables, CardV),
    "parallel_workers": Map(Tables, Flt),
    "system_settings": Map(Str, Any),
    "execution_mode": Opt(Str)}, gen=_pp)


@invariant(CardV)
def canonical(c):
    return c._valid == (not c._nan and not c._inf) and not (c._nan and c._inf) and (c._valid or c._value == -1)


# ---------------------------------------------------------------- the environment

class Estimate(Contract):
    target = f"{ST}:CardinalityEstimator.calculate_estimate"
    props = P
    params = {"self": Estimator, "query": Query, "intermediate": Tables}
    returns = CardV
    trusted = True
    note = "an arbitrary estimator: a function of the query and the intermediate"


class Joined(Contract):
    target = f"{QAL}:QueryPredicates.joins_tables"
    props = P
    params = {"self": Preds, "tables": Seq(Table, "tuple")}
    returns = Bool
    trusted = True
    note = "whether tables are joined is the subject of C11"


class Subsets(Contract):
    target = f"{COL}:powerset"
    props = P
    params = {"lst": Tables}
    returns = Seq(Seq(Table, "tuple"))
    trusted = True
    note = "itertools.combinations; see PowersetOf"

    def ensures(lst, result):
        return forall(result, lambda s: frozenset(s) <= lst)


class PowersetOf(Contract):
    """each subset exactly once"""
    target = f"{COL}:powerset"
    props = P
    params = {"lst": Tables}
    bounded = True
    use_at_calls = False

    def ensures(lst, result):
        sets = [frozenset(s) for s in result]
        return len(sets) == 2 ** len(lst) and len(set(sets)) == len(sets) and all(s <= lst for s in sets)

    def ensures_no_duplicates(lst, result):
        return all(len(set(s)) == len(s) for s in result)


# ---------------------------------------------------------------- intermediates

def wanted(e, q, s):
    return len(s) > 0 and (len(s) == 1 or e.allow_cross_products or q.predicates().joins_tables(s))


class ListIntermediates(Contract):
    target = f"{ST}:CardinalityEstimator.generate_intermediates"
    props = P
    params = {"self": Estimator, "query": Query}
    returns = Seq(Tables)
    trusted = True
    note = "a function of the estimator and the query; what it provides is proved separately (Intermediates)"


class Intermediates(Contract):
    target = f"{ST}:CardinalityEstimator.generate_intermediates"
    props = P
    params = {"self": Estimator, "query": Query}
    returns = Seq(Tables)
    use_at_calls = False

    def ensures_within(self, query, result):
        return forall(result, lambda i: i <= query.tables())

    def ensures_wanted(self, query, result):
        return forall(powerset(query.tables()), lambda s: implies(wanted(self, query, s), exists(result, lambda i: same(i, frozenset(s)))))

    def ensures_none_else(self, query, result):
        return forall(result, lambda i: exists(powerset(query.tables()), lambda s: same(i, frozenset(s)) and wanted(self, query, s)))


class IntermediatesOnce(Contract):
    """each of them once"""
    target = f"{ST}:CardinalityEstimator.generate_intermediates"
    props = P
    params = {"self": Estimator, "query": Query}
    bounded = True
    use_at_calls = False

    def ensures(self, query, result):
        found = list(result)
        expected = {frozenset(s) for s in powerset(query.tables()) if wanted(self, query, s)}
        return len(found) == len(set(found)) and set(found) == expected


# ---------------------------------------------------------------- estimates

class Estimates(Contract):
    target = f"{ST}:CardinalityEstimator.estimate_cardinalities"
    props = P
    params = {"self": Estimator, "query": Query}
    returns = Params
    invariants = {0: ("so_far", {"parameterization": Params, "estimate": CardV})}

    def so_far(self, query, parameterization, k):
        inter = self.generate_intermediates(query)
        return others_empty(parameterization) \
            and forall_index(k, lambda i: estimated(self, query, inter[i], parameterization)) \
            and forall(parameterization.cardinalities, lambda t, c: exists_index(k, lambda i: same(inter[i], t)))

    def ensures_estimated(self, query, result):
        return forall(self.generate_intermediates(query), lambda t: estimated(self, query, t, result))

    def ensures_nothing_else(self, query, result):
        return others_empty(result) and forall(result.cardinalities, lambda t, c: exists(self.generate_intermediates(query), lambda u: same(u, t)))


def others_empty(p):
    return len(p.parallel_workers) == 0 and len(p.system_settings) == 0 and p.execution_mode is None


def estimated(e, q, t, p):
    c = e.calculate_estimate(q, t)
    return (t not in p.cardinalities) if c.isnan() else (t in p.cardinalities and same(p.cardinalities[t], c))


class ParametersOfQuery(Contract):
    """without a join order, the estimates of all intermediates"""
    target = f"{ST}:CardinalityEstimator.generate_plan_parameters"
    props = P
    params = {"self": Estimator, "query": Query, "join_order": NoneT, "operator_assignment": NoneT}
    returns = Params

    def ensures_estimated(self, query, result):
        return forall(self.generate_intermediates(query), lambda t: estimated(self, query, t, result))

    def ensures_nothing_else(self, query, result):
        return others_empty(result) and forall(result.cardinalities, lambda t, c: exists(self.generate_intermediates(query), lambda u: same(u, t)))


class ParametersOfJoinOrder(Contract):
    """otherwise those of the intermediates of the join order"""
    target = f"{ST}:CardinalityEstimator.generate_plan_parameters"
    props = P
    params = {"self": Estimator, "query": Query, "join_order": JoinNode, "operator_assignment": NoneT}
    returns = Params
    invariants = {0: ("so_far", {"parameterization": Params, "estimate": CardV})}

    def so_far(self, query, join_order, parameterization, k):
        nodes = join_order.iternodes()
        return others_empty(parameterization) \
            and forall_index(k, lambda i: estimated(self, query, frozenset(nodes[i].tables()), parameterization)) \
            and forall(parameterization.cardinalities, lambda t, c: exists_index(k, lambda i: same(nodes[i].tables(), t)))

    def ensures_estimated(self, query, join_order, result):
        return forall(join_order.iternodes(), lambda n: estimated(self, query, frozenset(n.tables()), result))

    def ensures_nothing_else(self, query, join_order, result):
        return others_empty(result) and forall(result.cardinalities, lambda t, c: exists(join_order.iternodes(), lambda n: same(n.tables(), t)))


# ---------------------------------------------------------------- life cycle

Lifecycle = Obj("EstimatorState", f"{ST}:CardinalityEstimator", {"allow_cross_products": Bool, "target_db": Opt(Db), "query": Opt(Query)}, gen=_gen("estimator"))


class Begin(Contract):
    target = f"{ST}:CardinalityEstimator.initialize"
    props = P
    params = {"self": Lifecycle, "target_db": Db, "query": Query}
    modifies = ["self.target_db", "self.query"]
    use_at_calls = False

    def ensures(self, target_db, query):
        return same(self.target_db, target_db) and same(self.query, query)


class End(Contract):
    target = f"{ST}:CardinalityEstimator.cleanup"
    props = P
    params = {"self": Lifecycle}
    modifies = ["self.target_db", "self.query"]
    use_at_calls = False

    def ensures(self):
        return self.target_db is None and self.query is None


# ---------------------------------------------------------------- precise cardinalities

class Fragment(Contract):
    target = f"{TRF}:extract_query_fragment"
    props = P
    params = {"source_query": Query, "referenced_tables": Tables, "projection": MISSING}
    returns = Query
    trusted = True
    note = "fragments of a query: the tables are those of the query"


class CountStar(Contract):
    target = f"{TRF}:as_count_star_query"
    props = P
    params = {"source_query": Query}
    returns = Query
    trusted = True
    note = "subject of C12"


class Star(Contract):
    target = f"{TRF}:as_star_query"
    props = P
    params = {"source_query": Query}
    returns = Query
    trusted = True
    note = "subject of C12"


class Execute(Contract):
    target = f"{DBM}:Database.execute_query"
    props = P
    params = {"self": Db, "query": Query, "cache_enabled": MISSING, "raw": MISSING}
    returns = Int
    trusted = True
    note = "the database answers COUNT(*) queries with a number"


Precise = Obj("Precise", f"{OC}:PreciseCardinalities", {
    "allow_cross_products": Bool, "database": Db, "cache_enabled": Bool, "_cardinality_cache": Map(Query, CardV), "target_db": Opt(Db), "query": Opt(Query)},
    gen=_gen("precise_estimator"))


def counted(e, q, tables):
    return e.database.execute_query(as_count_star_query(extract_query_fragment(q, tables)))


class PreciseUncached(Contract):
    """without cache, the database is asked each time"""
    target = f"{OC}:PreciseCardinalities.calculate_estimate"
    props = P
    params = {"self": Precise, "query": Query, "intermediate": Tables}
    returns = CardV
    gen = _gen("precise_case")
    use_at_calls = False

    def requires(self):
        return not self.cache_enabled

    def ensures(self, query, intermediate, result):
        return result.is_valid() and result.value == counted(self, query, intermediate)


class PreciseCached(Contract):
    """with cache, the result of the first time"""
    target = f"{OC}:PreciseCardinalities.calculate_estimate"
    props = P
    params = {"self": Precise, "query": Query, "intermediate": Tables}
    returns = CardV
    gen = _gen("precise_case")
    modifies = ["self._cardinality_cache"]
    use_at_calls = False

    def requires(self):
        return self.cache_enabled

    def ensures(self, old_self, query, intermediate, result):
        q = as_count_star_query(extract_query_fragment(query, intermediate))
        return same(result, old_self._cardinality_cache[q]) if q in old_self._cardinality_cache else \
            result.is_valid() and result.value == counted(self, query, intermediate)

    def ensures_remembered(self, old_self, query, intermediate, result):
        q = as_count_star_query(extract_query_fragment(query, intermediate))
        return same(self._cardinality_cache, mapput(old_self._cardinality_cache, q, result))


class ResetCache(Contract):
    target = f"{OC}:PreciseCardinalities.reset_cache"
    props = P
    params = {"self": Precise}
    modifies = ["self._cardinality_cache"]
    use_at_calls = False

    def ensures(self):
        return len(self._cardinality_cache) == 0


# ---------------------------------------------------------------- distorted cardinalities

Distortion = Obj("Distortion", f"{OC}:CardinalityDistortion", {
    "allow_cross_products": Bool, "estimator": Estimator, "distortion_factor": Flt, "distortion_strategy": Str, "target_db": Opt(Db), "query": Opt(Query)},
    gen=_gen("distorted_estimator"))


class NewDistortion(Contract):
    target = f"{OC}:CardinalityDistortion.__init__"
    props = P
    params = {"self": Obj("NewDistortion", f"{OC}:CardinalityDistortion", {}), "estimator": Estimator, "distortion_factor": Flt, "distortion_strategy": Str}
    modifies = ["self"]
    use_at_calls = False

    def ensures(self, estimator, distortion_factor, distortion_strategy):
        return same(self.estimator, estimator) and same(self.distortion_factor, distortion_factor) and same(self.distortion_strategy, distortion_strategy) \
            and same(self.allow_cross_products, estimator.allow_cross_products) and self.target_db is None and self.query is None


class FixedDistortion(Contract):
    target = f"{OC}:CardinalityDistortion.calculate_estimate"
    props = P
    params = {"self": Distortion, "query": Query, "tables": Tables}
    returns = CardV
    gen = _gen("distortion_case")
    raises = {"ValueError": "unknown_strategy"}
    use_at_calls = False

    def requires(self):
        return self.distortion_strategy != "random" and not is_nan(self.distortion_factor) and not math.isinf(self.distortion_factor)

    def unknown_strategy(self, query, tables):
        return self.distortion_strategy != "fixed" and self.estimator.calculate_estimate(query, tables).is_valid()

    def ensures(self, query, tables, result):
        c = self.estimator.calculate_estimate(query, tables)
        return (result.is_valid() and result.value == round(c.value * self.distortion_factor)) if c.is_valid() else result.isnan()


class RandomDistortion(Contract):
    """between the original and the completely distorted cardinality"""
    target = f"{OC}:CardinalityDistortion.calculate_estimate"
    props = P
    params = {"self": Distortion, "query": Query, "tables": Tables}
    returns = CardV
    gen = _gen("distortion_case")
    bounded = True
    use_at_calls = False

    def requires(self):
        return self.distortion_strategy == "random"

    def ensures(self, query, tables, result):
        c = self.estimator.calculate_estimate(query, tables)
        if not c.is_valid():
            return result.isnan()
        d = c.value * self.distortion_factor
        return result.is_valid() and round(min(c.value, d)) <= result.value <= round(max(c.value, d))


class BeginDistortion(Contract):
    """the distorted estimator is initialized, too"""
    target = f"{OC}:CardinalityDistortion.initialize"
    props = P
    params = {"self": Distortion, "target_db": Db, "query": Query}
    modifies = ["self"]
    bounded = True
    use_at_calls = False

    def ensures(self, target_db, query):
        return all(e.target_db is target_db and e.query is query for e in [self, self.estimator])


class EndDistortion(Contract):
    target = f"{OC}:CardinalityDistortion.cleanup"
    props = P
    params = {"self": Distortion}
    modifies = ["self"]
    bounded = True
    use_at_calls = False

    def ensures(self):
        return all(e.target_db is None and e.query is None for e in [self, self.estimator])


# ---------------------------------------------------------------- native estimates and decisions

class NativeEstimate(Contract):
    target = f"{DBM}:OptimizerInterface.cardinality_estimate"
    props = P
    params = {"self": Optimizer, "query": Query}
    returns = CardV
    trusted = True
    note = "the database's own estimate"


class NativePlan(Contract):
    target = f"{DBM}:OptimizerInterface.query_plan"
    props = P
    params = {"self": Optimizer, "query": Query}
    returns = Plan
    trusted = True
    note = "the database's own plan"


class Hinted(Contract):
    target = f"{DBM}:HintService.generate_hints"
    props = P
    params = {"self": Hinting, "query": Query, "plan": MISSING, "join_order": Opt(JoinNode), "physical_operators": Opt(Ops), "plan_parameters": MISSING}
    returns = Query
    trusted = True
    note = "hints are generated by the database's hinting service"


class HintedOrder(Contract):
    target = f"{DBM}:HintService.generate_hints"
    props = P
    params = {"self": Hinting, "query": Query, "plan": MISSING, "join_order": JoinNode, "physical_operators": MISSING, "plan_parameters": MISSING}
    returns = Query
    trusted = True
    note = "hints are generated by the database's hinting service"


class OrderOf(Contract):
    target = f"{HINTS}:jointree_from_plan"
    props = P
    params = {"plan": Plan, "card_source": MISSING}
    returns = JoinNode
    trusted = True
    note = "subject of C08"


class OperatorsOf(Contract):
    target = f"{HINTS}:operators_from_plan"
    props = P
    params = {"query_plan": Plan, "include_workers": MISSING}
    returns = Ops
    trusted = True
    note = "subject of C08"


OParams = Ref("EstPlanParams", [f"{HINTS}:PlanParameterization"], eq="term", opaque=True, attrs={
    "cardinalities": Map(Tables, CardV), "parallel_workers": Map(Tables, Flt), "system_settings": Map(Str, Any), "execution_mode": Opt(Str)})


class ParametersOf(Contract):
    target = f"{HINTS}:parameters_from_plan"
    props = P
    params = {"query_plan": Plan, "target_cardinality": MISSING, "fallback_estimated": MISSING}
    returns = OParams
    trusted = True
    note = "subject of C08"


NativeCard = Obj("NativeCard", f"{ON}:NativeCardinalityEstimator", {"allow_cross_products": Bool, "_target_db": Opt(Db), "target_db": Opt(Db), "query": Opt(Query)},
                 gen=_gen("native_estimator"))


class NativeCardinality(Contract):
    """the estimate of the database for the part of the query that produces the intermediate"""
    target = f"{ON}:NativeCardinalityEstimator.calculate_estimate"
    props = P
    params = {"self": NativeCard, "query": Query, "intermediate": Tables}
    returns = CardV
    gen = _gen("native_case")
    use_at_calls = False

    def requires(self):
        return self._target_db is not None

    def ensures(self, query, intermediate, result):
        return same(result, self._target_db.optimizer().cardinality_estimate(as_star_query(extract_query_fragment(query, intermediate))))


def native(cls, kind):
    return Obj(cls, f"{ON}:{cls}", {"db_instance": Db}, gen=_gen(kind))


class NativeOrder(Contract):
    target = f"{ON}:NativeJoinOrderOptimizer.optimize_join_order"
    props = P
    params = {"self": native("NativeJoinOrderOptimizer", "native_order"), "query": Query}
    returns = JoinNode

    def ensures(self, query, result):
        return same(result, jointree_from_plan(self.db_instance.optimizer().query_plan(query)))


class NativeOperators(Contract):
    target = f"{ON}:NativePhysicalOperatorSelection.select_physical_operators"
    props = P
    params = {"self": native("NativePhysicalOperatorSelection", "native_operators"), "query": Query, "join_order": Opt(JoinNode)}
    returns = Ops

    def ensures(self, query, join_order, result):
        q = query if join_order is None else self.db_instance.hinting().generate_hints(query, join_order=join_order)
        return same(result, operators_from_plan(self.db_instance.optimizer().query_plan(q)))


class NativeParameters(Contract):
    target = f"{ON}:NativePlanParameterization.generate_plan_parameters"
    props = P
    params = {"self": native("NativePlanParameterization", "native_parameters"), "query": Query, "join_order": Opt(JoinNode), "operator_assignment": Opt(Ops)}
    returns = OParams

    def ensures(self, query, join_order, operator_assignment, result):
        q = query if join_order is None and operator_assignment is None else \
            self.db_instance.hinting().generate_hints(query, join_order=join_order, physical_operators=operator_assignment)
        p = parameters_from_plan(self.db_instance.optimizer().query_plan(q))
        return same(result.cardinalities, p.cardinalities) and same(result.parallel_workers, p.parallel_workers) \
            and same(result.system_settings, p.system_settings) and same(result.execution_mode, p.execution_mode)


class NativeOptimize(Contract):
    target = f"{ON}:NativeOptimizer.optimize_query"
    props = P
    params = {"self": native("NativeOptimizer", "native_optimizer"), "query": Query}
    returns = Plan

    def ensures(self, query, result):
        return same(result, self.db_instance.optimizer().query_plan(query))


# ---------------------------------------------------------------- stored cardinalities

def _case(rng, size):
    from contracts import gens
    return gens.precomputed_case(rng)


class Precomputed(Lemma):
    """stored cardinalities are looked up, missing ones follow the fallback rules, and saved ones can be loaded again"""
    props = P
    params = {"case": Any}
    gens = {"case": _case}
    bounded = True
    note = "pandas data frames and files"

    def lemma(case):
        import json
        import os
        import tempfile
        import pandas as pd
        from postbound import util, workloads
        queries, labels, stored, db = case["queries"], case["labels"], dict(case["stored"]), case["db"]
        lcol, tcol, ccol = case["names"]
        w = workloads.Workload(dict(zip(labels, queries)), name="w")
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, "cards.csv")
            rows = [(label, util.to_json(s), c) for (label, s), c in stored.items()]
            if case["twice"]:
                rows.append(rows[0])
            df = {lcol: [r[0] for r in rows], tcol: [r[1] for r in rows], ccol: [r[2] for r in rows]}
            if case["extra"]:
                df["query"] = ["" for _ in rows]
            pd.DataFrame(df).to_csv(path, index=False)
            before = open(path).read()

            def load(**kw):
                return PreComputedCardinalities(w, path, label_col=lcol, tables_col=tcol, cardinality_col=ccol, **kw)

            e = load(default_cardinality=case["default"], live_fallback=case["live"], live_db=db, live_fallback_style=case["style"],
                     error_on_missing_card=case["error"], save_live_fallback_results=case["save"])
            known = {k: Cardinality(v) for k, v in stored.items()}
            dup = rows[0][:2] if case["twice"] else None
            saved = False
            for i, s in case["requests"]:
                q, key = queries[i], (labels[i], s)
                if dup == (labels[i], util.to_json(s)):
                    expected = None
                elif key in known:
                    expected = known[key]
                elif case["default"] is not None:
                    expected = case["default"]
                elif case["live"]:
                    fragment = extract_query_fragment(q, s)
                    expected = Cardinality(db.execute_query(as_count_star_query(fragment))) if case["style"] == "actual" else db.optimizer().cardinality_estimate(fragment)
                    if case["save"]:
                        known[key] = expected
                        saved = True
                else:
                    expected = None if case["error"] else Cardinality.unknown()
                try:
                    r = e.calculate_estimate(q, s)
                except ValueError:
                    if expected is not None:
                        return False
                    continue
                if expected is None or not same_card(r, expected):
                    return False
            if not saved:
                return open(path).read() == before
            again = load(error_on_missing_card=True)
            return case["twice"] or all(same_card(again.calculate_estimate(queries[labels.index(label)], s), c) for (label, s), c in known.items())


def same_card(a, b):
    return (a.isnan() and b.isnan()) or (a.isinf() and b.isinf()) or (a.is_valid() and b.is_valid() and a.value == b.value)
