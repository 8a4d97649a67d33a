"""C07: transforming a query plan changes exactly the described part, and keeps the rest of the plan (and its source)."""
from pydv.api import *
from contracts.model import *
from contracts.c06 import Plan, PParams, PEst, PMeas, PSub, is_scan, is_join

use(QEP, "QueryPlan", "Subplan", "PlanEstimates", "PlanMeasures")
use(CORE, "Cardinality")
QP = f"{QEP}:QueryPlan"
P = ("C07",)

def _kind(rng, size):
    return rng.choice(["estimated", "actual", "both"])


def _regular(rng, size):
    from contracts import gens
    return gens.plan(rng, size, shapes="core")


Extra = Map(Str, Any)
Card.attrs["isnan()"] = Bool
PEst.attrs["additional_estimates"] = Extra
PMeas.attrs["additional_measures"] = Extra
PMeas.attrs["cache_hits"] = Opt(Int)
PMeas.attrs["cache_misses"] = Opt(Int)


class MakeEstimates(Contract):
    target = f"{QEP}:PlanEstimates.__init__"
    props = P
    constructs = True
    trusted = True
    note = "estimates are opaque here: the constructor stores what it is given"
    params = {"cardinality": Card, "cost": Flt, "kwargs": Extra}
    returns = PEst

    def ensures(cardinality, cost, kwargs, result):
        return same(result.cardinality, cardinality) and same(result.cost, cost) and same(result.additional_estimates, kwargs)


class MakeMeasures(Contract):
    target = f"{QEP}:PlanMeasures.__init__"
    props = P
    constructs = True
    trusted = True
    note = "measures are opaque here: the constructor stores what it is given"
    params = {"cardinality": Card, "execution_time": Flt, "cache_hits": Opt(Int), "cache_misses": Opt(Int), "kwargs": Extra}
    returns = PMeas

    def ensures(cardinality, execution_time, cache_hits, cache_misses, kwargs, result):
        return same(result.cardinality, cardinality) and same(result.execution_time, execution_time) and same(result.cache_hits, cache_hits) \
            and same(result.cache_misses, cache_misses) and same(result.additional_measures, kwargs)


class Scaled(Contract):
    target = f"{CORE}:Cardinality.__rmul__"
    props = P
    trusted = True
    note = "arithmetic of cardinalities is the subject of C03"
    params = {"self": Card, "other": Flt}
    returns = Card


def same_node(a, b):
    return a._node_type == b._node_type and a._operator is b._operator and a._plan_params is b._plan_params


class WithEstimates(Contract):
    target = f"{QP}.with_estimates"
    props = P
    params = {"self": Plan, "cardinality": Opt(Card), "cost": Opt(Flt), "keep_measures": Bool}
    returns = Plan

    def ensures_node(self, result):
        return same_node(self, result) and same(self._subplan, result._subplan) and seq_eq(result._children, self._children)

    def ensures_estimates(self, cardinality, cost, result):
        return same(result._estimates.cardinality, self._estimates.cardinality if cardinality is None else cardinality) \
            and same(result._estimates.cost, self._estimates.cost if cost is None else cost)

    def ensures_additional(self, result):
        return same(result._estimates.additional_estimates, self._estimates.additional_estimates)

    def ensures_measures(self, keep_measures, result):
        return not keep_measures or result._measures is self._measures


@spec(Plan, Plan, Bool, ret=Bool)
def actualized(a, b, ign):
    """b is a with all measured cardinalities in place of the estimates"""
    return same_node(a, b) and (same(b._estimates, a._estimates) if ign and a._measures.cardinality.isnan()
                                else b._estimates.cardinality is a._measures.cardinality
                                and same(b._estimates.additional_estimates, a._estimates.additional_estimates)) \
        and len(a._children) == len(b._children) and forall_index(len(a._children), lambda i: actualized(a._children[i], b._children[i], ign)) \
        and (a._subplan is None) == (b._subplan is None) \
        and (a._subplan is None or (a._subplan.target_name == b._subplan.target_name and actualized(a._subplan.root, b._subplan.root, ign)))


class WithActual(Contract):
    target = f"{QP}.with_actual_card"
    props = P
    params = {"self": Plan, "cost_estimator": MISSING, "ignore_nan": Bool}
    returns = Plan

    def ensures(self, ignore_nan, result):
        return actualized(self, result, ignore_nan)


class Scale(Contract):
    target = f"{QP}.scale_cardinality"
    props = P
    params = {"self": Plan, "factor": Flt, "kind": Str, "recursive": Bool}
    gens = {"kind": _kind}
    returns = Plan

    def ensures(self, factor, kind, recursive, result):
        return scaled(self, result, factor, kind) and (
            scaled_inputs(self, result, factor, kind) if recursive else seq_eq(self._children, result._children) and same(self._subplan, result._subplan))


def scaled(a, b, factor, kind):
    return same_node(a, b) and (
        same(b._estimates.cardinality, factor * a._estimates.cardinality) and same(b._estimates.cost, a._estimates.cost)
        and same(b._estimates.additional_estimates, a._estimates.additional_estimates)
        if kind == "estimated" or kind == "both" else b._estimates is a._estimates) and (
        same(b._measures.cardinality, factor * a._measures.cardinality) and same(b._measures.execution_time, a._measures.execution_time)
        and same(b._measures.additional_measures, a._measures.additional_measures)
        and same(b._measures.cache_hits, a._measures.cache_hits) and same(b._measures.cache_misses, a._measures.cache_misses)
        if kind == "actual" or kind == "both" else b._measures is a._measures)


@spec(Plan, Plan, Flt, Str, ret=Bool)
def scaled_inputs(a, b, factor, kind):
    """the inputs and subplans of b are those of a, all scaled"""
    return len(a._children) == len(b._children) and forall_index(len(a._children), lambda i: scaled(a._children[i], b._children[i], factor, kind)
                                                                  and scaled_inputs(a._children[i], b._children[i], factor, kind)) \
        and (a._subplan is None) == (b._subplan is None) \
        and (a._subplan is None or (a._subplan.target_name == b._subplan.target_name and scaled(a._subplan.root, b._subplan.root, factor, kind)
                                    and scaled_inputs(a._subplan.root, b._subplan.root, factor, kind)))


@spec(Plan, ret=Bool)
def regular(p):
    """auxiliary nodes have one input, joins two"""
    return is_scan(p) or (len(p._children) == (2 if is_join(p) else 1) and forall(p._children, lambda c: regular(c)))


@spec(Plan, ret=Bool)
def regular_subs(p):
    return (p._subplan is None or (regular(p._subplan.root) and regular_subs(p._subplan.root))) and forall(p._children, lambda c: regular_subs(c))


@spec(Plan, Plan, ret=Bool)
def core(a, b):
    """b consists of the scans and joins of a"""
    return (core(a._children[0], b) if not is_scan(a) and not is_join(a) else
            same_node(a, b) and a._estimates is b._estimates and a._measures is b._measures
            and (a._subplan is None) == (b._subplan is None)
            and (a._subplan is None or (a._subplan.target_name == b._subplan.target_name and core(a._subplan.root, b._subplan.root)))
            and (len(b._children) == 0 if is_scan(a) else
                 len(b._children) == len(a._children) and forall_index(len(a._children), lambda i: core(a._children[i], b._children[i]))))


class Canonical(Contract):
    target = f"{QP}.canonical"
    props = P
    gens = {"self": _regular}
    params = {"self": Plan}
    returns = Plan

    def requires(self):
        return regular(self) and regular_subs(self)

    def ensures(self, result):
        return core(self, result)


def params_of(p):
    return dict(p.params.items())


def alike_but(a, b, *skip):
    """all parts of two nodes agree, save for the given ones (children and subplan by identity of their content)"""
    return all(same(dict(x.items()) if hasattr(x, "items") else x, dict(y.items()) if hasattr(y, "items") else y)
               for k, x, y in [("type", a.node_type, b.node_type), ("op", a.operator, b.operator), ("params", a.params, b.params),
                               ("estimates", a.estimates, b.estimates), ("measures", a.measures, b.measures),
                               ("children", tuple(a.children), tuple(b.children)), ("subplan", a.subplan, b.subplan)] if k not in skip)


class Parallelize(Contract):
    target = f"{QP}.parallelize"
    props = P
    bounded = True
    note = "parameters are kept in a dictionary behind attribute hooks"
    params = {"self": Plan, "workers": Int}

    def ensures(self, workers, result):
        return alike_but(self, result, "params") and result.parallel_workers == workers \
            and {**params_of(result), "parallel_workers": 0} == {**params_of(self), "parallel_workers": 0}


class DropMeasures(Contract):
    target = f"{QP}.with_estimates"
    props = P
    bounded = True
    params = {"self": Plan, "cardinality": Opt(Card), "cost": Opt(Flt), "keep_measures": Bool}

    def ensures(self, cardinality, cost, keep_measures, result):
        return alike_but(self, result, "estimates", "measures") and result.is_analyze() == (keep_measures and self.is_analyze())


def whole(p):
    """everything there is to see of a plan"""
    return (p.node_type, p.operator, list(p.params.items()), list(p.estimates.items()), list(p.measures.items()),
            [whole(c) for c in p.children], None if p.subplan is None else (p.subplan.target_name, whole(p.subplan.root)))


class CloneSame(Contract):
    target = f"{QP}.clone"
    props = P
    bounded = True
    params = {"self": Plan, "deep": Bool}

    def ensures(self, deep, result):
        return repr(whole(self)) == repr(whole(result)) and self == result and self is not result \
            and (self.params is not result.params and self.estimates is not result.estimates and self.measures is not result.measures)


class CloneDeep(Lemma):
    props = P
    bounded = True
    params = {"p": Plan}

    def lemma(p):
        before = repr(whole(p))
        c = p.clone(deep=True)
        for n in c:
            n.params["parallel_workers"] = 17
            n.estimates["cost"] = 4711.0
            n.measures["cache_hits"] = 23
        q = p.clone()
        q.params["index"] = "other"
        q.estimates["cost"] = 1.5
        q.measures["cardinality"] = None
        return before == repr(whole(p))


class KeepsSource(Lemma):
    """no transformation changes the plan it starts from"""
    props = P
    bounded = True
    params = {"p": Plan, "c": Card, "f": Flt, "kind": Str}
    gens = {"kind": _kind}

    def lemma(p, c, f, kind):
        before = repr(whole(p))
        p.with_estimates(cardinality=c, cost=f)
        p.with_actual_card()
        p.with_actual_card(ignore_nan=False, cost_estimator=lambda n, x: 1.0)
        p.scale_cardinality(2.0, kind=kind, recursive=True)
        p.parallelize(3)
        return before == repr(whole(p))


def costs(n, c):
    return 10.0 + len(n.children) + (0 if c.isnan() or c.isinf() else c.value)


@spec(Plan, Plan, Bool, ret=Bool)
def costed(a, b, ign):
    return (same(float(b.estimated_cost), float(a.estimated_cost)) if ign and a.actual_cardinality.isnan()
            else same(b.estimated_cost, costs(a, a.actual_cardinality))) and not b.is_analyze() \
        and all(costed(x, y, ign) for x, y in zip(a.children, b.children)) \
        and (a.subplan is None or costed(a.subplan.root, b.subplan.root, ign))


class ActualCosts(Lemma):
    """re-estimated costs and dropped measures in all nodes"""
    props = P
    bounded = True
    params = {"p": Plan, "ign": Bool}

    def lemma(p, ign):
        return costed(p, p.with_actual_card(cost_estimator=costs, ignore_nan=ign), ign)


class Defaults(Lemma):
    """what is not requested is not changed"""
    props = P
    bounded = True
    params = {"p": Plan, "c": Card, "f": Flt}

    def lemma(p, c, f):
        n = p.with_estimates(cardinality=c)
        m = p.with_estimates(cost=f)
        s = p.scale_cardinality(3.0)
        return repr(whole(n)) == repr(whole(p.with_estimates(cardinality=c, cost=None, keep_measures=False))) \
            and repr(whole(m)) == repr(whole(p.with_estimates(cardinality=None, cost=f, keep_measures=False))) \
            and repr(whole(s)) == repr(whole(p.scale_cardinality(3.0, kind="estimated", recursive=False))) \
            and repr(whole(p.with_actual_card())) == repr(whole(p.with_actual_card(cost_estimator=None, ignore_nan=True)))


class Containers(Lemma):
    """parameters, estimates and measures hold what they were given, under each of their names"""
    props = P
    bounded = True
    params = {"p": Plan, "c": Card, "f": Flt, "n": Int}

    def lemma(p, c, f, n):
        e = PlanEstimates(cardinality=c, cost=f, extra=n)
        m = PlanMeasures(cardinality=c, execution_time=f, cache_hits=n, extra="x")
        q = p.clone(deep=True)
        q.params["note"] = n
        q.params.parallel_workers = 3
        return same(e.cardinality, c) and same(float(e.cost), float(f)) and same(dict(e.additional_estimates), {"extra": n}) and e["extra"] == n and e.extra == n \
            and "extra" in e and "other" not in e and e.get("extra") == n and e.get("other") is None and e.get("other", 4) == 4 \
            and (e.get("cost", 4) == 4 if is_nan(f) else same(e.get("cost", 4), f)) \
            and same(m.cardinality, c) and same(m.execution_time, f) and m.cache_hits == n and m.cache_misses is None \
            and same(dict(m.additional_measures), {"extra": "x"}) and bool(m) \
            and q.params.note == n and q.params.get("note") == n and q.get("note") == n and q["note"] == n and q.parallel_workers == 3 and "note" in q \
            and "note" not in p.params and q.get("nothing") is None and q.get("nothing", 5) == 5
