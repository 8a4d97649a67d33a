"""C08: query plans are taken apart into join order, operators and parameters, and put together from them, without loss."""
from pydv.api import *
from contracts.model import *
from contracts.c06 import Plan, PParams, PEst, PMeas, PSub, is_scan, is_join
import contracts.c07

use(HINTS, "JoinTree", "LogicalJoinTree", "jointree_from_plan", "operators_from_plan", "parameters_from_plan", "PhysicalOperatorAssignment",
    "PlanParameterization")
use("postbound.opt._helpers", "to_query_plan", "explode_query_plan", "jointree_from_sequence")
use(CORE, "TableReference", "ScanOperator", "JoinOperator")
OPT = "postbound.opt._helpers"
P = ("C08",)


def _tree(rng, size):
    from contracts import gens
    from postbound._core import Cardinality
    t = gens.jointree(rng, size, empty=False)
    return t if type(t).__name__ == "LogicalJoinTree" else t


Tree = Ref("PTree", [f"{HINTS}:JoinTree", f"{HINTS}:LogicalJoinTree"], fields={"_table": Opt(Table), "_annotation": Opt(Card), "_hash_val": Int},
           eq="code", gen=_tree)
Tree.fields["_outer"] = Opt(Tree)
Tree.fields["_inner"] = Opt(Tree)


@invariant(Tree)
def tree_wf(t):
    return (t._table is not None and t._outer is None and t._inner is None) \
        or (t._table is None and t._outer is None and t._inner is None) \
        or (t._table is None and t._outer is not None and t._inner is not None and not empty(t._outer) and not empty(t._inner))


def empty(t):
    return t._table is None and (t._outer is None or t._inner is None)


@spec(Tree, ret=Tables)
def tabs(t):
    return frozenset() if empty(t) else (frozenset([t._table]) if t._table is not None else tabs(t._outer) | tabs(t._inner))


class TreeTables(Contract):
    target = f"{HINTS}:JoinTree.tables"
    props = P
    params = {"self": Tree}
    returns = SetOfTables

    def ensures(self, result):
        return same(result, tabs(self))


@spec(Plan, ret=Bool)
def regular(p):
    """scans reference a table, auxiliary nodes have one input, joins two"""
    return p._plan_params.base_table is not None if is_scan(p) else (
        len(p._children) == (2 if is_join(p) else 1) and forall(p._children, lambda c: regular(c)))


@spec(Plan, Tree, Str, ret=Bool)
def extracted(p, t, source):
    """t is the join order of p, with the estimated or actual cardinalities"""
    return not empty(t) and is_instance_exact(t, LogicalJoinTree) and (
        extracted(p._children[0], t, source) if not is_scan(p) and not is_join(p) else
        t._annotation is not None and same(t._annotation, p._estimates.cardinality if source == "estimates" else p._measures.cardinality)
        and (same(t._table, p._plan_params.base_table) if is_scan(p) else
             t._table is None and extracted(p._children[0], t._outer, source) and extracted(p._children[1], t._inner, source)))


def _plan(rng, size):
    from contracts import gens
    return gens.opt_plan(rng, size)


def _source(rng, size):
    return rng.choice(["estimates", "actual"])


class JoinOrderOf(Contract):
    target = f"{HINTS}:jointree_from_plan"
    props = P
    params = {"plan": Plan, "card_source": Str}
    returns = Tree
    gens = {"plan": _plan, "card_source": _source}

    def requires(plan):
        return regular(plan)

    def ensures(plan, card_source, result):
        return extracted(plan, result, card_source)


class MakeParams(Contract):
    target = f"{QEP}:PlanParams.__init__"
    props = P
    constructs = True
    trusted = True
    note = "parameters are opaque here: the constructor stores what it is given"
    params = {"base_table": Opt(Table), "filter_predicate": NoneT, "sort_keys": NoneT, "lookup_key": NoneT, "parallel_workers": Opt(Int), "index": NoneT,
              "kwargs": Map(Str, Any)}
    returns = PParams

    def ensures(base_table, parallel_workers, result):
        return same(result.base_table, base_table) and result.parallel_workers == (0 if parallel_workers is None else parallel_workers)


@spec(Tree, Plan, ScanOp, JoinOp, ret=Bool)
def built(t, p, s, j):
    """p joins the tables in the order of t, all with the same operators"""
    return len(p._children) == (0 if t._table is not None else 2) and p._operator is not None and p._subplan is None \
        and (is_instance_exact(t, JoinTree) or t._annotation is None or same(p._estimates.cardinality, t._annotation)) \
        and (same(p._operator, s) and same(p._plan_params.base_table, t._table) if t._table is not None else
             same(p._operator, j) and p._plan_params.base_table is None and built(t._outer, p._children[0], s, j) and built(t._inner, p._children[1], s, j))


class SimplePlan(Contract):
    target = f"{OPT}:_make_simple_plan"
    props = P
    params = {"join_tree": Tree, "scan_op": ScanOp, "join_op": JoinOp, "query": MISSING, "plan_params": MISSING}
    returns = Plan

    def requires(join_tree):
        return not empty(join_tree)

    def ensures(join_tree, scan_op, join_op, result):
        return built(join_tree, result, scan_op, join_op)


class RoundTrip(Lemma):
    """taking apart what was put together yields the join order"""
    props = P
    params = {"t": Tree, "s": ScanOp, "j": JoinOp}

    def requires(t):
        return not empty(t)

    def lemma(t, s, j):
        p = to_query_plan(t, scan_op=s, join_op=j)
        return built(t, p, s, j)


@spec(Tree, Tree, ret=Bool)
def same_order(a, b):
    return not empty(a) and not empty(b) and (a._table is None) == (b._table is None) and (
        same(a._table, b._table) if a._table is not None else same_order(a._outer, b._outer) and same_order(a._inner, b._inner))


class Inverse(Lemma):
    """the join order of a plan that was built from a join tree is that join tree"""
    props = P
    params = {"t": Tree, "p": Plan, "u": Tree, "s": ScanOp, "j": JoinOp, "k": Str}

    def induct(t, p, u, s, j, k):
        return [(t._outer, p._children[0], u._outer, s, j, k), (t._inner, p._children[1], u._inner, s, j, k)]

    def requires(t, p, u, s, j, k):
        return not empty(t) and built(t, p, s, j) and extracted(p, u, k)

    def lemma(t, p, u, s, j, k):
        return regular(p) and same_order(t, u)


def chain(p):
    """all nodes of the plan, outer before inner"""
    return [p] + [n for c in p.children for n in chain(c)]


def lowest(p, value):
    """per set of tables the value of the lowest node that has one"""
    out = {}
    for n in chain(p):
        if n.tables() and value(n) is not None:
            out[frozenset(n.tables())] = value(n)
    return out


def known(c):
    return None if c.isnan() else c


class ParametersOf(Contract):
    target = f"{HINTS}:parameters_from_plan"
    props = P
    bounded = True
    params = {"query_plan": Plan, "target_cardinality": Str, "fallback_estimated": Bool}
    gens = {"query_plan": _plan, "target_cardinality": lambda rng, size: rng.choice(["estimated", "actual"])}

    def ensures_cards(query_plan, target_cardinality, fallback_estimated, result):
        pick = (lambda n: known(n.estimated_cardinality)) if target_cardinality == "estimated" else \
            (lambda n: known(n.estimated_cardinality if fallback_estimated and not n.actual_cardinality.is_valid() else n.actual_cardinality))
        return result.cardinalities == lowest(query_plan, pick)

    def ensures_workers(query_plan, result):
        return result.parallel_workers == lowest(query_plan, lambda n: n.params.parallel_workers or None)


class ParametersOfTree(Contract):
    target = f"{HINTS}:parameters_from_plan"
    props = P
    bounded = True
    params = {"query_plan": Tree, "target_cardinality": MISSING, "fallback_estimated": MISSING}

    def requires(query_plan):
        return is_instance_exact(query_plan, LogicalJoinTree)

    def ensures(query_plan, result):
        return not result.parallel_workers and result.cardinalities == \
            {frozenset(n.tables()): n.annotation for n in query_plan.iternodes() if n.annotation is not None and not n.annotation.isnan()}


def expected_operators(p, workers):
    a = PhysicalOperatorAssignment()
    for n in chain(p):
        ts, w = frozenset(n.tables()), n.parallel_workers if workers else float("nan")
        if n.is_scan():
            a.scan_operators[n.base_table] = (n.operator, n.base_table, w)
        elif n.is_join():
            a.join_operators[ts] = (n.operator, ts, w)
        elif n.operator is not None:
            a.intermediate_operators[ts] = n.operator
    return a


class OperatorsOf(Contract):
    target = f"{HINTS}:operators_from_plan"
    props = P
    bounded = True
    params = {"query_plan": Plan, "include_workers": Bool}
    gens = {"query_plan": _plan}

    def ensures(query_plan, include_workers, result):
        e = expected_operators(query_plan, include_workers)
        return not result.global_settings and result.intermediate_operators == e.intermediate_operators \
            and {t: repr((o.operator, o.table, float(o.parallel_workers))) for t, o in result.scan_operators.items()} \
            == {t: repr((o, x, float(w))) for t, (o, x, w) in e.scan_operators.items()} \
            and {t: (o.operator, o.join, str(float(o.parallel_workers))) for t, o in result.join_operators.items()} \
            == {t: (o, x, str(float(w))) for t, (o, x, w) in e.join_operators.items()}


class Exploded(Contract):
    target = f"{OPT}:explode_query_plan"
    props = P
    bounded = True
    params = {"query_plan": Plan, "card_source": Str}
    gens = {"query_plan": _plan, "card_source": lambda rng, size: rng.choice(["estimated", "actual"])}

    def ensures(query_plan, card_source, result):
        t, o, p = result
        return extracted(query_plan, t, "estimates" if card_source == "estimated" else "actual") \
            and o == operators_from_plan(query_plan) and same_params(p, parameters_from_plan(query_plan, target_cardinality=card_source))


def same_params(a, b):
    return a.cardinalities == b.cardinalities and a.parallel_workers == b.parallel_workers


def nested(t):
    return t.base_table if t.is_scan() else (nested(t.outer_child), nested(t.inner_child))


class Sequences(Lemma):
    """the nested sequence notation of a join tree denotes that tree"""
    props = P
    bounded = True
    params = {"t": Tree}

    def lemma(t):
        return str(nested(jointree_from_sequence(nested(t)))) == str(nested(t))


def _setup(rng, size):
    """a join tree with operators and parameters for (most of) its nodes"""
    from contracts import gens
    from postbound import _hints as H
    t = gens.jointree(rng, size, empty=False)
    a, p = H.PhysicalOperatorAssignment(), H.PlanParameterization()
    for n in t.iternodes():
        if rng.random() < 0.7:
            if n.is_scan():
                a.set_scan_operator(rng.choice(list(ScanOperator)), n.base_table)
            else:
                a.set_join_operator(rng.choice(list(JoinOperator)), n.tables())
        if rng.random() < 0.4:
            p.add_cardinality(n.tables(), gens.cardinality(rng))
        if rng.random() < 0.3:
            p.set_workers(n.tables(), rng.choice([1, 2, 4]))
    return t, a, p


class PutTogether(Lemma):
    """the plan that is created from join order, operators and parameters consists of exactly these"""
    props = P
    bounded = True
    params = {"parts": Any, "s": ScanOp, "j": JoinOp}
    gens = {"parts": _setup}

    def lemma(parts, s, j):
        t, a, p = parts
        if not a:
            return True
        plan = to_query_plan(t, physical_ops=a, plan_params=p, scan_op=s, join_op=j)
        cards = lambda n, x: p.cardinalities.get(frozenset(n.tables())) or (n.annotation if type(n).__name__ == "LogicalJoinTree" else None)

        def agrees(n, x):
            c = cards(n, x)
            op = a.get(n.tables())
            return x.operator == (op.operator if op is not None else s if n.is_scan() else j) and frozenset(x.tables()) == n.tables() \
                and (x.estimated_cardinality.isnan() if c is None or c.isnan() else x.estimated_cardinality == c) \
                and x.parallel_workers == (p.parallel_workers.get(frozenset(n.tables())) or 0) \
                and (x.base_table == n.base_table and not x.children if n.is_scan() else
                     agrees(n.outer_child, x.outer_child) and agrees(n.inner_child, x.inner_child))
        back = operators_from_plan(plan)
        return agrees(t, plan) and all(back.get(n.tables()).operator == (a.get(n.tables()).operator if a.get(n.tables()) else s if n.is_scan() else j)
                                       for n in t.iternodes())


class MissingOperator(Lemma):
    """without an operator for some node there is no plan"""
    props = P
    bounded = True
    params = {"parts": Any}
    gens = {"parts": _setup}

    def lemma(parts):
        t, a, p = parts
        complete = all(a.get(n.tables()) is not None for n in t.iternodes())
        try:
            to_query_plan(t, physical_ops=a, plan_params=p)
            return complete
        except ValueError:
            return not complete


class Defaults(Lemma):
    """estimates without fallback and without workers unless requested otherwise"""
    props = P
    params = {"p": Plan}
    gens = {"p": lambda rng, size: _core(rng, size)}
    bounded = True

    def lemma(p):
        return same(annotated(jointree_from_plan(p)), annotated(jointree_from_plan(p, card_source="estimates"))) \
            and same(parameters_from_plan(p).cardinalities, parameters_from_plan(p, target_cardinality="estimated", fallback_estimated=False).cardinalities) \
            and same(parameters_from_plan(p, target_cardinality="actual").cardinalities,
                     parameters_from_plan(p, target_cardinality="actual", fallback_estimated=False).cardinalities) \
            and operators_from_plan(p) == operators_from_plan(p, include_workers=False)


def annotated(t):
    return [(sorted(map(str, n.tables())), n.annotation) for n in t.iternodes()]


def _core(rng, size):
    from contracts import gens
    return gens.opt_plan(rng, size)
