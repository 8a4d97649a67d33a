"""C06: every view of a query plan (tables, nodes, searches, shapes, metrics) agrees with its tree of operators."""
from pydv.api import *
from contracts.model import *

use(QEP, "QueryPlan", "Subplan")
use(CORE, "TableReference", "ScanOperator", "JoinOperator", "IntermediateOperator")
QP = f"{QEP}:QueryPlan"
P = ("C06",)


def _plan(rng, size):
    from contracts import gens
    return gens.plan(rng, size)


def _params(rng, size):
    from contracts import gens
    return gens.plan_params(rng, gens.table(rng) if rng.random() < 0.5 else None)


def _est(rng, size):
    from contracts import gens
    return gens.plan_estimates(rng)


def _meas(rng, size):
    from contracts import gens
    return gens.plan_measures(rng)


def _sub(rng, size):
    from contracts import gens
    from postbound import _qep
    return _qep.Subplan(gens.plan(rng, 1, 2, False), rng.choice(["", "cte"]))


PParams = Ref("PlanParams", [f"{QEP}:PlanParams"], opaque=True, gen=_params,
              attrs={"base_table": Opt(Table), "tables()": Tables, "sort_keys": Any, "parallel_workers": Int})
PEst = Ref("PlanEstimates", [f"{QEP}:PlanEstimates"], opaque=True, gen=_est, attrs={"cardinality": Card, "cost": Flt})
PMeas = Ref("PlanMeasures", [f"{QEP}:PlanMeasures"], opaque=True, gen=_meas,
            attrs={"cardinality": Card, "execution_time": Flt, "__bool__()": Bool})
PSub = Ref("Subplan", [f"{QEP}:Subplan"], eq="term", gen=_sub)
Plan = Ref("Plan", [QP], fields={"_node_type": Str, "_operator": Opt(Operator), "_plan_params": PParams, "_estimates": PEst,
                                 "_measures": PMeas, "_subplan": Opt(PSub)}, eq="code", gen=_plan)
Plan.fields["_input_node"] = Opt(Plan)
Plan.fields["_children"] = Seq(Plan, kind="tuple")
PSub.fields["root"] = Plan
PSub.fields["target_name"] = Str


@invariant(Plan)
def plan_wf(p):
    return (p._input_node is None) == (len(p._children) != 1) and (p._input_node is None or p._input_node is p._children[0])


@invariant(Plan)
def plan_named(p):
    return p._node_type != ""


@invariant(Plan)
def joins_have_two_inputs(p):
    return not is_join(p) or len(p._children) == 2


def is_scan(p):
    return p._operator is not None and isinstance(p._operator, ScanOperator)


def is_join(p):
    return p._operator is not None and isinstance(p._operator, JoinOperator)


class Kinds(Lemma):
    props = P
    params = {"p": Plan}

    def lemma(p):
        return p.is_scan() == is_scan(p) and p.is_join() == is_join(p) and p.is_auxiliary() == (not is_scan(p) and not is_join(p)) \
            and not (p.is_scan() and p.is_join())


class Inputs(Lemma):
    props = P
    params = {"p": Plan}

    def lemma(p):
        n = len(p.children)
        return (p.outer_child is None) == (n != 2) and (p.inner_child is None) == (n != 2) and (p.input_node is None) == (n != 1) \
            and (n != 1 or same(p.input_node, p.children[0])) and (n != 2 or (same(p.outer_child, p.children[0]) and same(p.inner_child, p.children[1])))


class NewPlan(Contract):
    target = f"{QP}.__init__"
    props = P
    params = {"self": Obj("NewPlan", QP, {}), "node_type": Operator, "children": Opt(Seq(Plan)), "plan_params": PParams, "estimates": PEst,
              "measures": PMeas, "subplan": Opt(PSub)}
    modifies = ["self"]
    returns = NoneT
    use_at_calls = False

    def ensures(self, node_type, children, plan_params, estimates, measures, subplan):
        return self.operator is node_type and self.node_type == node_type.name

    def ensures_parts(self, plan_params, estimates, measures, subplan):
        return self.params is plan_params and self.estimates is estimates and self.measures is measures and self.subplan is subplan

    def ensures_children(self, children):
        return (len(self.children) == 0 if children is None else seq_eq(self.children, children))


def everything(p):
    """all nodes, with subplans (runtime search only)"""
    out = [p]
    for c in p.children:
        out += everything(c)
    return out + (everything(p.subplan.root) if p.subplan is not None else [])


def upwards(p):
    """the nodes of the plan itself, inputs first"""
    return [n for c in p.children for n in upwards(c)] + [p]


def ids(ns):
    return sorted(id(n) for n in ns)


def joins_of(p):
    return [n for n in everything(p) if n.is_join()]


@spec(Plan, ret=Int)
def depth(p):
    return 1 + max((depth(c) for c in p._children), default=0)


@spec(PSub, ret=Tables)
def subtabs(s):
    return tabs(s.root) if s.target_name == "" else tabs(s.root) | {TableReference.create_virtual(s.target_name)}


@spec(Plan, ret=Tables)
def tabs(p):
    return p._plan_params.tables() | frozenset(t for c in p._children for t in tabs(c)) \
        | (frozenset() if p._subplan is None else subtabs(p._subplan))


@spec(Plan, ret=Bool)
def scan_branch(p):
    return is_scan(p) or (len(p._children) == 1 and scan_branch(p._children[0]))


@spec(Plan, ret=Bool)
def has_join(p):
    """some node of the plan (or of one of its subplans) is a join"""
    return is_join(p) or exists(p._children, lambda c: has_join(c)) or (p._subplan is not None and has_join(p._subplan.root))


@spec(Plan, Tables, ret=Bool)
def covers(p, s):
    return same(tabs(p), s) or exists(p._children, lambda c: covers(c, s))


class Depth(Contract):
    target = f"{QP}.plan_depth"
    props = P
    params = {"self": Plan}
    returns = Int

    def ensures(self, result):
        return result == depth(self) and result >= 1


class Virtual(Contract):
    target = f"{CORE}:TableReference.create_virtual"
    props = P
    params = {"alias": Str, "full_name": MISSING, "schema": MISSING}
    returns = Table
    trusted = True
    note = "tables are opaque here; their construction is the subject of C04"


class SubTables(Contract):
    target = f"{QEP}:Subplan.tables"
    props = P
    params = {"self": PSub}
    returns = Set(Table, "set")

    def ensures(self, result):
        return same(result, subtabs(self))


class PlanTables(Contract):
    target = f"{QP}.tables"
    props = P
    params = {"self": Plan}
    returns = Set(Table, "set")

    def ensures(self, result):
        return same(result, tabs(self))


class ScanBranch(Contract):
    target = f"{QP}.is_scan_branch"
    props = P
    params = {"self": Plan}
    returns = Opt(Bool)

    def ensures(self, result):
        return bool(result) == scan_branch(self)


class BaseJoin(Contract):
    target = f"{QP}.is_base_join"
    props = P
    params = {"self": Plan}
    returns = Bool

    def ensures(self, result):
        return result == (is_join(self) and forall(self._children, lambda c: scan_branch(c)))


class FetchBase(Contract):
    target = f"{QP}.fetch_base_table"
    props = P
    params = {"self": Plan}
    returns = Opt(Table)

    def ensures_scan(self, result):
        return not is_scan(self) or same(result, self.base_table)

    def ensures_branch(self, result):
        return scan_branch(self) or result is None


Test = Func("PlanTest", [Plan], Bool)


@spec(Plan, Plan, ret=Bool)
def part(p, n):
    """n is a node of the plan itself (not of its subplans)"""
    return p is n or exists(p._children, lambda c: part(c, n))


@spec(Plan, Plan, ret=Bool)
def inside(p, n):
    """n is a node of the plan or of one of its subplans"""
    return p is n or exists(p._children, lambda c: inside(c, n)) or (p._subplan is not None and inside(p._subplan.root, n))


@spec(Plan, Test, ret=Bool)
def some(p, f):
    """some node of the plan or of its subplans passes the test"""
    return f(p) or exists(p._children, lambda c: some(c, f)) or (p._subplan is not None and some(p._subplan.root, f))


class Within(Lemma):
    """no node covers tables that its plan does not"""
    props = P
    params = {"p": Plan, "s": Tables}

    def induct(p, s):
        return [(c, s) for c in p._children]

    def lemma(p, s):
        return implies(covers(p, s), s <= tabs(p))


class LookupSet(Contract):
    target = f"{QP}.lookup"
    props = P
    params = {"self": Plan, "tables": SetOfTables}
    returns = Opt(Plan)

    def ensures_exact(self, tables, result):
        return result is None or (same(tabs(result), tables) and part(self, result))

    def uses(self, tables):
        return [Within(self, tables)]

    def ensures_complete(self, tables, result):
        return (result is not None) == covers(self, tables)

    def ensures_highest(self, tables, result):
        return not same(tabs(self), tables) or result is self


class FindFirst(Contract):
    target = f"{QP}.find_first_node"
    props = P
    params = {"self": Plan, "predicate": Test, "direction": Str}
    returns = Opt(Plan)

    def ensures_sound(self, predicate, result):
        return result is None or (predicate(result) and inside(self, result))

    def ensures_complete(self, predicate, result):
        return (result is not None) == some(self, predicate)


class FindAll(Contract):
    target = f"{QP}.find_all_nodes"
    unfold_bound = True
    props = P
    params = {"self": Plan, "predicate": Test}
    returns = Seq(Plan)

    def ensures_sound(self, predicate, result):
        return forall(result, lambda n: predicate(n) and inside(self, n))


class FindAllComplete(Contract):
    target = f"{QP}.find_all_nodes"
    props = P
    params = {"self": Plan, "predicate": Test}
    bounded = True
    note = "each matching node exactly once; counting needs sums over sequences"

    def ensures(self, predicate, result):
        return ids(result) == sorted(id(n) for n in everything(self) if predicate(n))


@spec(Plan, ret=Bool)
def has_outer_scan(p):
    """following the outer inputs ends at a scan"""
    return is_scan(p) or (is_join(p) and has_outer_scan(p._children[0])) or (not is_join(p) and len(p._children) == 1 and has_outer_scan(p._children[0]))


@spec(Plan, Plan, ret=Bool)
def leads(p, n):
    """following the outer inputs ends at the scan n"""
    return p is n if is_scan(p) else (len(p._children) > 0 and leads(p._children[0], n))


class Outermost(Contract):
    target = f"{QP}.outermost_scan"
    props = P
    params = {"self": Plan}
    returns = Plan
    raises = {"AssertionError": "no_scan"}

    def no_scan(self):
        return not has_outer_scan(self)

    def ensures(self, result):
        return is_scan(result) and part(self, result)

    def ensures_outermost(self, result):
        return leads(self, result)


@spec(Plan, ret=Bool)
def linear(p):
    """each join has an input without joins"""
    return (not is_join(p) or not has_join(p._children[0]) or not has_join(p._children[1])) \
        and forall(p._children, lambda c: linear(c)) and (p._subplan is None or linear(p._subplan.root))


class ShapesRuntime(Contract):
    target = f"{QP}.is_linear"
    props = P
    params = {"self": Plan}
    bounded = True

    def ensures(self, result):
        return result == all(not j.outer_child.find_all_nodes(QueryPlan.is_join) or not j.inner_child.find_all_nodes(QueryPlan.is_join)
                             for j in joins_of(self))


class LeftDeepRuntime(Contract):
    target = f"{QP}.is_left_deep"
    props = P
    params = {"self": Plan}
    bounded = True

    def ensures(self, result):
        return result == all(not j.inner_child.find_all_nodes(QueryPlan.is_join) for j in joins_of(self))


class RightDeepRuntime(Contract):
    target = f"{QP}.is_right_deep"
    props = P
    params = {"self": Plan}
    bounded = True

    def ensures(self, result):
        return result == all(not j.outer_child.find_all_nodes(QueryPlan.is_join) for j in joins_of(self))


class Bushy(Lemma):
    props = P
    params = {"p": Plan}

    def lemma(p):
        return p.is_bushy() == (not p.is_linear())


class ZigZag(Lemma):
    props = P
    params = {"p": Plan}

    def lemma(p):
        return p.is_zigzag() == (p.is_scan() or (p.is_linear() and not p.is_left_deep() and not p.is_right_deep()))


class IterNodes(Contract):
    target = f"{QP}.iternodes"
    props = P
    params = {"self": Plan}
    bounded = True

    def ensures(self, result):
        return [id(n) for n in result] == [id(n) for n in upwards(self)]


class IterAll(Contract):
    target = f"{QP}.__iter__"
    props = P
    params = {"self": Plan}
    bounded = True

    def ensures(self):
        return ids(iter(self)) == ids(everything(self)) and next(iter(self)) is self


class Contains(Contract):
    target = f"{QP}.__contains__"
    props = P
    params = {"self": Plan, "key": Table}

    def ensures(self, key, result):
        return result == (key in tabs(self))


class ContainsAll(Contract):
    target = f"{QP}.__contains__"
    props = P
    params = {"self": Plan, "key": SetOfTables}

    def ensures(self, key, result):
        return result == (key <= tabs(self))


class PlanEq(Contract):
    target = f"{QP}.__eq__"
    props = P
    params = {"self": Plan, "other": Plan}
    returns = Bool

    def ensures(self, other, result):
        return result == alike(self, other)


@spec(Plan, Plan, ret=Bool)
def alike(a, b):
    """same operators over the same tables in the same order"""
    return a._node_type == b._node_type and same(a._plan_params.base_table, b._plan_params.base_table) \
        and len(a._children) == len(b._children) and forall_index(len(a._children), lambda i: alike(a._children[i], b._children[i]))


class PlanHash(Lemma):
    props = P
    bounded = True
    note = "hash of a tuple of plans"
    params = {"a": Plan, "b": Plan}

    def lemma(a, b):
        return implies(a == b, hash(a) == hash(b))


class Cout(Contract):
    target = f"{QP}.cout"
    props = P
    params = {"self": Plan, "include_auxiliaries": Bool}
    bounded = True

    def ensures(self, include_auxiliaries, result):
        nodes = upwards(self)
        if any(not n.is_analyze() for n in nodes):
            return is_nan(float(result))
        cards = [n.actual_cardinality.get() for n in nodes if include_auxiliaries or not n.is_auxiliary()]
        return same(float(result), float(sum(cards)))


class QError(Contract):
    target = f"{QP}.qerror"
    props = P
    params = {"self": Plan}
    bounded = True

    def ensures(self, result):
        e, a = self.estimated_cardinality.get(), self.actual_cardinality.get()
        if not self.is_analyze() or is_nan(e) or is_nan(a):
            return is_nan(float(result))
        return same(float(result), (max(e, a) + 1) / (min(e, a) + 1))


class DefaultDirection(Lemma):
    props = P
    params = {"p": Plan, "f": Test}
    bounded = True

    def lemma(p, f):
        return same(p.find_first_node(f), p.find_first_node(f, direction="outer"))


class DefaultCout(Lemma):
    """auxiliary nodes count unless requested otherwise"""
    props = P
    params = {"p": Plan}
    bounded = True

    def lemma(p):
        return same(float(p.cout()), float(p.cout(include_auxiliaries=True)))


class FirstInDirection(Lemma):
    """the first matching node is found along the requested direction, all the way down"""
    props = P
    params = {"p": Plan, "f": Test}
    bounded = True

    def lemma(p, f):
        return same(p.find_first_node(f, direction="outer"), first(p, f, False)) and same(p.find_first_node(f, direction="inner"), first(p, f, True))


def first(p, f, backwards):
    if f(p):
        return p
    for c in (reversed(list(p.children)) if backwards else p.children):
        n = first(c, f, backwards)
        if n is not None:
            return n
    return first(p.subplan.root, f, backwards) if p.subplan is not None else None
