"""C17: hints state the decisions of the optimizer (join orders, and what is hinted)."""
from pydv.api import *
from contracts.model import CORE, HINTS, QEP, Operator

PGM, DDM, MYM = "postbound.postgres", "postbound.duckdb", "postbound.mysql"
QAL = "postbound.qal._qal"
TRF = "postbound.transform"
DBM = "postbound.db._db"
use(HINTS, "JoinTree")
P = ("C17",)


def _gen(name, *a, **k):
    def g(rng, size):
        from contracts import gens
        return getattr(gens, name)(rng, *a, **k)
    return g


def _tree(rng, size):
    from contracts import gens
    return gens.jointree(rng, size)


def _plan(rng, size):
    from contracts import gens
    return gens.opt_plan(rng, size)


Table = Ref("HTable", [f"{CORE}:TableReference"], eq="term", opaque=True, truthy=True, gen=_gen("table"), attrs={"identifier()": Str})
Tree = Ref("HTree", [f"{HINTS}:JoinTree", f"{HINTS}:LogicalJoinTree"], fields={"_table": Opt(Table), "_annotation": Opt(Any), "_hash_val": Int}, eq="code", gen=_tree)
Tree.fields["_outer"] = Opt(Tree)
Tree.fields["_inner"] = Opt(Tree)


def empty(t):
    return t._table is None and (t._outer is None or t._inner is None)


@invariant(Tree)
def tree_wf(t):
    return (t._table is not None and t._outer is None and t._inner is None) \
        or (t._table is None and t._outer is None and t._inner is None) \
        or (t._table is None and t._outer is not None and t._inner is not None and not empty(t._outer) and not empty(t._inner))


@spec(Tree, ret=Str)
def nesting(t):
    """the nesting of the tables, outer side first"""
    return t._table.identifier() if t._table is not None else "(" + nesting(t._outer) + " " + nesting(t._inner) + ")"


class TreeOrder(Contract):
    """the join order hint nests the tables like the join tree"""
    target = f"{PGM}:_walk_join_order"
    props = P
    params = {"node": Tree}
    returns = Str

    def requires(node):
        return not empty(node)

    def ensures(node, result):
        return result == nesting(node)


PParams = Ref("HPlanParams", [f"{QEP}:PlanParams"], opaque=True, attrs={"base_table": Opt(Table)})
Plan = Ref("HPlan", [f"{QEP}:QueryPlan"], fields={"_node_type": Str, "_operator": Opt(Operator), "_plan_params": PParams}, eq="code", gen=_plan)
Plan.fields["_input_node"] = Opt(Plan)
Plan.fields["_children"] = Seq(Plan, kind="tuple")


@invariant(Plan)
def plan_wf(p):
    return (p._input_node is None) == (len(p._children) != 1) and (p._input_node is None or p._input_node is p._children[0])


@invariant(Plan)
def joins_have_two_inputs(p):
    return not is_join(p) or len(p._children) == 2


def is_scan(p):
    return p._operator is not None and p.is_scan()


def is_join(p):
    return p._operator is not None and p.is_join()


@spec(Plan, ret=Bool)
def regular(p):
    """scans reference a table, auxiliary nodes have one input, joins two"""
    return p._plan_params.base_table is not None if is_scan(p) else (
        len(p._children) == (2 if is_join(p) else 1) and forall(p._children, lambda c: regular(c)))


@spec(Plan, ret=Str)
def plan_nesting(p):
    """the nesting of the tables, outer side first, without auxiliary nodes"""
    return p._plan_params.base_table.identifier() if is_scan(p) else (
        "(" + plan_nesting(p._children[0]) + " " + plan_nesting(p._children[1]) + ")" if is_join(p) else plan_nesting(p._children[0]))


class PlanDepth(Contract):
    """no plan counts as empty"""
    target = f"{QEP}:QueryPlan.plan_depth"
    props = P
    params = {"self": Plan}
    returns = Int

    def ensures(self, result):
        return result >= 1


class PlanOrder(Contract):
    """the join order hint nests the tables like the query plan"""
    target = f"{PGM}:_extract_plan_join_order"
    props = P
    params = {"plan": Plan}
    returns = Str

    def requires(plan):
        return regular(plan)

    def ensures(plan, result):
        return result == plan_nesting(plan)


Parts = Obj("HParts", f"{DDM}:HintParts", {"settings": Seq(Str, "list"), "hints": Seq(Str, "list")}, gen=_gen("hint_parts"))


class MergedParts(Contract):
    """merging retains all settings and hints of both sides, in this order"""
    target = f"{DDM}:HintParts.merge_with"
    props = P
    params = {"self": Parts, "other": Parts}
    returns = Parts

    def ensures_settings(self, other, result):
        return forall(self.settings, lambda s: s in result.settings) and forall(other.settings, lambda s: s in result.settings)

    def ensures_settings_only(self, other, result):
        return forall(result.settings, lambda s: s in self.settings or s in other.settings)

    def ensures_own_first(self, other, result):
        return seq_eq(result.settings[:len(self.settings)], self.settings) and seq_eq(result.hints[:len(self.hints)], self.hints)

    def ensures_hints(self, other, result):
        return forall(self.hints, lambda s: s in result.hints)

    def ensures_other_hints(self, other, result):
        return forall_index(len(other.hints), lambda i: other.hints[i] in self.hints or exists_index(len(result.hints), lambda j: result.hints[j] == other.hints[i]))

    def ensures_hints_only(self, other, result):
        return forall(result.hints, lambda s: s == "" or s in self.hints or s in other.hints)
