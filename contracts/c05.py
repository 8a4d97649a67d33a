"""C05: join trees encode exactly one join order; every view of a tree agrees with it."""
from pydv.api import *
from contracts.model import *

use(HINTS, "JoinTree", "LogicalJoinTree")
use(CORE, "TableReference")
JT = f"{HINTS}:JoinTree"
LJT = f"{HINTS}:LogicalJoinTree"
P = ("C05",)


def _tree(rng, size):
    from contracts import gens
    return gens.jointree(rng, size)


Tree = Ref("Tree", [JT, LJT], fields={"_table": Opt(Table), "_annotation": Opt(Any), "_hash_val": Int}, eq="code", gen=_tree)
Tree.fields["_outer"] = Opt(Tree)
Tree.fields["_inner"] = Opt(Tree)


def empty(t):
    return t._table is None and (t._outer is None or t._inner is None)


@invariant(Tree)
def tree_wf(t):
    return (t._table is not None and t._outer is None and t._inner is None) \
        or (t._table is None and t._outer is None and t._inner is None) \
        or (t._table is None and t._outer is not None and t._inner is not None and not empty(t._outer) and not empty(t._inner))


@spec(Tree, ret=Tables)
def tabs(t):
    return frozenset() if empty(t) else (frozenset([t._table]) if t._table is not None else tabs(t._outer) | tabs(t._inner))


@spec(Tree, ret=Int)
def depth(t):
    return 0 if empty(t) else (1 if t._table is not None else 1 + max(depth(t._outer), depth(t._inner)))


@spec(Tree, ret=Bool)
def linear(t):
    return True if t._table is not None else ((t._outer._table is not None or t._inner._table is not None)
                                              and linear(t._outer) and linear(t._inner))


@spec(Tree, ret=Seq(Table))
def leaves(t):
    return [] if empty(t) else ([t._table] if t._table is not None else leaves(t._outer) + leaves(t._inner))


@spec(Tree, ret=Seq(Tree))
def nodes(t):
    return [] if empty(t) else ([t] if t._table is not None else [t] + nodes(t._outer) + nodes(t._inner))


@spec(Tree, ret=Seq(Tree))
def joins(t):
    return [] if empty(t) or t._table is not None else joins(t._outer) + joins(t._inner) + [t]


@spec(Tree, Tree, ret=Bool)
def alike(a, b):
    """same join order, whatever the annotations are"""
    if empty(a) or empty(b):
        return empty(a) and empty(b)
    if a._table is not None:
        return b._table is not None and same(a._table, b._table)
    return b._table is None and alike(a._outer, b._outer) and alike(a._inner, b._inner)


@spec(Tree, ret=Bool)
def plain(t):
    return is_instance_exact(t, JoinTree) and (t._outer is None or plain(t._outer)) and (t._inner is None or plain(t._inner))


@spec(Tree, ret=Bool)
def logical(t):
    return is_instance_exact(t, LogicalJoinTree) and (t._outer is None or logical(t._outer)) and (t._inner is None or logical(t._inner))


@invariant(Tree)
def stored_hash(t):
    return t._hash_val == hash((t._table, t._outer, t._inner))


@spec(Tree, Tree, ret=Bool)
def part(t, n):
    """n is one of the nodes of t"""
    return (not empty(t)) and (t is n or (t._table is None and (part(t._outer, n) or part(t._inner, n))))


@spec(Tree, Tables, ret=Bool)
def covers(t, s):
    """some node of t is over exactly the tables s"""
    return (not empty(t)) and (same(tabs(t), s) or (t._table is None and (covers(t._outer, s) or covers(t._inner, s))))


class NodesWithin(Lemma):
    """every node of a tree is over some of the tables of the tree"""
    props = P
    params = {"t": Tree, "s": Tables}

    def induct(t, s):
        return [(t._outer, s), (t._inner, s)]

    def lemma(t, s):
        return implies(covers(t, s), s <= tabs(t)) and empty(t) == (len(tabs(t)) == 0)


class HasScan(Lemma):
    """a table belongs to a tree exactly if one of the nodes is its scan"""
    props = P
    params = {"t": Tree, "x": Table}

    def induct(t, x):
        return [(t._outer, x), (t._inner, x)]

    def lemma(t, x):
        return (x in tabs(t)) == covers(t, frozenset([x]))


class Scan(Lemma):
    props = P
    params = {"t": Table, "a": Any}

    def lemma(t, a):
        s = JoinTree.scan(t, annotation=a)
        return s.is_scan() and not s.is_join() and not s.is_empty() and same(s.base_table, t) and same(s.annotation, a) and len(s.children) == 0 \
            and is_instance_exact(s, JoinTree)


class LogicalScan(Lemma):
    props = P
    params = {"t": Table, "a": Card}

    def lemma(t, a):
        s = LogicalJoinTree.scan(t, annotation=a)
        return s.is_scan() and not s.is_join() and not s.is_empty() and same(s.base_table, t) and same(s.annotation, a) and same(s.cardinality, a) \
            and is_instance_exact(s, LogicalJoinTree)


class Join(Lemma):
    props = P
    params = {"o": Tree, "i": Tree, "a": Any}

    def requires(o, i):
        return not o.is_empty() and not i.is_empty()

    def lemma(o, i, a):
        j = JoinTree.join(o, i, annotation=a)
        return j.is_join() and not j.is_scan() and not j.is_empty() and j.outer_child is o and j.inner_child is i and same(j.annotation, a) \
            and len(j.children) == 2 and j.children[0] is o and j.children[1] is i and is_instance_exact(j, JoinTree)


class LogicalJoin(Lemma):
    props = P
    params = {"o": Tree, "i": Tree, "a": Card}

    def requires(o, i):
        return not o.is_empty() and not i.is_empty()

    def lemma(o, i, a):
        j = LogicalJoinTree.join(o, i, annotation=a)
        return j.is_join() and not j.is_empty() and j.outer_child is o and j.inner_child is i and same(j.annotation, a) \
            and is_instance_exact(j, LogicalJoinTree)


class Empty(Lemma):
    props = P
    params = {}

    def lemma():
        e, l = JoinTree.empty(), LogicalJoinTree.empty()
        return e.is_empty() and l.is_empty() and len(e) == 0 and not e and not l and e.plan_depth() == 0 and is_instance_exact(l, LogicalJoinTree) \
            and len(e.tables()) == 0


class TreeTables(Contract):
    target = f"{JT}.tables"
    props = P
    params = {"self": Tree}
    returns = Set(Table, "set")

    def ensures(self, result):
        return same(result, tabs(self))


class TreeDepth(Contract):
    target = f"{JT}.plan_depth"
    props = P
    params = {"self": Tree}
    returns = Int

    def ensures(self, result):
        return result == depth(self)


class TreeLinear(Contract):
    target = f"{JT}.is_linear"
    props = P
    params = {"self": Tree}
    returns = Bool
    raises = {"StateError": "bad"}
    fuel = 2

    def bad(self):
        return empty(self)

    def ensures(self, result):
        return result == linear(self)


class TreeBushy(Contract):
    target = f"{JT}.is_bushy"
    props = P
    params = {"self": Tree}
    returns = Bool
    raises = {"StateError": "bad"}

    def bad(self):
        return empty(self)

    def ensures(self, result):
        return result == (not linear(self))


class TreeBaseJoin(Contract):
    target = f"{JT}.is_base_join"
    props = P
    params = {"self": Tree}
    returns = Bool

    def requires(self):
        return not empty(self)

    def ensures(self, result):
        return result == (self.is_join() and self.outer_child.is_scan() and self.inner_child.is_scan())


class ScanXorJoin(Lemma):
    props = P
    params = {"t": Tree}

    def requires(t):
        return not t.is_empty()

    def lemma(t):
        return t.is_scan() != t.is_join() and bool(t) and len(t.children) == (0 if t.is_scan() else 2)


class Sizes(Lemma):
    props = P
    params = {"t": Tree}

    def lemma(t):
        return len(t) == len(t.tables()) and bool(t) == (not t.is_empty())


class BaseTable(Contract):
    target = f"{JT}.base_table"
    props = P
    params = {"self": Tree}
    returns = Table
    raises = {"StateError": "bad"}
    use_at_calls = False

    def bad(self):
        return self.is_join()

    def ensures(self, result):
        return same(result, self._table)


class OuterChild(Contract):
    target = f"{JT}.outer_child"
    props = P
    params = {"self": Tree}
    returns = Tree
    raises = {"StateError": "bad"}
    use_at_calls = False

    def requires(self):
        return not empty(self)

    def bad(self):
        return self.is_scan()

    def ensures(self, result):
        return result is self.children[0]


class InnerChild(Contract):
    target = f"{JT}.inner_child"
    props = P
    params = {"self": Tree}
    returns = Tree
    raises = {"StateError": "bad"}
    use_at_calls = False

    def requires(self):
        return not empty(self)

    def bad(self):
        return self.is_scan()

    def ensures(self, result):
        return result is self.children[1]


class TreeLeaves(Contract):
    target = f"{JT}.itertables"
    props = P
    params = {"self": Tree}
    returns = Seq(Table)

    def ensures(self, result):
        return seq_eq(result, leaves(self))


class TreeNodes(Contract):
    target = f"{JT}.iternodes"
    verify = [f"{JT}.iternodes", f"{LJT}.iternodes"]
    props = P
    params = {"self": Tree}
    returns = Seq(Tree)

    def ensures(self, result):
        return seq_eq(result, nodes(self))


class TreeJoins(Contract):
    target = f"{JT}.iterjoins"
    verify = [f"{JT}.iterjoins", f"{LJT}.iterjoins"]
    props = P
    params = {"self": Tree}
    returns = Seq(Tree)

    def ensures(self, result):
        return seq_eq(result, joins(self))


class Lookup(Contract):
    target = f"{JT}.lookup"
    verify = [f"{JT}.lookup", f"{LJT}.lookup"]
    props = P
    params = {"self": Tree, "table": SetOfTables}
    returns = Opt(Tree)

    def requires(table):
        return len(table) > 0

    def uses(self, table):
        return [NodesWithin(self, table), NodesWithin(self._outer, table), NodesWithin(self._inner, table)]

    def ensures_exact(self, table, result):
        return result is None or (same(tabs(result), table) and part(self, result))

    def ensures_complete(self, table, result):
        return (result is not None) == covers(self, table)

    def ensures_self(self, table, result):
        return not same(tabs(self), table) or result is self


class LookupTable(Contract):
    target = f"{JT}.lookup"
    props = P
    params = {"self": Tree, "table": Table}
    returns = Opt(Tree)

    def uses(self, table):
        return [NodesWithin(self, frozenset([table])), NodesWithin(self._outer, frozenset([table])), NodesWithin(self._inner, frozenset([table]))]

    def ensures_exact(self, table, result):
        return result is None or (same(tabs(result), {table}) and part(self, result))

    def ensures_complete(self, table, result):
        return (result is not None) == covers(self, frozenset([table]))


class UpdateAnnotation(Contract):
    target = f"{JT}.update_annotation"
    verify = [f"{JT}.update_annotation", f"{LJT}.update_annotation"]
    props = P
    params = {"self": Tree, "new_annotation": Any}
    returns = Tree
    raises = {"StateError": "bad"}

    def bad(self):
        return empty(self)

    def ensures(self, new_annotation, result):
        return same(result.annotation, new_annotation) and result.is_scan() == self.is_scan() \
            and isinstance(result, LogicalJoinTree) == isinstance(self, LogicalJoinTree) \
            and (same(result.base_table, self.base_table) if self.is_scan()
                 else result.outer_child is self.outer_child and result.inner_child is self.inner_child)


class JoinWithTable(Contract):
    fuel = 2
    target = f"{JT}.join_with"
    verify = [f"{JT}.join_with", f"{LJT}.join_with"]
    props = P
    params = {"self": Tree, "partner": Table, "annotation": Opt(Any), "partner_annotation": Opt(Any), "partner_direction": Str}
    returns = Tree

    def requires(partner_direction):
        return partner_direction == "inner" or partner_direction == "outer"

    def ensures_kind(self, result):
        return isinstance(result, LogicalJoinTree) == isinstance(self, LogicalJoinTree)

    def ensures_structure(self, partner, annotation, partner_annotation, partner_direction, result):
        if empty(self):
            return result.is_scan() and same(result.base_table, partner) and same(result.annotation, partner_annotation)
        me = result.outer_child if partner_direction == "inner" else result.inner_child
        other = result.inner_child if partner_direction == "inner" else result.outer_child
        return result.is_join() and me is self and other.is_scan() and same(other.base_table, partner) \
            and same(other.annotation, partner_annotation) and same(result.annotation, annotation) \
            and isinstance(other, LogicalJoinTree) == isinstance(self, LogicalJoinTree)

    def ensures_tables(self, partner, result):
        return same(tabs(result), tabs(self) | {partner})


class JoinWithTree(Contract):
    target = f"{JT}.join_with"
    verify = [f"{JT}.join_with", f"{LJT}.join_with"]
    props = P
    params = {"self": Tree, "partner": Tree, "annotation": Opt(Any), "partner_annotation": NoneT, "partner_direction": Str}
    returns = Tree

    def requires(self, partner, partner_direction):
        return (partner_direction == "inner" or partner_direction == "outer") \
            and isinstance(self, LogicalJoinTree) == isinstance(partner, LogicalJoinTree)

    def ensures_structure(self, partner, annotation, partner_direction, result):
        if empty(partner):
            return result is self
        if empty(self):
            return result is partner
        me = result.outer_child if partner_direction == "inner" else result.inner_child
        other = result.inner_child if partner_direction == "inner" else result.outer_child
        return result.is_join() and me is self and other is partner and same(result.annotation, annotation) \
            and isinstance(result, LogicalJoinTree) == isinstance(self, LogicalJoinTree)

    def ensures_tables(self, partner, result):
        return same(tabs(result), tabs(self) | tabs(partner))


class TreeEq(Contract):
    target = f"{JT}.__eq__"
    props = P
    params = {"self": Tree, "other": Tree}
    returns = Bool

    def requires(self, other):
        return plain(self) and plain(other)

    def ensures(self, other, result):
        return result == alike(self, other)


class LogicalEq(Contract):
    target = f"{JT}.__eq__"
    props = P
    params = {"self": Tree, "other": Tree}
    returns = Bool

    def requires(self, other):
        return logical(self) and logical(other)

    def ensures(self, other, result):
        return result == alike(self, other)


class TreeHash(Lemma):
    props = P
    params = {"a": Tree, "b": Tree}

    def requires(a, b):
        return plain(a) and plain(b)

    def induct(a, b):
        return [(a._outer, b._outer), (a._inner, b._inner)]

    def lemma(a, b):
        return implies(alike(a, b), hash(a) == hash(b))


class LeavesAreTables(Lemma):
    """the tables of a tree are exactly its leaves"""
    props = P
    params = {"a": Tree}

    def induct(a):
        return [(a._outer,), (a._inner,)]

    def lemma(a):
        return same(frozenset(a.itertables()), frozenset(a.tables()))


class JoinCount(Lemma):
    """n leaves are combined by n - 1 joins"""
    props = P
    params = {"a": Tree}

    def requires(a):
        return not a.is_empty()

    def induct(a):
        return [(a._outer,), (a._inner,)]

    def lemma(a):
        return len(a.iterjoins()) == len(a.itertables()) - 1 and len(a.iternodes()) == len(a.itertables()) + len(a.iterjoins())


class TreeContains(Contract):
    target = f"{JT}.__contains__"
    props = P
    params = {"self": Tree, "x": Table}
    use_at_calls = False

    def uses(self, x):
        return [HasScan(self, x)]

    def ensures(self, x, result):
        return bool(result) == (x in tabs(self))


class JoinWithAnnotated(Contract):
    """the annotation of a partner tree is replaced if requested, also if the tree is still empty"""
    target = f"{JT}.join_with"
    verify = [f"{JT}.join_with", f"{LJT}.join_with"]
    props = P
    params = {"self": Tree, "partner": Tree, "annotation": Opt(Any), "partner_annotation": Any, "partner_direction": Str}
    returns = Tree
    use_at_calls = False

    def requires(self, partner, partner_direction, partner_annotation):
        return (partner_direction == "inner" or partner_direction == "outer") and partner_annotation is not None \
            and isinstance(self, LogicalJoinTree) == isinstance(partner, LogicalJoinTree) and not empty(partner)

    def ensures_partner(self, partner, annotation, partner_annotation, partner_direction, result):
        other = result if empty(self) else (result.inner_child if partner_direction == "inner" else result.outer_child)
        return same(other.annotation, partner_annotation) and same(other._table, partner._table) and other._outer is partner._outer and other._inner is partner._inner

    def ensures_self(self, annotation, partner_direction, result):
        return empty(self) or (same(result.annotation, annotation) and (result.outer_child if partner_direction == "inner" else result.inner_child) is self)


class JoinDefaults(Lemma):
    """the partner becomes the inner input unless requested otherwise"""
    props = P
    params = {"t": Tree, "s": Table}

    def lemma(t, s):
        r = t.join_with(s)
        return empty(t) or (same(r.outer_child, t) and same(r.inner_child.base_table, s))
