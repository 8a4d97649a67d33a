"""C19: enumerated and sampled join orders, operators and plans are exactly the valid ones (compared with brute force over small queries)."""
import itertools
from pydv.api import *
from contracts.model import CORE

EN, RA = "postbound.opt.enumeration", "postbound.opt.randomized"
use(CORE, "ScanOperator", "JoinOperator")
P = ("C19",)


def _gen(name):
    def g(rng, size):
        from contracts import gens
        return getattr(gens, name)(rng, size)
    return g


def edges(query):
    """the pairs of tables that are joined by a predicate of the query"""
    out = set()
    pred = query.where_clause.predicate if query.where_clause else None
    if pred is None:
        return out
    for p in pred.base_predicates():
        tabs = p.tables()
        if len(tabs) == 2:
            out.add(frozenset(tabs))
    return out


def linked(a, b, joins):
    return any((x in a and y in b) or (y in a and x in b) for x, y in map(tuple, joins))


def crossing(query):
    """whether the tables of the query are not all connected by joins"""
    todo, joins = set(query.tables()), edges(query)
    if not todo:
        return False
    seen = {todo.pop()}
    while True:
        more = {t for t in todo if linked({t}, seen, joins)}
        if not more:
            return bool(todo)
        seen |= more
        todo -= more


def orders(tabs, joins, kind):
    """all nested pairs (outer, inner) over the tables without cross products"""
    tabs = sorted(tabs, key=str)
    if len(tabs) == 1:
        return [tabs[0]]
    out = []
    for k in range(1, len(tabs)):
        if kind == "left-deep" and k != len(tabs) - 1 or kind == "right-deep" and k != 1:
            continue
        for left in itertools.combinations(tabs, k):
            right = [t for t in tabs if t not in left]
            if linked(set(left), set(right), joins):
                ones, others = orders(left, joins, kind), orders(right, joins, kind)
                out.extend((a, b) for a in ones for b in others)
    return out


def nesting(t):
    """the nested pairs of a join tree or query plan"""
    if t.is_scan():
        return t.base_table
    return (nesting(t.outer_child), nesting(t.inner_child))


def within(order):
    return {order} if not isinstance(order, tuple) else within(order[0]) | within(order[1])


def valid(order, joins, kind):
    """no cross products, and the demanded structure"""
    if not isinstance(order, tuple):
        return True
    a, b = order
    if kind == "left-deep" and isinstance(b, tuple) or kind == "right-deep" and isinstance(a, tuple):
        return False
    return linked(within(a), within(b), joins) and valid(a, joins, kind) and valid(b, joins, kind)


def tables_once(order, query):
    flat = []

    def walk(o):
        if isinstance(o, tuple):
            walk(o[0])
            walk(o[1])
        else:
            flat.append(o)
    walk(order)
    return sorted(map(str, flat)) == sorted(map(str, query.tables()))


def pairs(order):
    """the joined tables at each join of the order"""
    return [] if not isinstance(order, tuple) else [frozenset(within(order))] + pairs(order[0]) + pairs(order[1])


def collect(generator, limit=None):
    """what a generator provides, None if it rejects the query"""
    try:
        return list(generator if limit is None else itertools.islice(generator, limit))
    except ValueError:
        return None


def usable(enumerator, kind):
    return enumerator.allowed_scan_ops if kind == "scan" else enumerator.allowed_join_ops


def assigned(a):
    """scan operators, join operators; None if anything else is set"""
    if a.intermediate_operators or a.global_settings:
        return None
    scans, joins = [], []
    for t, s in a.scan_operators.items():
        if s.table != t or s.parallel_workers == s.parallel_workers:
            return None
        scans.append((t, s.operator))
    for j, o in a.join_operators.items():
        if o.join != j or o.parallel_workers == o.parallel_workers or type(o).__name__ != "JoinOperatorAssignment":
            return None
        joins.append((j, o.operator))
    return frozenset(scans), frozenset(joins)


def combinations(things, ops):
    return [frozenset(zip(things, sel)) for sel in itertools.product(sorted(ops, key=str), repeat=len(things))]


def same_all(got, want):
    """the same values, each of them once"""
    return len(got) == len(want) and set(got) == set(want)


class EnumerateOrders(Contract):
    """all join orders of the demanded structure without cross products, each of them once; queries with cross products are rejected"""
    target = f"{EN}:ExhaustiveJoinOrderEnumerator.all_join_orders_for"
    props = P
    params = {"self": Any, "query": Any}
    bounded = True
    endless = True
    gen = _gen("enum_orders")
    note = "bounded: queries over up to 4 (bushy) or 5 (linear) tables, compared with brute force"

    def ensures_exactly(self, query, result):
        got = collect(result)
        if crossing(query):
            return got is None
        return got is not None and same_all([nesting(t) for t in got], orders(query.tables(), edges(query), self._tree_structure))


class EnumerateOperators(Contract):
    """all combinations of the usable operators for all scans and joins, each of them once"""
    target = f"{EN}:ExhaustiveOperatorEnumerator.all_operator_assignments_for"
    props = P
    params = {"self": Any, "query": Any, "join_order": Any}
    bounded = True
    endless = True
    gen = _gen("enum_ops")
    note = "bounded: queries over up to 3 tables and up to 2 operators of each kind"

    def ensures_exactly(self, query, join_order, result):
        got = [assigned(a) for a in list(result)]
        scans = combinations(sorted(query.tables(), key=str), usable(self, "scan")) if self._include_scans else [frozenset()]
        joins = combinations(pairs(nesting(join_order)), usable(self, "join")) if self._include_joins else [frozenset()]
        return same_all(got, [(s, j) for s in scans for j in joins])


def plan_ops(plan):
    """(scans, joins) of a query plan"""
    if plan.is_scan():
        return frozenset([(plan.base_table, plan.operator)]), frozenset()
    a, b = plan_ops(plan.outer_child), plan_ops(plan.inner_child)
    return a[0] | b[0], a[1] | b[1] | {(frozenset(plan.tables()), plan.operator)}


class EnumeratePlans(Contract):
    """each join order is combined with all of its operator assignments"""
    target = f"{EN}:ExhaustivePlanEnumerator.all_plans_for"
    props = P
    params = {"self": Any, "query": Any}
    bounded = True
    endless = True
    gen = _gen("enum_plans")
    weight = 0.5
    note = "bounded: queries over up to 3 tables and up to 2 operators of each kind"

    def ensures_exactly(self, query, result):
        got = collect(result)
        if crossing(query):
            return got is None
        if got is None:
            return False
        ops = self._operator_generator
        want = []
        for o in orders(query.tables(), edges(query), self._join_order_generator._tree_structure):
            scans = combinations(sorted(query.tables(), key=str), ops.allowed_scan_ops) if ops._include_scans else [frozenset((t, None) for t in query.tables())]
            joins = combinations(pairs(o), ops.allowed_join_ops) if ops._include_joins else [frozenset((j, None) for j in pairs(o))]
            want.extend((o, s, j) for s in scans for j in joins)
        return same_all([(nesting(p), *plan_ops(p)) for p in got], want)


def joined_first(order, table):
    """the innermost join of a table only has base tables as inputs"""
    if not isinstance(order, tuple):
        return order == table
    if table in order:
        return not isinstance(order[0], tuple) and not isinstance(order[1], tuple)
    return any(isinstance(o, tuple) and table in within(o) and joined_first(o, table) for o in order)


def started(query, kind, base):
    """the join orders that can be expected if the base table is joined first"""
    found = orders(query.tables(), edges(query), kind)
    if base is None or len(query.tables()) == 1:
        return found
    if kind == "bushy":
        return [o for o in found if joined_first(o, base)]
    return [o for o in found if starts_with(o, base, kind)]


def starts_with(order, base, kind):
    while isinstance(order, tuple):
        order = order[0] if kind == "left-deep" else order[1]
    return order == base


class SampleOrders(Contract):
    """sampled join orders contain each table once and no cross products; they have the demanded structure, start with the base table and differ on demand"""
    target = f"{RA}:RandomJoinOrderGenerator.random_join_orders_for"
    props = P
    params = {"self": Any, "query": Any, "base_table": Any}
    bounded = True
    endless = True
    gen = _gen("random_orders")
    note = "bounded: a sample of up to 12 join orders for queries over up to 6 tables"

    def ensures_valid(self, query, base_table, result):
        kind, distinct = self._tree_structure, self._eliminate_duplicates
        if crossing(query):
            return collect(result, 1) is None
        joins = edges(query)
        n = min(12, len(started(query, kind, base_table))) if distinct else 12
        got = collect(result, n)
        if got is None or len(got) != n:
            return False
        got = [nesting(t) for t in got]
        if distinct and len(set(got)) < n:
            return False
        if base_table is not None and not all(joined_first(o, base_table) for o in got):
            return False
        return all(tables_once(o, query) and valid(o, joins, kind) for o in got)


class SampleAll(Contract):
    """each valid join order is sampled at some point"""
    target = f"{RA}:RandomJoinOrderGenerator.random_join_orders_for"
    family = "support"
    props = P
    params = {"self": Any, "query": Any, "base_table": Any}
    bounded = True
    endless = True
    gen = _gen("random_orders")
    weight = 0.3
    note = "bounded: 400 samples for queries over up to 3 tables"

    def requires_small(query):
        return len(query.tables()) <= 3 and not crossing(query)

    def ensures_complete(self, query, base_table, result):
        want, got = set(started(query, self._tree_structure, base_table)), set()
        for t in itertools.islice(result, len(want) if self._eliminate_duplicates else 400):
            got.add(nesting(t))
        return got >= want


def chosen(a, query, order, gen):
    """the operators are usable and cover exactly the scans and joins"""
    got = assigned(a)
    if got is None:
        return False
    scans, joins = dict(got[0]), dict(got[1])
    return set(scans) == (set(query.tables()) if gen._include_scans else set()) and set(joins) == (set(pairs(nesting(order))) if gen._include_joins else set()) \
        and set(scans.values()) <= set(gen.allowed_scan_ops) and set(joins.values()) <= set(gen.allowed_join_ops)


def n_choices(query, gen):
    n = len(query.tables())
    return (len(gen.allowed_scan_ops) ** n if gen._include_scans else 1) * (len(gen.allowed_join_ops) ** (n - 1) if gen._include_joins else 1)


class SampleOperators(Contract):
    """sampled operators are usable, they cover exactly the scans and joins, and differ on demand"""
    target = f"{RA}:RandomOperatorGenerator.random_operator_assignments_for"
    props = P
    params = {"self": Any, "query": Any, "join_order": Any}
    bounded = True
    endless = True
    gen = _gen("random_ops")
    note = "bounded: a sample of 8 assignments for queries over up to 4 tables"

    def ensures_valid(self, query, join_order, result):
        distinct = self._eliminate_duplicates
        n = min(8, n_choices(query, self)) if distinct else 8
        got = list(itertools.islice(result, n))
        return all(chosen(a, query, join_order, self) for a in got) and (not distinct or len({assigned(a) for a in got}) == n)


def good_plan(plan, query, gen):
    """the plan is a valid combination of join order and operators"""
    ops, order = gen._operator_generator, nesting(plan)
    scans, joins = plan_ops(plan)
    return tables_once(order, query) and valid(order, edges(query), gen._join_order_generator._tree_structure) \
        and all(o in ops.allowed_scan_ops if ops._include_scans else o is None for _, o in scans) and all(o in ops.allowed_join_ops if ops._include_joins else o is None for _, o in joins)


class SamplePlans(Contract):
    """sampled plans combine a valid join order with usable operators, and differ on demand"""
    target = f"{RA}:RandomPlanGenerator.random_plans_for"
    props = P
    params = {"self": Any, "query": Any}
    bounded = True
    endless = True
    gen = _gen("random_plans")
    note = "bounded: a sample of up to 6 plans for queries over up to 4 tables"

    def ensures_valid(self, query, result):
        distinct, joins = self._eliminate_duplicates, edges(query)
        n = 6
        if distinct:
            n = min(n, n_choices(query, self._operator_generator) * len(orders(query.tables(), joins, self._join_order_generator._tree_structure)))
        got = list(itertools.islice(result, n))
        if len(got) != n or distinct and len({(nesting(p), *plan_ops(p)) for p in got}) < n:
            return False
        return all(good_plan(p, query, self) for p in got)


class RandomOrder(Contract):
    """the random optimizer chooses a valid join order"""
    target = f"{RA}:RandomJoinOrderOptimizer.optimize_join_order"
    props = P
    params = {"self": Any, "query": Any}
    bounded = True
    gen = _gen("random_order_optimizer")
    note = "bounded: queries over up to 5 tables"

    def ensures_valid(self, query, result):
        return tables_once(nesting(result), query) and valid(nesting(result), edges(query), self._generator._tree_structure)


class RandomOperators(Contract):
    """the random optimizer chooses usable operators for exactly the scans and joins"""
    target = f"{RA}:RandomOperatorOptimizer.select_physical_operators"
    props = P
    params = {"self": Any, "query": Any, "join_order": Any}
    bounded = True
    gen = _gen("random_op_optimizer")
    note = "bounded: queries over up to 4 tables"

    def ensures_valid(self, query, join_order, result):
        return chosen(result, query, join_order, self._generator)


class RandomPlan(Contract):
    """the random optimizer chooses a valid join order with usable operators"""
    target = f"{RA}:RandomPlanOptimizer.optimize_query"
    props = P
    params = {"self": Any, "query": Any}
    bounded = True
    gen = _gen("random_plan_optimizer")
    note = "bounded: queries over up to 4 tables"

    def ensures_valid(self, query, result):
        return good_plan(result, query, self._generator)


NX = "postbound.util.nx"


def continues(walk, graph):
    """each node is adjacent to an earlier one, unless no such node is left"""
    seen = []
    for n in walk:
        if seen:
            reach = {m for s in seen for m in graph.adj[s] if m not in seen}
            if reach and n not in reach:
                return False
        seen.append(n)
    return True


def _graph_args(rng, size):
    from contracts import gens
    return {"graph": gens.small_graph(rng)}


class FrontierWalks(Contract):
    """all orders of the nodes in which each one is adjacent to an earlier one, as long as there is such a node"""
    target = f"{NX}:nx_frontier_walks"
    props = P
    params = {"graph": Any}
    bounded = True
    gen = _graph_args
    weight = 0.5
    note = "bounded: graphs with up to 5 nodes"

    def ensures_all(graph, result):
        got = {tuple(w.nodes()) for w in result}
        return got == {p for p in itertools.permutations(graph.nodes) if continues(p, graph)}


def _walk_args(rng, size):
    from contracts import gens
    g = gens.small_graph(rng)
    return {"graph": g, "starting_node": rng.choice([None, *g.nodes])}


class RandomWalk(Contract):
    """a random walk visits each node once, along the edges as long as possible, from the starting node on"""
    target = f"{NX}:nx_random_walk"
    props = P
    params = {"graph": Any, "starting_node": Any}
    bounded = True
    endless = True
    gen = _walk_args
    note = "bounded: graphs with up to 5 nodes"

    def ensures_walk(graph, starting_node, result):
        walk = list(result)
        return sorted(walk) == sorted(graph.nodes) and continues(walk, graph) and (starting_node is None or walk[0] == starting_node)
