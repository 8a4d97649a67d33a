"""C21: dynamic programming finds a cheapest plan (compared with brute force over all plans of small queries)."""
import itertools
from pydv.api import *

DP = "postbound.opt.dynprog"
P = ("C21",)
BASIC = ["SequentialScan", "IndexScan", "IndexOnlyScan", "BitmapScan", "NestedLoopJoin", "HashJoin", "SortMergeJoin"]  # others are documented to be ignored


def _case(rng, size):
    from contracts import gens
    return gens.dp_case(rng)


def conjuncts(p):
    if p is None:
        return set()
    if p.__class__.__name__ == "CompoundPredicate" and str(p.operation.value).upper() == "AND":
        return set().union(*[conjuncts(c) for c in p.children])
    return {p}


def predicates(query):
    return conjuncts(query.where_clause.predicate) if query.where_clause else set()


def filters(query, table):
    return {p for p in predicates(query) if set(p.tables()) == {table}}


def joins(query, one, two):
    return {p for p in predicates(query) if len(p.tables()) == 2 and p.tables() & one and p.tables() & two}


def used(query, table, schema, stars=True):
    """all columns of the table that the query needs"""
    cols = {c for p in predicates(query) for c in p.columns() if c.table == table}
    for target in query.select_clause.targets:
        cols |= {c for c in target.columns() if c.table == table}
        if stars and type(target.expression).__name__ == "StarExpression" and target.expression.from_table in (None, table):
            cols |= set(schema.columns(table))
    return cols


def scans(query, table, ops, schema, stars=True):
    """(operator, column, index) of all possible scans; without stars, bitmaps are only built for columns that are mentioned"""
    cols = used(query, table, schema)
    indexes = [(c, i) for c in cols for i in schema.indexes_on(c)]
    out = []
    for op in ops:
        name = op.name
        if name == "SequentialScan":
            out.append((op, None, ""))
        elif name == "IndexScan" or name == "IndexOnlyScan" and len(cols) <= 1:
            out.extend((op, c, i) for c, i in indexes)
        elif name == "BitmapScan" and any(schema.indexes_on(c) for c in used(query, table, schema, stars)):
            out.append((op, None, ""))
    return out


def cheapest(query, tabs, scan_ops, join_ops, model, schema, memo):
    """the costs of a cheapest plan without cross products, None if there is no such plan"""
    from contracts.gens import _score, _ids
    if tabs in memo:
        return memo[tabs]
    if len(tabs) == 1:
        table, = tabs
        best = min((_score("scan", op.name, table.identifier(), i, seed=model.seed, top=model.top) for op, _, i in scans(query, table, scan_ops, schema)), default=None)
    else:
        best = None
        for k in range(1, len(tabs)):
            for outer in map(frozenset, itertools.combinations(sorted(tabs, key=str), k)):
                inner = tabs - outer
                if not joins(query, outer, inner):
                    continue
                a, b = cheapest(query, outer, scan_ops, join_ops, model, schema, memo), cheapest(query, inner, scan_ops, join_ops, model, schema, memo)
                if a is None or b is None:
                    continue
                for op in join_ops:
                    cost = a + b + _score("join", op.name, _ids(outer), _ids(inner), seed=model.seed, top=model.top)
                    best = cost if best is None else min(best, cost)
    memo[tabs] = best
    return best


def allowed(enumerator, kind):
    from postbound._core import ScanOperator, JoinOperator
    return {(ScanOperator if kind == "scan" else JoinOperator)[name] for name in enumerator.describe()[f"{kind}_ops"] if name in BASIC}


def nodes(plan):
    return [plan] + [n for c in plan.children for n in nodes(c)]


class CheapestPlan(Contract):
    """a plan of allowed operators for exactly the query, and none is cheaper"""
    target = f"{DP}:DynamicProgrammingEnumerator.generate_execution_plan"
    props = P
    params = {"self": Any, "query": Any, "cost_model": Any, "cardinality_estimator": Any}
    modifies = ["self", "cost_model", "cardinality_estimator"]
    bounded = True
    weight = 3
    gen = _case
    note = "bounded: queries over up to 4 tables, additive costs"

    def ensures_tables(self, query, result):
        return sorted(n.base_table.identifier() for n in nodes(result) if n.is_scan()) == sorted(t.identifier() for t in query.tables())

    def ensures_operators(self, query, result):
        scan_ops, join_ops = allowed(self, "scan"), allowed(self, "join")
        return all(n.operator in (scan_ops if n.is_scan() else join_ops) for n in nodes(result))

    def ensures_scans(self, query, cost_model, result):
        schema, scan_ops = cost_model.db.schema(), allowed(self, "scan")
        for n in nodes(result):
            if n.is_scan():
                keys = [c for k in n.params.sort_keys for e in k.equivalence_class for c in e.columns()]
                col = keys[0] if n.params.index else None
                if (n.operator, col, n.params.index) not in scans(query, n.base_table, scan_ops, schema) or conjuncts(n.params.filter_predicate) != filters(query, n.base_table):
                    return False
        return True

    def ensures_joins(self, query, result):
        for n in nodes(result):
            if n.is_join():
                between = joins(query, n.outer_child.tables(), n.inner_child.tables())
                if not between or conjuncts(n.params["join_condition"] if "join_condition" in n.params else n.get("join_condition")) != between:
                    return False
        return True

    def ensures_estimates(self, query, cost_model, cardinality_estimator, result):
        for n in nodes(result):
            if n.estimated_cardinality != cardinality_estimator.card(n.tables()) or n.estimated_cost != sum(cost_model.node(x) for x in nodes(n)):
                return False
        return True

    def ensures_cheapest(self, query, cost_model, result):
        return result.estimated_cost == cheapest(query, frozenset(query.tables()), allowed(self, "scan"), allowed(self, "join"), cost_model, cost_model.db.schema(), {})

    def ensures_lifecycle(self, query, cost_model, cardinality_estimator):
        want = [("initialize", cost_model.db, query), ("cleanup",)]
        return cost_model.log == want and cardinality_estimator.log == want


def cheapest_sorted(query, tabs, scan_ops, join_ops, model, schema, memo):
    """the costs of a cheapest plan for each sort order (no order: None), with sorts, materialization and memoization"""
    from contracts.gens import _score, _ids
    if tabs in memo:
        return memo[tabs]
    out = {}

    def offer(order, cost):
        out[order] = min(cost, out.get(order, cost))

    def node(kind, *what):
        return _score(kind, *what, seed=model.seed, top=model.top)

    if len(tabs) == 1:
        table, = tabs
        for op, column, index in scans(query, table, scan_ops, schema, stars=False):
            offer(frozenset([column]) if column is not None else None, node("scan", op.name, table.identifier(), index))
    for k in range(1, len(tabs)):
        for outer in map(frozenset, itertools.combinations(sorted(tabs, key=str), k)):
            inner = tabs - outer
            keys = joins(query, outer, inner)
            left, right = [cheapest_sorted(query, side, scan_ops, join_ops, model, schema, memo) for side in (outer, inner)] if keys else ({}, {})
            if not left or not right:
                continue
            pairs = [tuple(sorted(key.columns(), key=lambda c: c.table not in outer)) for key in keys]
            for op in join_ops:
                cost = node("join", op.name, _ids(outer), _ids(inner))
                if op.name != "SortMergeJoin":
                    both = min(left.values()) + min(right.values())
                    offer(None, cost + both)
                    if op.name == "NestedLoopJoin" and model.flags["enable_memoize"]:
                        for _, b in pairs:
                            offer(None, both + node("other", "Memoize", _ids(inner), b) + node("join", op.name, _ids(outer), _ids(inner), "Memoize"))
                    if op.name == "NestedLoopJoin" and model.flags["enable_materialize"]:
                        offer(None, both + node("other", "Materialize", _ids(inner)) + node("join", op.name, _ids(outer), _ids(inner), "Materialize"))
                    continue
                for a, b in pairs:
                    for (o1, c1), (o2, c2) in itertools.product(left.items(), right.items()):
                        sort1, sort2 = o1 is None or a not in o1, o2 is None or b not in o2
                        if (sort1 or sort2) and not model.flags["enable_sort"]:
                            continue
                        c1 += node("other", "Sort", _ids(outer), a) if sort1 else 0
                        c2 += node("other", "Sort", _ids(inner), b) if sort2 else 0
                        offer((frozenset([a]) if sort1 else o1) | (frozenset([b]) if sort2 else o2), cost + c1 + c2)
    memo[tabs] = out
    return out


def _pg_case(rng, size):
    from contracts import gens
    return gens.dp_pg_case(rng)


def expanded(query):
    from postbound.transform import add_ec_predicates
    return add_ec_predicates(query)


class PostgresPlan(Contract):
    """the Postgres strategy provides a plan of allowed operators for exactly the query, and none is cheaper"""
    target = f"{DP}:PostgresDynProg.generate_execution_plan"
    props = P
    params = {"self": Any, "query": Any, "cost_model": Any, "cardinality_estimator": Any}
    modifies = ["self", "cost_model", "cardinality_estimator"]
    bounded = True
    weight = 2
    gen = _pg_case
    note = "bounded: queries over up to 4 tables, additive integer costs (no approximate ties)"

    def ensures_tables(self, query, result):
        return sorted(n.base_table.identifier() for n in nodes(result) if n.is_scan()) == sorted(t.identifier() for t in query.tables())

    def ensures_operators(self, query, cost_model, result):
        scan_ops, join_ops = allowed(self, "scan"), allowed(self, "join")
        flags = {"Sort": "enable_sort", "Materialize": "enable_materialize", "Memoize": "enable_memoize"}
        return all(n.operator in scan_ops if n.is_scan() else n.operator in join_ops if n.is_join() else cost_model.flags[flags[n.operator.name]] for n in nodes(result))

    def ensures_scans(self, query, cost_model, result):
        query, schema, scan_ops = expanded(query), cost_model.db.schema(), allowed(self, "scan")
        for n in nodes(result):
            if n.is_scan():
                keys = [c for k in n.params.sort_keys for e in k.equivalence_class for c in e.columns()]
                col = keys[0] if n.params.index else None
                if (n.operator, col, n.params.index) not in scans(query, n.base_table, scan_ops, schema, stars=False) or conjuncts(n.params.filter_predicate) != filters(query, n.base_table):
                    return False
        return True

    def ensures_joins(self, query, result):
        for n in nodes(result):
            if n.is_join():
                between = joins(expanded(query), n.outer_child.tables(), n.inner_child.tables())
                if not between or conjuncts(n.filter_predicate) != between:
                    return False
        return True

    def ensures_merges(self, query, result):
        """merge joins read inputs that are sorted by a join predicate"""
        for n in nodes(result):
            if n.is_join() and n.operator.name == "SortMergeJoin":
                pairs = [set(p.columns()) for p in joins(expanded(query), n.outer_child.tables(), n.inner_child.tables())]
                order = [{c for e in side.sort_keys[0].equivalence_class for c in e.columns()} if side.sort_keys else set() for side in n.children]
                if not any(p & order[0] and p & order[1] for p in pairs):
                    return False
        return True

    def ensures_estimates(self, query, cost_model, cardinality_estimator, result):
        for n in nodes(result):
            if n.estimated_cardinality != cardinality_estimator.card(n.tables()) or n.estimated_cost != sum(cost_model.node(x) for x in nodes(n)):
                return False
        return True

    def ensures_workers(self, query, cost_model, result):
        return all(n.parallel_workers <= (cost_model.workers or 0) for n in nodes(result) if n.parallel_workers is not None)

    def ensures_cheapest(self, query, cost_model, result):
        best = cheapest_sorted(expanded(query), frozenset(query.tables()), allowed(self, "scan"), allowed(self, "join"), cost_model, cost_model.db.schema(), {})
        return result.estimated_cost == min(best.values())

    def ensures_lifecycle(self, query, cost_model, cardinality_estimator):
        want = [("initialize", cost_model.db, query), ("cleanup",)]
        return cost_model.log == want and cardinality_estimator.log == want


class AllowedOperators(Contract):
    """the requested operators (all, if none are requested) that the database supports"""
    target = f"{DP}:DynamicProgrammingEnumerator.__init__"
    props = P
    params = {"self": Any, "supported_scan_ops": Any, "supported_join_ops": Any, "target_db": Any}
    modifies = ["self"]
    bounded = True
    note = "bounded: the operators are observed via describe()"

    def gen(rng, size):
        from contracts import gens
        from postbound.opt.dynprog import DynamicProgrammingEnumerator
        from postbound._core import ScanOperator, JoinOperator
        pick = lambda ops: None if rng.random() < 0.3 else set(rng.sample(list(ops), rng.randint(0, len(ops))))
        db = gens.dp_db(rng)
        type(db).describe = lambda self: {}
        return {"self": object.__new__(DynamicProgrammingEnumerator), "supported_scan_ops": pick(ScanOperator), "supported_join_ops": pick(JoinOperator), "target_db": db}

    def ensures_scans(self, supported_scan_ops, target_db):
        from postbound._core import ScanOperator
        asked = list(ScanOperator) if supported_scan_ops is None else supported_scan_ops
        return sorted(self.describe()["scan_ops"]) == sorted(o.name for o in asked if target_db.hinting().supports_hint(o))

    def ensures_joins(self, supported_join_ops, target_db):
        from postbound._core import JoinOperator
        asked = list(JoinOperator) if supported_join_ops is None else supported_join_ops
        return sorted(self.describe()["join_ops"]) == sorted(o.name for o in asked if target_db.hinting().supports_hint(o))
