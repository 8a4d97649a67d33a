"""C20: the state of join graphs (compared with a model of the query, the schema and the joined tables)."""
from pydv.api import *

JG = "postbound.opt._joingraph"
NX = "postbound.util.nx"
P = ("C20",)


def _gen(name):
    def g(rng, size):
        from contracts import gens
        return getattr(gens, name)(rng)
    return g


def _graph(**k):
    def g(rng, size):
        from contracts import gens
        return {"self": gens.jg_graph(rng, **k)}
    return g


def _tables(n, outside=0.0, **k):
    """a graph and some tables"""
    names = {1: ["table"], 2: ["first_table", "second_table"]}[n]

    def g(rng, size):
        from contracts import gens
        graph = gens.jg_graph(rng, **k)
        return {"self": graph, **{name: gens.jg_member(rng, graph, outside) for name in names}}
    return g


def kind_of(column):
    """what the schema states about a column"""
    return "primary" if column.name in ("id", "pk") else "secondary" if column.name in ("fk", "ix") else "none"


def joins_of(query):
    """for each pair of tables, the predicates that join them"""
    out = {}
    pred = query.where_clause.predicate if query.where_clause else None
    todo = [pred] if pred is not None else []
    while todo:
        p = todo.pop()
        if str(getattr(p, "operation", "")) == "LogicalOperator.And" or (p.__class__.__name__ == "CompoundPredicate" and str(p.operation.value).upper() == "AND"):
            todo.extend(p.children)
        elif len(p.tables()) == 2:
            out.setdefault(frozenset(p.tables()), set()).add(p)
    return out


def pairs_of(preds):
    """the pairs of columns that are compared"""
    return {frozenset(p.columns()) for p in preds}


def valid(graph):
    """the usable indexes of all columns"""
    return {i.column: i.index_type for t in graph for i in graph[t].index_info if i.is_indexed()}


def free(graph):
    return {t for t in graph if graph[t].free}


def pk_fk(joins, state, fk, pk):
    for pair in pairs_of(joins.get(frozenset([fk, pk]), ())):
        f, = [c for c in pair if c.table == fk]
        p, = [c for c in pair if c.table == pk]
        if f in state and state.get(p) == "primary":
            return True
    return False


def conjuncts(p):
    if p is None:
        return set()
    if p.__class__.__name__ == "CompoundPredicate" and str(p.operation.value).upper() == "AND":
        return set().union(*[conjuncts(c) for c in p.children])
    return {p}


def path(p):
    return p.start_table, p.target_table, frozenset(conjuncts(p.join_condition))


def usable(state, joins, tabs):
    """whether the tables can be joined next"""
    return lambda a, b: frozenset([a, b]) in joins and (state == set(tabs) or (a in state) != (b in state))


def multiset(xs):
    out = {}
    for x in xs:
        out[x] = out.get(x, 0) + 1
    return out


class NewGraph(Contract):
    """tables, edges, join predicates and indexes are those of the query and the schema"""
    target = f"{JG}:JoinGraph.__init__"
    props = P
    params = {"self": Any, "query": Any, "db_schema": Any}
    modifies = ["self"]
    bounded = True
    weight = 0.5
    note = "bounded: queries over up to 5 tables"

    def gen(rng, size):
        from contracts import gens
        from postbound.opt._joingraph import JoinGraph
        return {"self": object.__new__(JoinGraph), "query": gens.jg_query(rng), "db_schema": gens.JgSchema()}

    def ensures_tables(self, query):
        return set(self) == set(query.tables()) and len(self) == len(query.tables()) and all(t in self for t in query.tables()) and free(self) == set(query.tables())

    def ensures_edges(self, query):
        got = [frozenset(e) for e in self.all_joins()]
        return len(got) == len(set(got)) and set(got) == set(joins_of(query))

    def ensures_indexes(self, query):
        cols = set().union(*[p.columns() for ps in joins_of(query).values() for p in ps])
        got = {t: [(i.column, i.index_type, i.is_invalid) for i in self[t].index_info] for t in self}
        return all(set(got[t]) == {(c, kind_of(c), False) for c in cols if c.table == t} and len(got[t]) == len(set(got[t])) for t in self)

    def ensures_predicates(self, query):
        return {path(p) for p in self.available_join_paths(both_directions_on_initial=True)} == {
            (a, b, frozenset(ps)) for e, ps in joins_of(query).items() for a in e for b in e if a != b}


def closure(query):
    """the pairs of columns that are equal due to the join predicates"""
    groups = []
    for ps in joins_of(query).values():
        for p in ps:
            if getattr(p, "operation", None) is not None and str(getattr(p.operation, "value", "")) == "=":
                cols = set(p.columns())
                hit = [g for g in groups if g & cols]
                groups = [g for g in groups if not g & cols] + [cols.union(*hit)]
    return {frozenset([a, b]) for g in groups for a in g for b in g if a.table != b.table}


class EquivalentGraph(Contract):
    """with equivalence classes, tables are also joined if their columns are equal by transitivity"""
    target = f"{JG}:JoinGraph.__init__"
    family = "classes"
    props = P
    params = {"self": Any, "query": Any, "db_schema": Any, "include_predicate_equivalence_classes": Any}
    modifies = ["self"]
    bounded = True
    weight = 0.5
    note = "bounded: queries over up to 5 tables"

    def gen(rng, size):
        return {**NewGraph.gen(rng, size), "include_predicate_equivalence_classes": True}

    def ensures_edges(self, query):
        return {frozenset(e) for e in self.all_joins()} == set(joins_of(query)) | {frozenset(c.table for c in pair) for pair in closure(query)}

    def ensures_predicates(self, query):
        direct, implied = joins_of(query), closure(query)
        for p in self.available_join_paths():
            got = conjuncts(p.join_condition)
            want = pairs_of(direct.get(frozenset(p.tables()), ())) | {pair for pair in implied if {c.table for c in pair} == set(p.tables())}
            if pairs_of(got) != want or not direct.get(frozenset(p.tables()), set()) <= got:
                return False
        return True


class Progress(Contract):
    """the state of the graph, as seen from the tables"""
    target = f"{JG}:JoinGraph.initial"
    verify = [f"{JG}:JoinGraph.{m}" for m in ("initial", "contains_free_tables", "count_consumed_tables", "joined_tables", "free_tables", "contains_cross_products", "contains_free_n_m_joins")]
    props = P
    params = {"self": Any}
    bounded = True
    weight = 0.25
    gen = _graph()
    note = "bounded: queries over up to 5 tables, up to 4 joined tables"

    def ensures_states(self, result):
        f = free(self)
        done = set(self) - f
        return (self.initial() == (not done) and self.contains_free_tables() == bool(f) and self.count_consumed_tables() == len(done)
                and self.joined_tables() == done and self.free_tables() == f and all(self.is_free_table(t) == (t in f) for t in self))

    def ensures_cross_products(self, result):
        todo, joins = set(self), {frozenset(e) for e in self.all_joins()}
        seen = {todo.pop()}
        while True:
            more = {t for t in todo if any(frozenset([t, s]) in joins for s in seen)}
            if not more:
                return self.contains_cross_products() == bool(todo)
            seen |= more
            todo -= more

    def ensures_n_m(self, result):
        """there is such a join if one is available, and none if all tables that are joined like this are joined already"""
        got = self.contains_free_n_m_joins()
        open_ones = [(a, b) for a, b in self.all_joins() if self.is_n_m_join(a, b) and (self.is_free_table(a) or self.is_free_table(b))]
        return (got or not list(self.available_n_m_join_paths())) and (not got or bool(open_ones))


class Paths(Contract):
    """the available joins: all of them initially, later those between a joined and a free table"""
    target = f"{JG}:JoinGraph.available_join_paths"
    props = P
    params = {"self": Any, "both_directions_on_initial": Any}
    bounded = True
    weight = 0.5
    note = "bounded: queries over up to 5 tables, up to 4 joined tables"

    def gen(rng, size):
        from contracts import gens
        return {"self": gens.jg_graph(rng, equi=0), "both_directions_on_initial": rng.random() < 0.5}

    def ensures_exactly(self, both_directions_on_initial, result):
        joins, f = joins_of(self.query), free(self)
        got = [path(p) for p in result]
        if f == set(self):
            want = {(a, b, frozenset(joins[e])) for e in joins for a in e for b in e if a != b}
            return set(got) <= want and len(set(got)) == len(got) == len(joins) * (2 if both_directions_on_initial else 1) and {frozenset(p[:2]) for p in got} == set(joins)
        return multiset(got) == {(a, b, frozenset(joins[e])): 1 for e in joins for a in e for b in e if a not in f and b in f}


class NmPathsAll(Contract):
    """the available joins that are no pk/fk joins"""
    target = f"{JG}:JoinGraph.available_n_m_join_paths"
    family = "whole"
    props = P
    params = {"self": Any, "both_directions_on_initial": Any}
    bounded = True
    weight = 0.5
    gen = Paths.gen
    note = "bounded: queries over up to 5 tables, up to 4 joined tables"

    def ensures_exactly(self, both_directions_on_initial, result):
        joins, f, state = joins_of(self.query), free(self), valid(self)
        many = lambda a, b: not pk_fk(joins, state, a, b) and not pk_fk(joins, state, b, a)
        got = [path(p) for p in result]
        nm = [e for e in joins if many(*e)]
        if f == set(self):
            want = {(a, b, frozenset(joins[e])) for e in nm for a in e for b in e if a != b}
            return set(got) <= want and len(set(got)) == len(got) == len(nm) * (2 if both_directions_on_initial else 1) and {frozenset(p[:2]) for p in got} == set(nm)
        return multiset(got) == {(a, b, frozenset(joins[e])): 1 for e in nm for a in e for b in e if a not in f and b in f}


class PathsFor(Contract):
    """the available joins of one table"""
    target = f"{JG}:JoinGraph.available_join_paths_for"
    props = P
    params = {"self": Any, "table": Any}
    bounded = True
    weight = 0.5
    gen = _tables(1, outside=0.2, equi=0)
    raises = {"ValueError": "unknown"}
    note = "bounded: queries over up to 5 tables, up to 4 joined tables"

    def unknown(self, table):
        return table not in set(self.query.tables())

    def ensures_exactly(self, table, result):
        joins = joins_of(self.query)
        ok = usable(free(self), joins, self)
        return multiset(map(path, result)) == {(table, b, frozenset(joins[frozenset([table, b])])): 1 for b in self if b != table and ok(table, b)}


class Between(Contract):
    """what is known about a pair of tables"""
    target = f"{JG}:JoinGraph.joins_tables"
    verify = [f"{JG}:JoinGraph.{m}" for m in ("joins_tables", "is_available_join", "is_n_m_join")]
    family = "pairs"
    props = P
    params = {"self": Any, "first_table": Any, "second_table": Any}
    bounded = True
    weight = 0.5
    gen = _tables(2, equi=0)
    note = "bounded: queries over up to 5 tables, up to 4 joined tables"

    def ensures_edges(self, first_table, second_table, result):
        return self.joins_tables(first_table, second_table) == (frozenset([first_table, second_table]) in joins_of(self.query))

    def ensures_available(self, first_table, second_table, result):
        return self.is_available_join(first_table, second_table) == usable(free(self), joins_of(self.query), self)(first_table, second_table)

    def ensures_kind(self, first_table, second_table, result):
        joins, state = joins_of(self.query), valid(self)
        one, two = pk_fk(joins, state, first_table, second_table), pk_fk(joins, state, second_table, first_table)
        return (self.is_pk_fk_join(first_table, second_table) == one and self.is_pk_fk_join(second_table, first_table) == two
                and self.is_n_m_join(first_table, second_table) == (frozenset([first_table, second_table]) in joins and not one and not two))


class PkFkJoinsFor(Contract):
    """the joins of a table with tables whose primary key it references, unless both tables are joined already"""
    target = f"{JG}:JoinGraph.available_pk_fk_joins_for"
    props = P
    params = {"self": Any, "fk_table": Any}
    bounded = True
    weight = 0.5
    raises = {"ValueError": "unknown"}
    note = "bounded: queries over up to 5 tables, up to 4 joined tables"

    def gen(rng, size):
        from contracts import gens
        graph = gens.jg_graph(rng, equi=0)
        return {"self": graph, "fk_table": gens.jg_member(rng, graph, 0.2)}

    def unknown(self, fk_table):
        return fk_table not in set(self.query.tables())

    def ensures_exactly(self, fk_table, result):
        joins, f, state = joins_of(self.query), free(self), valid(self)
        return multiset(map(path, result)) == {(fk_table, b, frozenset(joins[frozenset([fk_table, b])])): 1 for b in self
                                               if b != fk_table and pk_fk(joins, state, fk_table, b) and (b in f or fk_table in f)}


class DeepPkJoins(Contract):
    """breadth-first along all pk/fk joins: each primary key table once, after the table that references it, in the demanded order"""
    target = f"{JG}:JoinGraph.available_deep_pk_join_paths_for"
    props = P
    params = {"self": Any, "fk_table": Any, "ordering": Any}
    bounded = True
    weight = 1.5
    raises = {"ValueError": "unknown"}
    note = "bounded: queries over up to 5 tables, up to 4 joined tables"

    def gen(rng, size):
        from contracts import gens
        graph = gens.jg_graph(rng, lo=2, equi=0, connected=1.0)
        return {"self": graph, "fk_table": gens.jg_member(rng, graph, 0.05), "ordering": rng.choice([None, by_name, by_name, by_partner])}

    def unknown(self, fk_table):
        return fk_table not in set(self.query.tables())

    def ensures_tables(self, fk_table, result):
        joins, state = joins_of(self.query), valid(self)
        want, todo = set(), [fk_table]
        while todo:
            t = todo.pop()
            for b in self:
                if b != fk_table and b not in want and b != t and pk_fk(joins, state, t, b):
                    want.add(b)
                    todo.append(b)
        got = [p.target_table for p in result]
        return len(got) == len(set(got)) and set(got) == want

    def ensures_paths(self, fk_table, result):
        joins, state = joins_of(self.query), valid(self)
        depth = {fk_table: 0}
        for p in result:
            if p.start_table not in depth or not pk_fk(joins, state, p.start_table, p.target_table) or conjuncts(p.join_condition) != joins[frozenset(p.tables())]:
                return False
            depth[p.target_table] = depth[p.start_table] + 1
        order = [depth[p.target_table] for p in result]
        return order == sorted(order)

    def ensures_order(self, fk_table, ordering, result):
        if ordering is None:
            return True
        place = {t: [ordering(p.target_table, {"predicate": p.join_condition}) for p in result if p.start_table == t] for t in self}
        return all(xs == sorted(xs) for xs in place.values())


def by_name(table, edge):
    return sum(map(ord, table.identifier()))


def by_partner(table, edge):
    return -sum(map(ord, table.identifier())) + len(str(edge["predicate"])) * 1000


class Partners(Contract):
    """the candidates that are joined with the table"""
    target = f"{JG}:JoinGraph.join_partners_from"
    props = P
    params = {"self": Any, "table": Any, "candidate_tables": Any}
    bounded = True
    weight = 0.5
    note = "bounded: queries over up to 5 tables, up to 4 joined tables"

    def gen(rng, size):
        from contracts import gens
        graph = gens.jg_graph(rng, equi=0)
        return {"self": graph, "table": gens.jg_member(rng, graph), "candidate_tables": [t for t in gens.qtables(rng, 3) + sorted(graph, key=str) if rng.random() < 0.5]}

    def ensures_exactly(self, table, candidate_tables, result):
        return set(result) == {t for t in candidate_tables if frozenset([t, table]) in joins_of(self.query)}


class PredicatesBetween(Contract):
    """the join predicates within the tables, or between both sets of tables"""
    target = f"{JG}:JoinGraph.join_predicates_between"
    props = P
    params = {"self": Any, "first_tables": Any, "second_tables": Any}
    bounded = True
    weight = 0.5
    note = "bounded: queries over up to 5 tables, up to 4 joined tables"

    def gen(rng, size):
        from contracts import gens
        graph = gens.jg_graph(rng, equi=0)
        tabs = sorted(graph, key=str)
        rng.shuffle(tabs)
        k = rng.randint(0, len(tabs))
        one, two = tabs[:k], [t for t in tabs[k:] if rng.random() < 0.9]
        shape = lambda ts: ts[0] if len(ts) == 1 and rng.random() < 0.5 else rng.choice([list, set, tuple, frozenset])(ts)
        return {"self": graph, "first_tables": shape(one), "second_tables": None if rng.random() < 0.4 else shape(two)}

    def ensures_exactly(self, first_tables, second_tables, result):
        many = lambda x: set(x) if isinstance(x, (list, set, tuple, frozenset)) else {x}
        one, two = many(first_tables), many(first_tables if second_tables is None else second_tables)
        want = [ps for e, ps in joins_of(self.query).items() for a in e for b in e if a != b and a in one and b in two]
        return {frozenset(conjuncts(p)) for p in result} == set(map(frozenset, want))


class MarkJoined(Contract):
    """only the table is joined; indexes that are no longer usable due to the join become invalid"""
    target = f"{JG}:JoinGraph.mark_joined"
    props = P
    params = {"self": Any, "table": Any, "join_edge": Any}
    modifies = ["self"]
    bounded = True
    weight = 1.5
    note = "bounded: queries over up to 5 tables, up to 4 joined tables"

    def gen(rng, size):
        from contracts import gens
        graph = gens.jg_graph(rng, lo=rng.choice([1, 3, 4]), equi=0, dense=rng.choice([0, 0, 3]))
        todo = sorted(graph.free_tables(), key=str) or sorted(graph, key=str)
        near = [t for t in todo if any(graph.joins_tables(t, j) for j in graph.joined_tables())] if rng.random() < 0.8 else todo
        linked = {t: sum(graph.joins_tables(t, j) for j in graph.joined_tables()) for t in todo}
        most = [t for t in todo if linked[t] == max(linked.values())]
        table = rng.choice(most if rng.random() < 0.5 else near or todo)
        edges = [p.join_condition for p in graph.available_join_paths_for(table)] if not graph.initial() else []
        return {"self": graph, "table": table, "join_edge": rng.choice(edges) if edges and graph.is_free_table(table) and rng.random() < 0.3 else None}

    def ensures_free(self, old_self, table):
        return free(self) == free(old_self) - {table}

    def ensures_same_joins(self, old_self):
        return set(self) == set(old_self) and {frozenset(e) for e in self.all_joins()} == {frozenset(e) for e in old_self.all_joins()} and self.query == old_self.query

    def ensures_indexes(self, old_self, table, join_edge):
        joins, state = joins_of(self.query), valid(old_self)
        if table not in free(old_self):
            return all(state.get(c) == k for c, k in valid(self).items())
        done = (set(self) - free(old_self)) | {table}
        lost = set()
        partners = [] if len(done) == 1 else [t for t in done if frozenset([t, table]) in joins]
        if join_edge is not None:
            partners = [t for t in partners if t in join_edge.tables()]
        for p in partners:
            references, referenced = pk_fk(joins, state, table, p), pk_fk(joins, state, p, table)
            if references and referenced:
                continue
            cols = set().union(*pairs_of(joins[frozenset([p, table])]))
            if references:
                lost |= {c for c in cols if c.table == p}
                continue
            lost |= {c for c in cols if c.table == table or not referenced}
            lost |= {c for c in state if c.table in done and c.table != p}
        return valid(self) == {c: k for c, k in state.items() if c not in lost}


class CloneGraph(Contract):
    """the same state, but independent of the original"""
    target = f"{JG}:JoinGraph.clone"
    props = P
    params = {"self": Any}
    bounded = True
    weight = 0.5
    gen = _graph()
    note = "bounded: queries over up to 5 tables, up to 4 joined tables"

    def ensures_same(self, result):
        return (result.query == self.query and free(result) == free(self) and valid(result) == valid(self) and {frozenset(e) for e in result.all_joins()} == {frozenset(e) for e in self.all_joins()}
                and {frozenset(p[:2]) | p[2] for p in map(path, result.available_join_paths())} == {frozenset(p[:2]) | p[2] for p in map(path, self.available_join_paths())})

    def ensures_independent(self, result):
        import copy
        was_free, was_valid, mine = free(self), valid(self), copy.deepcopy(self)
        for t in sorted(result.free_tables(), key=str):
            result.mark_joined(t)
        if (free(self), valid(self)) != (was_free, was_valid):
            return False
        twin = mine.clone()
        then_free, then_valid = free(twin), valid(twin)
        for t in sorted(mine.free_tables(), key=str):
            mine.mark_joined(t)
        return (free(twin), valid(twin)) == (then_free, then_valid)


class Components(Contract):
    """the connected parts of the graph, each with its own joins"""
    target = f"{JG}:JoinGraph.join_components"
    props = P
    params = {"self": Any}
    bounded = True
    weight = 0.5
    gen = _graph(marks=False, equi=0, connected=0.3)
    note = "bounded: queries over up to 5 tables"

    def ensures_partition(self, result):
        parts = [set(g) for g in result]
        return multiset(t for p in parts for t in p) == {t: 1 for t in self} and all(not g.contains_cross_products() for g in result)

    def ensures_joins(self, result):
        got = {}
        for g in result:
            got.update({frozenset(p[:2]): p[2] for p in map(path, g.available_join_paths())})
        return got == {e: frozenset(ps) for e, ps in joins_of(self.query).items()}

    def ensures_fresh(self, result):
        return all(g.initial() and set(g.query.tables()) == set(g) for g in result)


class TableState(Contract):
    """the state of one table, an error for others"""
    target = f"{JG}:JoinGraph.__getitem__"
    props = P
    params = {"self": Any, "key": Any}
    bounded = True
    weight = 0.5
    raises = {"KeyError": "unknown"}
    note = "bounded: queries over up to 5 tables, up to 4 joined tables"

    def gen(rng, size):
        from contracts import gens
        graph = gens.jg_graph(rng, equi=0)
        return {"self": graph, "key": gens.jg_member(rng, graph, 0.3)}

    def unknown(self, key):
        return key not in set(self.query.tables())

    def ensures_state(self, key, result):
        return result.free == self.is_free_table(key) and key in self and all(i.column.table == key for i in result.index_info)
