"""C11: predicates know exactly which tables and columns they join; queries decompose into joins and filters without loss."""
from pydv.api import *
from contracts.model import *

QAL = "postbound.qal._qal"
use(QAL, "BinaryPredicate", "BetweenPredicate", "InPredicate", "UnaryPredicate", "CompoundPredicate", "CompoundOperator", "LogicalOperator", "SimpleFilter", "SimpleJoin",
    "QueryPredicates", "ColumnExpression", "StaticValueExpression", "CastExpression", "SubqueryExpression", "_collect_column_expression_columns", "_normalize_join_pair",
    "determine_join_equivalence_classes", "generate_predicates_for_equivalence_classes", "as_predicate", "AbstractPredicate", "SqlExpression")
use(CORE, "TableReference", "ColumnReference")
P = ("C11",)


def _g(name, *a, **k):
    def g(rng, size):
        from contracts import gens
        return getattr(gens, name)(rng, *a, **k)
    return g


def _t(rng, size):
    from contracts import gens
    return gens.qtables(rng, 1)[0]


def _c(rng, size):
    from contracts import gens
    return gens.qcol(rng, gens.qtables(rng, 1)[0])


LogicalOp = EnumT("LogicalOp", [f"{QAL}:LogicalOperator"])
CompoundOp = EnumT("CompoundOp", [f"{QAL}:CompoundOperator"])
Tab = Ref("PrTable", [f"{CORE}:TableReference"], eq="term", opaque=True, gen=_t)
Col = Ref("PrColumn", [f"{CORE}:ColumnReference"], eq="term", opaque=True, truthy=True, gen=_c, attrs={"table": Tab})
Expr = Ref("PrExpr", [f"{QAL}:ColumnExpression", f"{QAL}:StaticValueExpression", f"{QAL}:CastExpression", f"{QAL}:MathExpression", f"{QAL}:SubqueryExpression"] + [f"{QAL}:{n}Expression" for n in ("Function", "Array", "ArrayAccess", "Case", "Window", "Star", "Quantifier")],
           eq="term", opaque=True, truthy=True, gen=_g("any_expr"), attrs={"columns()": Set(Col, "set"), "tables()": Set(Tab, "set")})
Expr.attrs.update({"column": Col, "value": Any, "casted_expression": Expr})
Pred = Ref("PrPred", [f"{QAL}:BinaryPredicate", f"{QAL}:BetweenPredicate", f"{QAL}:InPredicate", f"{QAL}:UnaryPredicate", f"{QAL}:CompoundPredicate"],
           eq="term", opaque=True, truthy=True, gen=_g("any_pred"))
Pred.attrs.update({"operation": Any, "first_argument": Expr, "second_argument": Expr, "column": Expr, "interval_start": Expr, "interval_end": Expr, "values": Seq(Expr, "tuple", 1),
                   "_children": Seq(Pred, "tuple", 1)})
Pair = TupT(Col, Col)


class BelongsTo(Contract):
    target = f"{CORE}:ColumnReference.belongs_to"
    props = P
    params = {"self": Col, "table": Tab}
    returns = Bool
    trusted = True
    note = "all columns are bound to tables (see C04)"

    def ensures(self, table, result):
        return result == (self.table == table)


class ColumnOrder(Contract):
    target = f"{CORE}:ColumnReference.__lt__"
    props = P
    params = {"self": Col, "other": Col}
    returns = Bool
    trusted = True
    note = "columns are ordered (see C04)"


class ColumnsOf(Contract):
    target = f"{QAL}:_collect_column_expression_columns"
    props = P
    params = {"expression": Expr}
    returns = Set(Col, "set")
    trusted = True
    note = "the columns of an expression outside of subqueries (bounded: see ExpressionColumns)"


class TablesOf(Contract):
    target = f"{QAL}:_collect_column_expression_tables"
    props = P
    params = {"expression": Expr}
    returns = Set(Tab, "set")

    def ensures(expression, result):
        return forall(result, lambda t: exists(_collect_column_expression_columns(expression), lambda c: c.table == t)) \
            and forall(_collect_column_expression_columns(expression), lambda c: c.table in result)


class Normalized(Contract):
    target = f"{QAL}:_normalize_join_pair"
    props = P
    params = {"columns": Pair}
    returns = Pair

    def ensures(columns, result):
        return result == ((columns[1], columns[0]) if columns[1] < columns[0] else (columns[0], columns[1]))


def normalized(a, b):
    return (b, a) if b < a else (a, b)


def cols(e):
    return _collect_column_expression_columns(e)


def linked(xs, ys):
    """columns of two distinct tables"""
    return exists(xs, lambda a: exists(ys, lambda b: a.table != b.table))


def links(xs, ys):
    return {normalized(a, b) for a in xs for b in ys if a.table != b.table}


class JoinPairs(Contract):
    """all pairs of columns of distinct tables"""
    target = f"{QAL}:_generate_join_pairs"
    props = P
    params = {"first_columns": Set(Col, "set"), "second_columns": Set(Col, "set")}
    returns = Set(Pair, "set")

    def ensures(first_columns, second_columns, result):
        return result == links(first_columns, second_columns)


def over(a, b):
    return linked(cols(a), cols(a)) or linked(cols(b), cols(b)) or linked(cols(a), cols(b))


@spec(Pred, ret=Bool)
def joins(p):
    """a predicate joins if it relates columns of two distinct tables"""
    return over(p.first_argument, p.second_argument) if is_instance_exact(p, BinaryPredicate) else (
        (over(p.column, p.interval_start) or over(p.column, p.interval_end)) if is_instance_exact(p, BetweenPredicate) else (
            exists(p.values, lambda v: over(p.column, v)) if is_instance_exact(p, InPredicate) else (
                linked(cols(p.column), cols(p.column)) if is_instance_exact(p, UnaryPredicate) else
                exists(p._children, lambda c: joins(c)))))


class IsJoin(Contract):
    target = f"{QAL}:AbstractPredicate.is_join"
    family = "PrPred"
    verify = [f"{QAL}:BinaryPredicate.is_join", f"{QAL}:BetweenPredicate.is_join", f"{QAL}:InPredicate.is_join", f"{QAL}:UnaryPredicate.is_join", f"{QAL}:CompoundPredicate.is_join"]
    props = P
    params = {"self": Pred}
    returns = Bool

    def ensures(self, result):
        return result == joins(self)


class IsFilter(Contract):
    target = f"{QAL}:AbstractPredicate.is_filter"
    props = P
    params = {"self": Pred}
    returns = Bool

    def ensures(self, result):
        return result == (not joins(self))


class Flatten(Contract):
    """exactly the elements of the nested sequences"""
    target = "postbound.util.collections:flatten"
    props = P
    params = {"xs": Seq(Seq(Expr))}
    returns = Seq(Expr)

    def ensures(xs, result):
        return set(result) == {e for s in xs for e in s}


@spec(Pred, ret=Set(Expr, "set"))
def parts(p):
    """the expressions directly contained in a predicate"""
    return {p.first_argument, p.second_argument} if is_instance_exact(p, BinaryPredicate) else (
        {p.column, p.interval_start, p.interval_end} if is_instance_exact(p, BetweenPredicate) else (
            {p.column} | set(p.values) if is_instance_exact(p, InPredicate) else (
                {p.column} if is_instance_exact(p, UnaryPredicate) else {e for c in p._children for e in parts(c)})))


class Expressions(Contract):
    target = f"{QAL}:AbstractPredicate.iterexpressions"
    family = "PrPred"
    verify = [f"{QAL}:{c}Predicate.iterexpressions" for c in ("Binary", "Between", "In", "Unary")]
    note = "compound predicates: see CompoundExpressions"
    props = P
    params = {"self": Pred}
    returns = Seq(Expr)

    def ensures(self, result):
        return forall(result, lambda e: e in parts(self)) and forall(parts(self), lambda e: e in result)


@spec(Pred, ret=Set(Col, "set"))
def columns_of(p):
    return p.first_argument.columns() | p.second_argument.columns() if is_instance_exact(p, BinaryPredicate) else (
        p.column.columns() | p.interval_start.columns() | p.interval_end.columns() if is_instance_exact(p, BetweenPredicate) else (
            p.column.columns() | {c for v in p.values for c in v.columns()} if is_instance_exact(p, InPredicate) else (
                p.column.columns() if is_instance_exact(p, UnaryPredicate) else {c for k in p._children for c in columns_of(k)})))


class Columns(Contract):
    """all columns of all parts"""
    target = f"{QAL}:AbstractPredicate.columns"
    family = "PrPred"
    verify = [f"{QAL}:{c}Predicate.columns" for c in ("Binary", "Between", "In", "Unary", "Compound")]
    props = P
    params = {"self": Pred}
    returns = Set(Col, "set")

    def ensures(self, result):
        return result == columns_of(self)


@spec(Pred, ret=Set(Pair, "set"))
def partners(p):
    """all pairs of columns of distinct tables that are compared with each other"""
    return linkage(p.first_argument, p.second_argument) if is_instance_exact(p, BinaryPredicate) else (
        linkage(p.column, p.interval_start) | linkage(p.column, p.interval_end) if is_instance_exact(p, BetweenPredicate) else (
            links(cols(p.column), cols(p.column)) | {q for v in p.values for q in links(cols(p.column), cols(v)) | links(cols(v), cols(v))} if is_instance_exact(p, InPredicate) else (
                links(cols(p.column), cols(p.column)) if is_instance_exact(p, UnaryPredicate) else
                {q for c in p._children if joins(c) for q in partners(c)})))


def linkage(a, b):
    return links(cols(a), cols(a)) | links(cols(b), cols(b)) | links(cols(a), cols(b))


class JoinPartners(Contract):
    """the columns of distinct tables that a join relates"""
    target = f"{QAL}:AbstractPredicate.join_partners"
    family = "PrPred"
    verify = [f"{QAL}:{c}Predicate.join_partners" for c in ("Binary", "Between", "Unary", "Compound")]
    note = "IN predicates: see InPartners"
    props = P
    params = {"self": Pred}
    returns = Set(Pair, "set")
    raises = {"NoJoinPredicateError": "no_join"}

    def no_join(self):
        return not joins(self) and not is_instance_exact(self, UnaryPredicate)

    def ensures(self, result):
        return result == partners(self)


class JoinsTable(Contract):
    target = f"{QAL}:AbstractPredicate.joins_table"
    props = P
    params = {"self": Pred, "table": Tab}
    returns = Bool

    def ensures(self, table, result):
        return result == (joins(self) and exists(partners(self), lambda a, b: a.table == table or b.table == table))


class JoinPartnersOf(Contract):
    target = f"{QAL}:AbstractPredicate.join_partners_of"
    props = P
    params = {"self": Pred, "table": Tab}
    returns = Set(Col, "set")
    raises = {"NoJoinPredicateError": "no_join"}

    def no_join(self, table):
        return not joins(self) and not is_instance_exact(self, UnaryPredicate)

    def ensures(self, table, result):
        return result == {b for a, b in partners(self) if a.table == table} | {a for a, b in partners(self) if b.table == table and a.table != table}


class ColumnsOfTable(Contract):
    target = f"{QAL}:AbstractPredicate.columns_of"
    props = P
    params = {"self": Pred, "table": Tab}
    returns = Set(Col, "set")

    def ensures(self, table, result):
        return result == {c for c in columns_of(self) if c.table == table}


class JoinsColumns(Contract):
    target = f"{QAL}:AbstractPredicate.joins_columns"
    props = P
    params = {"self": Pred, "a": Col, "b": Col}
    returns = Bool

    def ensures(self, a, b, result):
        return result == (joins(self) and a in columns_of(self) and b in columns_of(self))


class AllTables(Contract):
    target = f"{QAL}:AbstractPredicate.tables"
    props = P
    params = {"self": Pred}
    returns = Set(Tab, "set")

    def ensures(self, result):
        return result == {t for e in parts(self) for t in e.tables()}


class DistinctPartners(Lemma):
    """join partners always belong to distinct tables"""
    props = P
    params = {"p": Pred}

    def induct(p):
        return [(c,) for c in p._children]

    def lemma(p):
        return forall(partners(p), lambda a, b: a.table != b.table)


def _kind(cls):
    def g(rng, size):
        from contracts import gens
        while True:
            p = gens.any_pred(rng)
            if type(p).__name__ == cls:
                return p
    return g


class CompoundExpressions(Contract):
    target = f"{QAL}:CompoundPredicate.iterexpressions"
    props = P
    params = {"self": Pred}
    returns = Seq(Any)
    bounded = True
    gens = {"self": _kind("CompoundPredicate")}

    def ensures(self, result):
        return set(result) == parts(self)


class InPartners(Contract):
    target = f"{QAL}:InPredicate.join_partners"
    props = P
    params = {"self": Pred}
    bounded = True
    gens = {"self": _kind("InPredicate")}
    raises = {"NoJoinPredicateError": "no_join"}

    def no_join(self):
        return not joins(self)

    def ensures(self, result):
        return result == partners(self)


def children(e):
    """the direct children of an expression, by kind"""
    n = type(e).__name__
    if isinstance(e, AbstractPredicate):
        return list(parts(e))
    opt = lambda *xs: [x for x in xs if x is not None]
    if n == "CastExpression":
        return [e.casted_expression] + list(e.type_params)
    if n == "MathExpression":
        return [e.first_arg] + (list(e.second_arg) if isinstance(e.second_arg, tuple) else opt(e.second_arg))
    if n == "FunctionExpression":
        return list(e.arguments) + opt(e.filter_where)
    if n == "ArrayExpression":
        return list(e.elements)
    if n == "ArrayAccessExpression":
        return opt(e.array, e.index, e.lower_index, e.upper_index)
    if n == "CaseExpression":
        return [x for c in e.cases for x in c] + opt(e.simple_expression, e.else_expression)
    if n == "WindowExpression":
        return list(e.window_function.arguments) + list(e.partitioning) + ([o.column for o in e.ordering.expressions] if e.ordering else []) + opt(e.filter_condition)
    if n == "QuantifierExpression":
        return [e.expression]
    return []


def leaves(e):
    cs = children(e)
    return [x for c in cs for x in leaves(c)] if cs else [e]


class ExpressionColumns(Contract):
    """the columns of an expression are the columns of all of its parts, except for those of subqueries"""
    target = f"{QAL}:_collect_column_expression_columns"
    props = P
    params = {"expression": Expr}
    bounded = True

    def ensures(expression, result):
        return result == {x.column for x in leaves(expression) if isinstance(x, ColumnExpression)}


class AllExpressionColumns(Lemma):
    """columns and tables of an expression are those of all of its parts"""
    props = P
    params = {"e": Expr}
    bounded = True

    def lemma(e):
        cs = set()
        ts = set()
        for x in leaves(e):
            cs |= {x.column} if isinstance(x, ColumnExpression) else (x.query.columns() if isinstance(x, SubqueryExpression) else set())
            ts |= {x.column.table} if isinstance(x, ColumnExpression) else (x.query.tables() if isinstance(x, SubqueryExpression) else set())
        return e.columns() == cs and set(e.itercolumns()) == cs and e.tables() == ts


def _rebuilt(rng, size):
    """a predicate and an independent copy, possibly with permuted IN lists"""
    from contracts import gens
    import copy
    p = gens.any_pred(rng)
    return p


def rebuild(e, flip=False):
    """an equal expression that shares no objects"""
    from postbound import qal as q
    r = lambda x: rebuild(x, flip)
    n = type(e).__name__
    if n == "CompoundPredicate":
        return CompoundPredicate(e.operation, [r(c) for c in e._children])
    if n == "BinaryPredicate":
        return BinaryPredicate(e.operation, r(e.first_argument), r(e.second_argument))
    if n == "BetweenPredicate":
        return BetweenPredicate(r(e.column), (r(e.interval_start), r(e.interval_end)))
    if n == "InPredicate":
        vs = [r(v) for v in e.values]
        return InPredicate(r(e.column), vs[::-1] + vs[:1] if flip else vs)
    if n == "UnaryPredicate":
        return UnaryPredicate(r(e.column), e.operation)
    if n == "ColumnExpression":
        return ColumnExpression(ColumnReference(e.column.name, TableReference(e.column.table.full_name, e.column.table.alias)))
    if n == "StaticValueExpression":
        return StaticValueExpression(e.value)
    if n == "CastExpression":
        return CastExpression(r(e.casted_expression), e.target_type, type_params=[r(x) for x in e.type_params])
    if n == "MathExpression":
        return q.MathExpression(e.operator, r(e.first_arg), [r(x) for x in e.second_arg] if isinstance(e.second_arg, tuple) else (r(e.second_arg) if e.second_arg is not None else None))
    if n == "FunctionExpression":
        return q.FunctionExpression(e.function, [r(x) for x in e.arguments], distinct=e.distinct, filter_where=r(e.filter_where) if e.filter_where else None)
    return e


class EqualPredicates(Lemma):
    """equality of predicates is structural (values of IN predicates are a set) and agrees with hashing"""
    props = P
    params = {"a": Pred, "b": Pred}
    bounded = True

    def lemma(a, b):
        c, d = rebuild(a), rebuild(a, True)
        return a == c and a == d and hash(a) == hash(c) and hash(a) == hash(d) and not (a != c) \
            and implies(a == b, hash(a) == hash(b) and joins(a) == joins(b) and columns_of(a) == columns_of(b)) and (a == b) == (b == a)


class BasePredicates(Contract):
    target = f"{QAL}:AbstractPredicate.base_predicates"
    family = "PrPred"
    verify = [f"{QAL}:BasePredicate.base_predicates", f"{QAL}:CompoundPredicate.base_predicates"]
    props = P
    params = {"self": Pred}
    bounded = True

    def ensures(self, result):
        return set(result) == bases(self)


def bases(p):
    return {b for c in p._children for b in bases(c)} if is_instance_exact(p, CompoundPredicate) else {p}


def collected(p, want):
    """conjunctions are split, disjunctions are reduced to the wanted members, negations are kept as a whole"""
    if not isinstance(p, CompoundPredicate) or p.operation == CompoundOperator.Not:
        return {p} if joins(p) == want else set()
    if p.operation == CompoundOperator.And:
        return {x for c in p._children for x in collected(c, want)}
    members = [c for c in p._children if joins(c) == want]
    return {CompoundPredicate(CompoundOperator.Or, members)} if len(members) > 1 else set(members)


class CollectFilters(Contract):
    target = f"{QAL}:_collect_filter_predicates"
    props = P
    params = {"predicate": Pred}
    bounded = True

    def ensures(predicate, result):
        return result == collected(predicate, False) and forall(result, lambda f: f.is_filter() and not f.is_join())


class CollectJoins(Contract):
    target = f"{QAL}:_collect_join_predicates"
    props = P
    params = {"predicate": Pred}
    bounded = True

    def ensures(predicate, result):
        return result == collected(predicate, True) and forall(result, lambda f: f.is_join() and not f.is_filter())


Preds = Ref("QueryPreds", [f"{QAL}:QueryPredicates"], eq="term", opaque=True, gen=_g("query_predicates"))


def fs(q):
    return set() if q.is_empty() else collected(q.root, False)


def js(q):
    return set() if q.is_empty() else collected(q.root, True)


def conj(p):
    """the members of a conjunction"""
    if p is None:
        return set()
    return {x for c in p._children for x in conj(c)} if isinstance(p, CompoundPredicate) and p.operation == CompoundOperator.And else {p}


def between(q, xs, ys):
    keys = {frozenset([x, y]) for x in xs for y in ys}
    return {x for j in js(q) for x in conj(j) if exists(partners(j), lambda a, b: frozenset([a.table, b.table]) in keys)}


class FiltersOf(Contract):
    """the filters of a query are exactly its filter parts"""
    target = f"{QAL}:QueryPredicates.filters"
    props = P
    params = {"self": Preds}
    bounded = True

    def ensures(self, result):
        return set(result) == fs(self) and len(result) == len(fs(self))


class JoinsOf(Contract):
    target = f"{QAL}:QueryPredicates.joins"
    props = P
    params = {"self": Preds}
    bounded = True

    def ensures(self, result):
        return set(result) == js(self) and len(result) == len(js(self))


class NothingLost(Lemma):
    """a conjunctive query holds if and only if all of its joins and filters hold"""
    props = P
    params = {"q": Preds}
    bounded = True

    def requires(q):
        return not q.is_empty()

    def lemma(q):
        plain = [p for p in conj(q.root)]
        return implies(forall(plain, lambda p: not isinstance(p, CompoundPredicate) or p.operation == CompoundOperator.Not),
                       set(q.filters()) | set(q.joins()) == set(plain)) and not (set(q.filters()) & set(q.joins())) and set(q) == set(q.filters()) | set(q.joins())


TABS = ["r", "s", "t", "u", "v"]


def all_tables():
    return [TableReference(n) for n in TABS] + [TableReference(n, "x" + n) for n in TABS]


def _tab(rng, size):
    return rng.choice(all_tables())


def _tabset(rng, size):
    return frozenset(rng.sample(all_tables(), rng.randint(1, 4)))


class FiltersFor(Contract):
    """exactly the filters on the table"""
    target = f"{QAL}:QueryPredicates.filters_for"
    props = P
    params = {"self": Preds, "table": Tab}
    bounded = True
    gens = {"table": _tab}

    def ensures(self, table, result):
        return conj(result) == {x for f in fs(self) if table in f.tables() for x in conj(f)} and (result is None or not result.is_join())


class JoinsFor(Contract):
    """exactly the joins of the table, one predicate for each group of join partners"""
    target = f"{QAL}:QueryPredicates.joins_for"
    props = P
    params = {"self": Preds, "table": Tab}
    bounded = True
    gens = {"table": _tab}

    def ensures(self, table, result):
        want = {j for j in js(self) if table in j.tables()}
        groups = {}
        for j in want:
            ps = partners(j)
            others = frozenset({b.table for a, b in ps if a.table == table} | {a.table for a, b in ps if b.table == table})
            groups.setdefault(others, set()).add(j)
        return len(result) == len(groups) and forall(groups.values(), lambda g: exists(result, lambda r: conj(r) == {x for j in g for x in conj(j)}))


class JoinsBetween(Contract):
    """exactly the joins that relate the tables with each other"""
    target = f"{QAL}:QueryPredicates.joins_between"
    props = P
    params = {"self": Preds, "first_table": Tab, "second_table": Tab}
    bounded = True
    gens = {"first_table": _tab, "second_table": _tab}

    def ensures(self, first_table, second_table, result):
        want = between(self, [first_table], [second_table])
        other = [self.joins_between(first_table, second_table, _computation=c) for c in ("legacy", "graph")]
        return conj(result) == want and forall(other, lambda o: conj(o) == want) and self.joins_between(second_table, first_table) == result


class JoinsBetweenSets(Contract):
    target = f"{QAL}:QueryPredicates.joins_between"
    props = P
    params = {"self": Preds, "first_table": Set(Tab), "second_table": Set(Tab)}
    bounded = True
    gens = {"first_table": _tabset, "second_table": _tabset}

    def ensures(self, first_table, second_table, result):
        want = between(self, first_table, second_table)
        return conj(result) == want and conj(self.joins_between(first_table, second_table, _computation="legacy")) == want


def connected(tables, links):
    groups = [{t} for t in tables]
    for a, b in links:
        touched = [g for g in groups if a in g or b in g]
        groups = [g for g in groups if a not in g and b not in g] + [set().union(*touched)]
    return len(groups) <= 1


class JoinsTables(Contract):
    """tables are joined if the joins among them connect all of them"""
    target = f"{QAL}:QueryPredicates.joins_tables"
    props = P
    params = {"self": Preds, "tables": Set(Tab)}
    bounded = True
    gens = {"tables": lambda rng, size: frozenset(rng.sample(all_tables(), rng.choice([1, 2, 2, 3])))}

    def ensures(self, tables, result):
        edges = [(a.table, b.table) for j in js(self) for a, b in partners(j) if a.table in tables and b.table in tables]
        return result == (not self.is_empty() and (list(tables)[0] in self.root.tables() if len(tables) == 1 else connected(tables, edges)))


class JoinsAllTables(Lemma):
    props = P
    params = {"q": Preds}
    bounded = True

    def requires(q):
        return not q.is_empty() and len(q.root.tables()) > 1

    def lemma(q):
        ts = q.root.tables()
        edges = [(a.table, b.table) for j in js(q) for a, b in partners(j)]
        return q.joins_tables(ts) == connected(ts, edges)


class JoinGraph(Contract):
    """tables with their filters, and exactly the joined pairs of tables with their joins"""
    target = f"{QAL}:QueryPredicates.join_graph"
    props = P
    params = {"self": Preds}
    bounded = True

    def ensures(self, result):
        if self.is_empty():
            return len(result.nodes) == 0
        pairs = {frozenset([a.table, b.table]) for j in js(self) for a, b in partners(j)}
        return set(result.nodes) == self.root.tables() and {frozenset(e) for e in result.edges} == pairs \
            and forall(result.nodes, lambda t: conj(result.nodes[t]["predicate"]) == {x for f in fs(self) if t in f.tables() for x in conj(f)}) \
            and forall(list(result.edges), lambda a, b: conj(result.edges[a, b]["predicate"]) == between(self, [a], [b]))


class MergedJoinGraph(Lemma):
    """occurrences of the same table are one node"""
    props = P
    params = {"q": Preds}
    bounded = True

    def requires(q):
        return not q.is_empty()

    def lemma(q):
        g = q.join_graph(merge_aliases=True)
        base = lambda t: t.drop_alias()
        pairs = {frozenset([base(a.table), base(b.table)]) for j in js(q) for a, b in partners(j)}
        return set(g.nodes) == {base(t) for t in q.root.tables()} and {frozenset(e) for e in g.edges} == pairs \
            and forall(g.nodes, lambda t: set(g.nodes[t]["aliases"]) == {x for x in q.root.tables() if base(x) == t})


class AndPredicates(Contract):
    """both predicates hold"""
    target = f"{QAL}:QueryPredicates.and_"
    props = P
    params = {"self": Preds, "other_predicate": Preds}
    bounded = True

    def ensures(self, other_predicate, result):
        return fs(result) == fs(self) | fs(other_predicate) and js(result) == js(self) | js(other_predicate) \
            and result.is_empty() == (self.is_empty() and other_predicate.is_empty()) and bool(result) == (not result.is_empty())


class AndPredicate(Contract):
    target = f"{QAL}:QueryPredicates.and_"
    props = P
    params = {"self": Preds, "other_predicate": Pred}
    bounded = True

    def ensures(self, other_predicate, result):
        return conj(result.root) == conj(other_predicate) | (set() if self.is_empty() else conj(self.root))


class EqualQueryPredicates(Lemma):
    props = P
    params = {"a": Preds, "b": Preds}
    bounded = True

    def lemma(a, b):
        c = QueryPredicates(None if a.is_empty() else rebuild(a.root, True))
        return a == c and hash(a) == hash(c) and implies(a == b, hash(a) == hash(b))


def unwrapped(e):
    """columns and static values below casts"""
    if isinstance(e, CastExpression):
        return unwrapped(e.casted_expression)
    return e.column if isinstance(e, ColumnExpression) else (e.value if isinstance(e, StaticValueExpression) else NotImplemented)


MIRRORED = {"=": "=", "<>": "<>", "<": ">", "<=": ">=", ">": "<", ">=": "<=", "IS DISTINCT FROM": "IS DISTINCT FROM", "IS NOT DISTINCT FROM": "IS NOT DISTINCT FROM",
            "@>": "<@", "<@": "@>", "&&": "&&"}


def simple_filter(p):
    """(column, operation, value) of a simple filter"""
    if joins(p) or isinstance(p, CompoundPredicate):
        return None
    col = lambda x: isinstance(x, ColumnReference)
    if isinstance(p, BinaryPredicate):
        a, b = unwrapped(p.first_argument), unwrapped(p.second_argument)
        if a is NotImplemented or b is NotImplemented:
            return None
        if col(a):
            return a, p.operation.value, b
        return (b, MIRRORED[p.operation.value], a) if col(b) and p.operation.value in MIRRORED else None
    if isinstance(p, UnaryPredicate):
        return None
    rest = [p.interval_start, p.interval_end] if isinstance(p, BetweenPredicate) else list(p.values)
    a, vs = unwrapped(p.column), [unwrapped(v) for v in rest]
    return (a, "BETWEEN" if isinstance(p, BetweenPredicate) else "IN", tuple(vs)) if col(a) and all([v is not NotImplemented for v in vs]) else None


def _simple(rng, size):
    from contracts import gens
    return gens.base_pred(rng, gens.qtables(rng, 1) if rng.random() < 0.6 else gens.qtables(rng, 2), rng.choice([0, 0, 1])) if rng.random() < 0.9 else gens.any_pred(rng)


class CanSimplifyFilter(Contract):
    target = f"{QAL}:SimpleFilter.can_wrap"
    props = P
    params = {"predicate": Pred}
    bounded = True
    gens = {"predicate": _simple}

    def ensures(predicate, result):
        return result == (simple_filter(predicate) is not None)


class SimplifiedFilter(Contract):
    """the simplified filter is the filter, with the column on the left"""
    target = f"{QAL}:SimpleFilter.wrap"
    props = P
    params = {"predicate": Pred}
    bounded = True
    gens = {"predicate": _simple}
    raises = {"ValueError": "complex"}

    def complex(predicate):
        return simple_filter(predicate) is None

    def ensures(predicate, result):
        col, op, val = simple_filter(predicate)
        return result.column == col and result.operation.value == op and same(result.value, val) and type(result.value) is type(val) and result.unwrap() == predicate \
            and result.is_filter() and not result.is_join() and result.columns() == {col} and result.join_partners() == set() and result == SimpleFilter(rebuild(predicate)) \
            and hash(result) == hash(SimpleFilter(rebuild(predicate, True)))


def simple_join(p):
    if not isinstance(p, BinaryPredicate) or p.operation != LogicalOperator.Equal or not joins(p):
        return None
    a, b = unwrapped(p.first_argument), unwrapped(p.second_argument)
    return (a, b) if isinstance(a, ColumnReference) and isinstance(b, ColumnReference) else None


class CanSimplifyJoin(Contract):
    target = f"{QAL}:SimpleJoin.can_wrap"
    props = P
    params = {"predicate": Pred}
    bounded = True
    gens = {"predicate": _simple}

    def ensures(predicate, result):
        return result == (simple_join(predicate) is not None)


class SimplifiedJoin(Contract):
    target = f"{QAL}:SimpleJoin.wrap"
    props = P
    params = {"predicate": Pred}
    bounded = True
    gens = {"predicate": _simple}
    raises = {"ValueError": "complex"}

    def complex(predicate):
        return simple_join(predicate) is None

    def ensures(predicate, result):
        a, b = simple_join(predicate)
        return result.lhs == a and result.rhs == b and result.unwrap() == predicate and result.is_join() and result.columns() == {a, b} \
            and result.join_partners() == predicate.join_partners() and hash(result) == hash(SimpleJoin(rebuild(predicate)))


def _sjoin(rng, size):
    from contracts import gens
    while True:
        p = gens.join_pred(rng, *gens.qtables(rng, 2))
        if p.operation == LogicalOperator.Equal:
            return SimpleJoin(p)


SJoin = Ref("SJoin", [f"{QAL}:SimpleJoin"], eq="term", opaque=True, gen=_sjoin, attrs={"lhs": Col, "rhs": Col})


def _joined_tab(rng, size):
    return rng.choice(all_tables())


class JoinsThat(Contract):
    target = f"{QAL}:SimpleJoin.joins"
    props = P
    params = {"self": SJoin, "partner": Tab}
    returns = Bool
    gens = {"partner": _joined_tab}

    def ensures(self, partner, result):
        return result == (self.lhs.table == partner or self.rhs.table == partner)


class JoinsThatColumn(Contract):
    target = f"{QAL}:SimpleJoin.joins"
    props = P
    params = {"self": SJoin, "partner": Col}
    returns = Bool

    def ensures(self, partner, result):
        return result == (self.lhs == partner or self.rhs == partner)


class PartnerOf(Contract):
    """the other table of the join"""
    target = f"{QAL}:SimpleJoin.partner_of"
    props = P
    params = {"self": SJoin, "other": Tab}
    returns = Opt(Tab)
    gens = {"other": _joined_tab}

    def ensures(self, other, result):
        return result == (self.rhs.table if self.lhs.table == other else (self.lhs.table if self.rhs.table == other else None))


class PartnerOfColumn(Contract):
    target = f"{QAL}:SimpleJoin.partner_of"
    props = P
    params = {"self": SJoin, "other": Col}
    returns = Opt(Col)

    def ensures(self, other, result):
        return result == (self.rhs if self.lhs == other else (self.lhs if self.rhs == other else None))


class SimplePartners(Contract):
    target = f"{QAL}:SimpleJoin.join_partners"
    props = P
    params = {"self": SJoin}
    returns = Set(Pair, "set")

    def ensures(self, result):
        return result == {normalized(self.lhs, self.rhs)}


class SimpleColumns(Contract):
    target = f"{QAL}:SimpleJoin.columns"
    props = P
    params = {"self": SJoin}
    returns = Set(Col, "set")

    def ensures(self, result):
        return result == {self.lhs, self.rhs}


class Simplified(Contract):
    """exactly the simple filters and joins"""
    target = f"{QAL}:QueryPredicates.simplify"
    props = P
    params = {"self": Preds}
    bounded = True

    def ensures(self, result):
        return {r.unwrap() for r in result} == {f for f in fs(self) if simple_filter(f) is not None} | {j for j in js(self) if simple_join(j) is not None} \
            and len(result) == len({r.unwrap() for r in result})


class AllSimple(Contract):
    target = f"{QAL}:QueryPredicates.all_simple"
    props = P
    params = {"self": Preds}
    bounded = True

    def ensures(self, result):
        return result == (all([simple_filter(f) is not None for f in fs(self)]) and all([simple_join(j) is not None for j in js(self)]))


def _joinlist(rng, size):
    from contracts import gens
    tabs = gens.qtables(rng, 4)
    return [gens.join_pred(rng, *rng.sample(tabs, 2)) if rng.random() < 0.8 else gens.base_pred(rng, tabs, 1) for _ in range(rng.randint(0, 6))]


def closure(pairs):
    classes = []
    for a, b in pairs:
        hit = [c for c in classes if a in c or b in c]
        classes = [c for c in classes if c not in hit] + [frozenset([a, b]).union(*hit)]
    return set(classes)


class EquivalenceClasses(Contract):
    """columns are equivalent if and only if a chain of equi-joins connects them"""
    target = f"{QAL}:determine_join_equivalence_classes"
    props = P
    params = {"predicates": Seq(Pred)}
    bounded = True
    gens = {"predicates": _joinlist}

    def ensures(predicates, result):
        return result == closure([simple_join(p) for p in predicates if simple_join(p) is not None])


class EquivalencePredicates(Lemma):
    """all columns of a class are joined with each other, and nothing else"""
    props = P
    params = {"predicates": Seq(Pred)}
    bounded = True
    gens = {"predicates": _joinlist}

    def lemma(predicates):
        classes = determine_join_equivalence_classes(predicates)
        generated = generate_predicates_for_equivalence_classes(classes)
        pairs = {frozenset([p.first_argument.column, p.second_argument.column]) for p in generated}
        return pairs == {frozenset([a, b]) for c in classes for a in c for b in c if a != b} and forall(generated, lambda p: p.operation == LogicalOperator.Equal) \
            and len(generated) == len(pairs)


class Created(Contract):
    """one predicate needs no conjunction"""
    target = f"{QAL}:CompoundPredicate.create"
    props = P
    params = {"operation": CompoundOp, "parts": Seq(Pred)}
    bounded = True
    raises = {"ValueError": "wrong_number"}

    def wrong_number(operation, parts):
        return len(parts) != 1 if operation == CompoundOperator.Not else len(parts) == 0

    def ensures(operation, parts, result):
        return result == (parts[0] if len(parts) == 1 and operation != CompoundOperator.Not else CompoundPredicate(operation, parts)) \
            and ((len(parts) == 1 and operation != CompoundOperator.Not) or (result.operation == operation and seq_eq(result._children, parts)))


class CreatedAnd(Contract):
    target = f"{QAL}:CompoundPredicate.create_and"
    props = P
    params = {"parts": Seq(Pred)}
    bounded = True
    raises = {"ValueError": "none"}

    def none(parts):
        return len(parts) == 0

    def ensures(parts, result):
        return result == parts[0] if len(parts) == 1 else (result.operation == CompoundOperator.And and seq_eq(result.children, parts))


class CreatedOr(Contract):
    target = f"{QAL}:CompoundPredicate.create_or"
    props = P
    params = {"parts": Seq(Pred)}
    bounded = True
    raises = {"ValueError": "none"}

    def none(parts):
        return len(parts) == 0

    def ensures(parts, result):
        return result == parts[0] if len(parts) == 1 else (result.operation == CompoundOperator.Or and seq_eq(result.children, parts))


class NewCompound(Lemma):
    """negations have one child, conjunctions and disjunctions at least two"""
    props = P
    params = {"op": CompoundOp, "ps": Seq(Pred)}
    bounded = True

    def lemma(op, ps):
        ok = len(ps) == 1 if op == CompoundOperator.Not else len(ps) > 1
        try:
            p = CompoundPredicate(op, ps)
        except ValueError:
            return not ok
        return ok and p.operation == op and seq_eq(p._children, ps)


class AsPredicate(Lemma):
    """predicates from columns, operators and values"""
    props = P
    params = {"c": Col, "d": Col, "op": LogicalOp, "x": Int}
    bounded = True

    def lemma(c, d, op, x):
        lhs = ColumnExpression(c)
        if op == LogicalOperator.Between:
            want = BetweenPredicate(lhs, (StaticValueExpression(x), ColumnExpression(d)))
            return as_predicate(c, op, x, d) == want and as_predicate(c, op, (x, d)) == want and as_predicate(c, "between", x, d) == want
        if op == LogicalOperator.In:
            want = InPredicate(lhs, [StaticValueExpression(x), ColumnExpression(d)])
            return as_predicate(c, op, x, d) == want and as_predicate(c, op, [x, d]) == want and as_predicate(c, "in", x, d) == want
        return as_predicate(c, op, x) == BinaryPredicate(op, lhs, StaticValueExpression(x)) and as_predicate(c, op.value.lower(), d) == BinaryPredicate(op, lhs, ColumnExpression(d))
