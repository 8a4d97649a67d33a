"""C15: taking predicates (and queries) apart keeps exactly what it should."""
from pydv.api import *
from contracts.model import CORE

TRF = "postbound.transform"
QAL = "postbound.qal._qal"
COL = "postbound.util.collections"
use(TRF, "flatten_and_predicate", "_get_predicate_fragment", "remove_predicate", "_perform_predicate_replacement")
use(QAL, "CompoundPredicate", "CompoundOperator")
P = ("C15",)


def _gen(kind):
    def g(rng, size):
        from contracts import gens
        return getattr(gens, kind)(rng)
    return g


def _tab(rng, size):
    from contracts import gens
    return gens.qtables(rng, 1)[0]


CompoundOp = EnumT("CompoundOp", [f"{QAL}:CompoundOperator"])
Tab = Ref("SgTable", [f"{CORE}:TableReference"], eq="term", opaque=True, gen=_tab)
Tabs = Set(Tab, "set")
Pred = Ref("SgPred", [f"{QAL}:BinaryPredicate", f"{QAL}:BetweenPredicate", f"{QAL}:InPredicate", f"{QAL}:UnaryPredicate", f"{QAL}:CompoundPredicate"],
           eq="term", opaque=True, truthy=True, gen=_gen("nested_pred"), attrs={"tables()": Tabs, "operation": CompoundOp})
Pred.attrs["_children"] = Seq(Pred, "tuple", 1)


def compound(p):
    return is_instance_exact(p, CompoundPredicate)


def is_op(p, op):
    return is_instance_exact(p, CompoundPredicate) and p.operation == op


def truth(p):
    """an arbitrary interpretation of base predicates"""
    return hash(p) % 2 == 0


@spec(Pred, ret=Bool)
def sat(p):
    """whether a predicate holds"""
    return truth(p) if not compound(p) else (
        not sat(p._children[0]) if p.operation == CompoundOperator.Not else (
            forall(p._children, lambda c: sat(c)) if p.operation == CompoundOperator.And else exists(p._children, lambda c: sat(c))))


@spec(Pred, ret=Set(Pred, "set"))
def conjuncts(p):
    return {k for c in p._children for k in conjuncts(c)} if is_op(p, CompoundOperator.And) else {p}


def parts(p):
    return set(p._children) if is_op(p, CompoundOperator.And) else {p}


@invariant(Pred)
def operators(p):
    return not compound(p) or ((p.operation == CompoundOperator.And or p.operation == CompoundOperator.Or) and len(p._children) >= 2
                               or p.operation == CompoundOperator.Not and len(p._children) == 1)


class MakeCompound(Contract):
    target = f"{QAL}:CompoundPredicate.__init__"
    props = P
    constructs = True
    trusted = True
    note = "compound predicates store what they are given (see C13)"
    params = {"operation": CompoundOp, "children": Seq(Pred)}
    returns = Pred

    raises = {"ValueError": "wrong_number"}

    def wrong_number(operation, children):
        return len(children) != 1 if operation == CompoundOperator.Not else len(children) < 2

    def ensures(operation, children, result):
        return compound(result) and result.operation == operation and same(result._children, tuple(children))


class MakeNegation(Contract):
    target = f"{QAL}:CompoundPredicate.__init__"
    props = P
    constructs = True
    trusted = True
    note = "compound predicates store what they are given (see C13)"
    params = {"operation": EnumMember(CompoundOp, f"{QAL}:CompoundOperator", "Not"), "children": Pred}
    returns = Pred

    def ensures(operation, children, result):
        return compound(result) and result.operation == operation and same(result._children, (children,))


class MakeAnd(Contract):
    target = f"{QAL}:CompoundPredicate.create_and"
    props = P
    params = {"parts": Set(Pred, "set")}
    returns = Pred
    raises = {"ValueError": "none"}

    def none(parts):
        return len(parts) == 0

    def ensures_single(parts, result):
        return implies(len(parts) == 1, result in parts)

    def ensures_all(parts, result):
        return implies(len(parts) != 1, is_op(result, CompoundOperator.And) and forall(parts, lambda c: c in result._children) and forall(result._children, lambda c: c in parts))


class Conjuncts(Lemma):
    """predicates consist of at least one conjunct, none of which is a conjunction"""
    props = P
    params = {"p": Pred}

    def induct(p):
        return [(c,) for c in p._children]

    def lemma(p):
        return exists(conjuncts(p), lambda c: True) and (is_op(p, CompoundOperator.And) or conjuncts(p) == {p}) and forall(conjuncts(p), lambda c: not is_op(c, CompoundOperator.And))


class ConjunctsHold(Lemma):
    """a predicate holds if and only if its conjuncts do"""
    props = P
    params = {"p": Pred}

    def induct(p):
        return [(c,) for c in p._children]

    def lemma(p):
        return sat(p) == forall(conjuncts(p), lambda c: sat(c))


class Flatten(Contract):
    target = f"{TRF}:flatten_and_predicate"
    props = P
    params = {"predicate": Pred}
    returns = Pred
    invariants = {0: ("inv", {"flattened_children": Set(Pred, "set"), "flattened_child": Pred})}

    def inv(k, predicate, flattened_children):
        return forall_index(k, lambda i: forall(conjuncts(predicate._children[i]), lambda c: c in flattened_children)) \
            and forall(flattened_children, lambda c: exists_index(k, lambda i: c in conjuncts(predicate._children[i])))

    def uses(predicate):
        return [Conjuncts(c) for c in predicate._children]

    def ensures_none_lost(predicate, result):
        return conjuncts(predicate) <= parts(result)

    def ensures_none_added(predicate, result):
        return parts(result) <= conjuncts(predicate)


class FlattenTruth(Lemma):
    """flat conjunctions hold if and only if the original predicate does"""
    props = P
    params = {"p": Pred}

    def uses(p):
        return [Conjuncts(p), ConjunctsHold(p)]

    def lemma(p):
        r = flatten_and_predicate(p)
        return sat(r) == sat(p) and forall(parts(r), lambda c: not is_op(c, CompoundOperator.And))


# ---------------------------------------------------------------- fragments

@spec(Pred, Tabs, ret=Bool)
def kept(p, t):
    """some part of the predicate needs no other tables"""
    return p.tables() <= t if not compound(p) else exists(p._children, lambda c: kept(c, t))


@spec(Pred, Tabs, ret=Bool)
def fsat(p, t):
    """whether the parts of a predicate that need no other tables hold"""
    return truth(p) if not compound(p) else (
        not fsat(p._children[0], t) if p.operation == CompoundOperator.Not else (
            forall(p._children, lambda c: implies(kept(c, t), fsat(c, t))) if p.operation == CompoundOperator.And else
            exists(p._children, lambda c: kept(c, t) and fsat(c, t))))


@spec(Pred, Tabs, ret=Bool)
def within(p, t):
    return p.tables() <= t if not compound(p) else forall(p._children, lambda c: within(c, t))


class Fragment(Contract):
    """the fragment of a predicate says what its parts over the tables say"""
    target = f"{TRF}:_get_predicate_fragment"
    props = P
    params = {"predicate": Pred, "referenced_tables": Tabs}
    returns = Opt(Pred)

    def ensures_none(predicate, referenced_tables, result):
        return (result is None) == (not kept(predicate, referenced_tables))

    def ensures_within(predicate, referenced_tables, result):
        return result is None or within(result, referenced_tables)

    def ensures_same_truth(predicate, referenced_tables, result):
        return result is None or sat(result) == fsat(predicate, referenced_tables)


# ---------------------------------------------------------------- removal

@spec(Pred, Pred, ret=Bool)
def gone(p, x):
    """nothing remains of the predicate"""
    return same(p, x) or (compound(p) and forall(p._children, lambda c: gone(c, x)))


@spec(Pred, Pred, ret=Bool)
def rsat(p, x):
    """whether a predicate without the parts x holds"""
    return truth(p) if not compound(p) else (
        not rsat(p._children[0], x) if p.operation == CompoundOperator.Not else (
            forall(p._children, lambda c: gone(c, x) or rsat(c, x)) if p.operation == CompoundOperator.And else
            exists(p._children, lambda c: not gone(c, x) and rsat(c, x))))


@spec(Pred, Pred, ret=Bool)
def occurs(p, x):
    return same(p, x) or (compound(p) and exists(p._children, lambda c: occurs(c, x)))


class Remove(Contract):
    target = f"{TRF}:remove_predicate"
    props = P
    params = {"predicate": Opt(Pred), "predicate_to_remove": Pred}
    returns = Opt(Pred)
    gen = _gen("removal")

    def ensures_none(predicate, predicate_to_remove, result):
        return (result is None) == (predicate is None or gone(predicate, predicate_to_remove))

    def ensures_same_truth(predicate, predicate_to_remove, result):
        return result is None or sat(result) == rsat(predicate, predicate_to_remove)


# ---------------------------------------------------------------- replacement

@spec(Pred, Pred, Pred, ret=Bool)
def psat(p, x, y):
    """whether a predicate with y in place of x holds"""
    return sat(y) if same(p, x) else (truth(p) if not compound(p) else (
        not psat(p._children[0], x, y) if p.operation == CompoundOperator.Not else (
            forall(p._children, lambda c: psat(c, x, y)) if p.operation == CompoundOperator.And else exists(p._children, lambda c: psat(c, x, y)))))


class Replace(Contract):
    target = f"{TRF}:_perform_predicate_replacement"
    props = P
    params = {"current_predicate": Pred, "target_predicate": Pred, "new_predicate": Pred}
    returns = Pred
    gen = _gen("replacement")

    def ensures_same_truth(current_predicate, target_predicate, new_predicate, result):
        return sat(result) == psat(current_predicate, target_predicate, new_predicate)


# ---------------------------------------------------------------- whole queries

use(TRF, "extract_query_fragment", "explicit_to_implicit", "replace_predicate", "add_ec_predicates", "move_into_subquery", "expand_to_query")


def clause_texts(q, skip=()):
    return {n: getattr(q, n) for n in ("cte_clause", "select_clause", "from_clause", "where_clause", "groupby_clause", "having_clause", "orderby_clause", "limit_clause", "hints", "explain")
            if n not in skip}


def kept_only(items, t):
    return [i for i in items if i.tables() <= t]


class ExtractFragment(Contract):
    """the parts of each clause that need no other tables"""
    target = f"{TRF}:extract_query_fragment"
    props = P
    params = {"source_query": Any, "referenced_tables": Any, "projection": Any}
    bounded = True
    gen = _gen("fragment_case")
    note = "queries are rebuilt from parts of all of their clauses"

    def ensures_none(source_query, referenced_tables, result):
        return (result is None) == (not tabset(referenced_tables) <= source_query.tables())

    def ensures_tables(source_query, referenced_tables, result):
        if result is None:
            return True
        f = result.from_clause
        return (f is None) == (source_query.from_clause is None) and (f is None or sorted(map(str, f.items)) == sorted(map(str, tabset(referenced_tables))))

    def ensures_predicates(source_query, referenced_tables, result):
        if result is None:
            return True
        t = tabset(referenced_tables)
        for old, new in ((pred_of(source_query.where_clause), pred_of(result.where_clause)), (cond_of(source_query.having_clause), cond_of(result.having_clause))):
            if (new is None) != (old is None or not kept(old, t)) or (new is not None and (not within(new, t) or sat(new) != fsat(old, t))):
                return False
        return True

    def ensures_projection(source_query, referenced_tables, projection, result):
        if result is None:
            return True
        from postbound.qal import Select
        if projection in ("star", "*"):
            return result.select_clause == Select.star()
        if projection == "count_star":
            return result.select_clause == Select.count_star()
        ts = kept_only(source_query.select_clause.targets, tabset(referenced_tables))
        return (list(result.select_clause.targets) == ts or not ts and result.select_clause.is_star()) and result.select_clause.is_distinct() == source_query.select_clause.is_distinct()

    def ensures_order(source_query, referenced_tables, result):
        if result is None:
            return True
        t = tabset(referenced_tables)
        order = [o for o in source_query.orderby_clause.expressions if o.column.tables() <= t] if source_query.orderby_clause else []
        group = kept_only(source_query.groupby_clause.group_columns, t) if source_query.groupby_clause else []
        return (list(result.orderby_clause.expressions) if result.orderby_clause else []) == order \
            and (list(result.groupby_clause.group_columns) if result.groupby_clause else []) == group \
            and (not group or result.groupby_clause.distinct == source_query.groupby_clause.distinct) and result.limit_clause == source_query.limit_clause

    def ensures_ctes(source_query, referenced_tables, result):
        if result is None:
            return True
        t = tabset(referenced_tables)
        ctes = [w for w in source_query.cte_clause.queries if w.target_table in t] if source_query.cte_clause else []
        return (list(result.cte_clause.queries) if result.cte_clause else []) == ctes and (not ctes or result.cte_clause.recursive == source_query.cte_clause.recursive)


def tabset(t):
    from postbound._core import TableReference
    return {t} if isinstance(t, TableReference) else set(t)


def pred_of(w):
    return w.predicate if w is not None else None


def cond_of(h):
    return h.condition if h is not None else None


class Refused(Lemma):
    """fragments of explicit queries are rejected"""
    props = P
    params = {"q": Any}
    gens = {"q": _gen("explicit_query")}
    bounded = True

    def lemma(q):
        try:
            extract_query_fragment(q, set(q.tables()))
        except ValueError:
            return True
        return False


class ReplaceInQuery(Contract):
    target = f"{TRF}:replace_predicate"
    props = P
    params = {"query": Any, "predicate_to_replace": Any, "new_predicate": Any}
    bounded = True
    gen = _gen("predicate_query")
    note = "clauses of queries are exchanged (see C12)"

    def ensures(query, predicate_to_replace, new_predicate, result):
        for old, new in ((pred_of(query.where_clause), pred_of(result.where_clause)), (cond_of(query.having_clause), cond_of(result.having_clause))):
            if (new is None) != (old is None) or (new is not None and (sat(new) != psat(old, predicate_to_replace, new_predicate) or not occurs(old, predicate_to_replace) and new != old)):
                return False
        return clause_texts(result, ("where_clause", "having_clause")) == clause_texts(query, ("where_clause", "having_clause"))


def sources(s):
    """tables and join conditions of nested joins, None for anything else but inner joins of tables"""
    from postbound.qal import DirectTableSource, JoinTableSource, JoinType
    if isinstance(s, DirectTableSource):
        return [s.table], []
    if not isinstance(s, JoinTableSource) or s.join_type != JoinType.InnerJoin:
        return None
    a, b = sources(s.left), sources(s.right)
    if a is None or b is None:
        return None
    return a[0] + b[0], a[1] + b[1] + ([s.join_condition] if s.join_condition is not None else [])


class ToImplicit(Contract):
    """inner joins are the same as predicates"""
    target = f"{TRF}:explicit_to_implicit"
    props = P
    params = {"source_query": Any}
    bounded = True
    gens = {"source_query": _gen("explicit_query")}
    raises = {"ValueError": "unsupported"}
    note = "nested FROM clauses, handled by a worklist"

    def unsupported(source_query):
        return any(sources(s) is None for s in source_query.from_clause.items)

    def ensures_tables(source_query, result):
        return [i.table for i in result.from_clause.items] == [t for s in source_query.from_clause.items for t in sources(s)[0]]

    def ensures_predicates(source_query, result):
        ps = [pred_of(source_query.where_clause)] if source_query.where_clause else []
        for s in source_query.from_clause.items:
            ps.extend(sources(s)[1])
        expected = {c for p in ps for c in conjuncts(p)}
        return (conjuncts(result.where_clause.predicate) if result.where_clause else set()) == expected

    def ensures_else(source_query, result):
        skip = ("where_clause", "from_clause")
        return type(result).__name__ == "ImplicitSqlQuery" and clause_texts(result, skip) == clause_texts(source_query, skip)


def value(e, w):
    from postbound.qal import ColumnExpression
    return w[e.column] if isinstance(e, ColumnExpression) else ("e", str(e), tuple(w[c] for c in sorted(e.columns())))


def holds(p, w):
    """whether a predicate holds for given values of the columns"""
    from postbound.qal import BinaryPredicate, LogicalOperator
    if isinstance(p, CompoundPredicate):
        if p.operation == CompoundOperator.Not:
            return not holds(p.children, w)
        return (all if p.operation == CompoundOperator.And else any)([holds(c, w) for c in p.iterchildren()])
    if isinstance(p, BinaryPredicate) and p.operation == LogicalOperator.Equal:
        return value(p.first_argument, w) == value(p.second_argument, w)
    return hash((str(p), tuple(w[c] for c in sorted(p.columns())))) % 3 > 0


def worlds(cols, n=24):
    import random
    cols = sorted(cols)
    rng = random.Random(str(cols))
    yield {c: 0 for c in cols}
    for _ in range(n):
        k = rng.choice([1, 2, 2, 3])
        yield {c: rng.randint(0, k) for c in cols}


class EquivalencePredicates(Contract):
    """the same rows, with all joins made explicit"""
    target = f"{TRF}:add_ec_predicates"
    props = P
    params = {"query": Any}
    bounded = True
    gens = {"query": _gen("join_query")}
    note = "equality of results is decided by evaluation on many valuations of the columns"

    def ensures_equivalent(query, result):
        if query.where_clause is None:
            return result == query
        p, r = query.where_clause.predicate, result.where_clause.predicate
        return p.columns() == r.columns() and all(holds(p, w) == holds(r, w) for w in worlds(p.columns()))

    def ensures_complete(query, result):
        if query.where_clause is None:
            return True
        from postbound.qal import BinaryPredicate, LogicalOperator, ColumnExpression

        def eqs(q):
            return {frozenset([p.first_argument.column, p.second_argument.column]) for p in conjuncts(q.where_clause.predicate)
                    if isinstance(p, BinaryPredicate) and p.operation == LogicalOperator.Equal and isinstance(p.first_argument, ColumnExpression)
                    and isinstance(p.second_argument, ColumnExpression) and p.first_argument.column.table != p.second_argument.column.table}
        classes = []
        for e in eqs(query):
            c = set(e).union(*[x for x in classes if x & e])
            classes = [x for x in classes if not x & e] + [c]
        return all(frozenset([a, b]) in eqs(result) for c in classes for a in c for b in c if a.table != b.table)

    def ensures_else(query, result):
        return clause_texts(result, ("where_clause",)) == clause_texts(query, ("where_clause",))


class ToQuery(Contract):
    target = f"{TRF}:expand_to_query"
    props = P
    params = {"predicate": Any}
    bounded = True
    gens = {"predicate": _gen("table_pred")}

    def ensures(predicate, result):
        return result.select_clause.is_star() and result.where_clause.predicate == predicate and {i.table for i in result.from_clause.items} == predicate.tables() \
            and len(result.from_clause.items) == len(predicate.tables()) and all(c is None for n, c in clause_texts(result, ("select_clause", "from_clause", "where_clause")).items())


class IntoSubquery(Contract):
    """a subquery of exactly these tables and their predicates takes their place"""
    target = f"{TRF}:move_into_subquery"
    props = P
    params = {"query": Any, "tables": Any, "subquery_name": Any}
    bounded = True
    gen = _gen("subquery_case")
    raises = {"ValueError": "impossible"}
    note = "queries are rebuilt from parts of all of their clauses"

    def impossible(query, tables):
        cols = {c for k in query.clauses() for c in k.columns() if c.table in set(tables)}
        return len(set(tables)) < 2 or len({c.name for c in cols}) < len(cols)

    def ensures_tables(query, tables, result):
        from postbound.qal import SubqueryTableSource
        inner = [i for i in result.from_clause.items if isinstance(i, SubqueryTableSource)]
        return len(inner) == 1 and {i.table for i in result.from_clause.items if i is not inner[0]} == query.tables() - set(tables) \
            and len(result.from_clause.items) == len(query.tables() - set(tables)) + 1 \
            and {i.table for i in inner[0].query.from_clause.items} == set(tables) and len(inner[0].query.from_clause.items) == len(set(tables))

    def ensures_name(query, tables, subquery_name, result):
        from postbound.qal import SubqueryTableSource
        return not subquery_name or [i for i in result.from_clause.items if isinstance(i, SubqueryTableSource)][0].target_name == subquery_name

    def ensures_predicates(query, tables, result):
        inner = inner_query(result)
        flat = {restored(c, result, query) for c in (conjuncts(result.where_clause.predicate) if result.where_clause else [])}
        moved = {str(c) for c in (conjuncts(inner.where_clause.predicate) if inner.where_clause else [])}
        original = conjuncts(query.where_clause.predicate) if query.where_clause else set()
        return moved | flat == {str(c) for c in original} and moved == {str(c) for c in original if c.tables() and c.tables() <= set(tables)} and not moved & flat

    def ensures_clauses(query, tables, result):
        skip = ("from_clause", "where_clause")
        return {n: restored(c, result, query) for n, c in clause_texts(result, skip).items()} == {n: str(c) for n, c in clause_texts(query, skip).items()}

    def ensures_exported(query, tables, result):
        """all columns that are required outside"""
        inner = inner_query(result)
        exported = {c.name for t in inner.select_clause.targets for c in t.columns()}
        name = [i.target_name for i in result.from_clause.items if hasattr(i, "query")][0]
        needed = {c.name for k in result.clauses() for c in k.columns() if type(k).__name__ not in ("From", "ImplicitFromClause") and c.table.identifier() == name}
        return needed <= exported


def inner_query(q):
    return [i.query for i in q.from_clause.items if hasattr(i, "query")][0]


def restored(x, q, original):
    """the text in terms of the original tables"""
    s = str(x)
    name = [i.target_name for i in q.from_clause.items if hasattr(i, "query")][0]
    for c in {c for k in original.clauses() for c in k.columns()}:
        if c.table not in q.tables() or c.table in inner_query(q).tables():
            s = s.replace(f"{name}.{c.name}", f"{c.table.identifier()}.{c.name}")
    return s
