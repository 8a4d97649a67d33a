"""C12: changing one clause of a query keeps all others; queries are equal iff all of their clauses are."""
from pydv.api import *
from contracts.model import *

QAL = "postbound.qal._qal"
TR = "postbound.transform"
NAMES = ["Hint", "Explain", "CommonTableExpression", "Select", "From", "Where", "GroupBy", "Having", "OrderBy", "Limit"]
SETS = ["UnionClause", "IntersectClause", "ExceptClause"]
use(QAL, *NAMES, *SETS, "ImplicitFromClause", "ExplicitFromClause", "ImplicitSqlQuery", "ExplicitSqlQuery", "MixedSqlQuery", "SetQuery", "build_query", "SqlQuery", "SetOperator", "BaseProjection",
    "StarExpression", "FunctionExpression", "WithQuery", "ValuesWithQuery", "OrderByExpression", "DirectTableSource", "SubqueryTableSource", "FunctionTableSource", "ValuesTableSource",
    "JoinTableSource")
use(TR, "as_star_query", "as_count_star_query", "as_explain", "as_explain_analyze", "drop_hints", "add_clause", "drop_clause", "replace_clause")
P = ("C12",)


def _g(name, *a, **k):
    def g(rng, size):
        from contracts import gens
        return getattr(gens, name)(rng, *a, **k)
    return g


Cls = Ref("QClause", [f"{QAL}:{n}" for n in NAMES[:4] + ["From", "ImplicitFromClause", "ExplicitFromClause"] + NAMES[5:]], eq="term", opaque=True, truthy=True, gen=_g("any_clause", sets=False))
Qry = Ref("QQuery", [f"{QAL}:{n}" for n in ("ImplicitSqlQuery", "ExplicitSqlQuery", "MixedSqlQuery")], eq="code", gen=_g("rich_query", sets=False),
          fields={"_hash_val": Int, "_query_predicates": Any, "_select_clause": Cls})
FIELDS = ["_hints", "_explain", "_cte_clause", "_from_clause", "_where_clause", "_groupby_clause", "_having_clause", "_orderby_clause", "_limit_clause"]
for _f in FIELDS:
    Qry.fields[_f] = Opt(Cls)


@invariant(Qry)
def kind_hints(q):
    return q._hints is None or isinstance(q._hints, Hint)


@invariant(Qry)
def kind_explain(q):
    return q._explain is None or isinstance(q._explain, Explain)


@invariant(Qry)
def kind_cte(q):
    return q._cte_clause is None or isinstance(q._cte_clause, CommonTableExpression)


@invariant(Qry)
def kind_select(q):
    return isinstance(q._select_clause, Select)


@invariant(Qry)
def kind_from(q):
    return q._from_clause is None or isinstance(q._from_clause, From)


@invariant(Qry)
def kind_where(q):
    return q._where_clause is None or isinstance(q._where_clause, Where)


@invariant(Qry)
def kind_groupby(q):
    return q._groupby_clause is None or isinstance(q._groupby_clause, GroupBy)


@invariant(Qry)
def kind_having(q):
    return q._having_clause is None or isinstance(q._having_clause, Having)


@invariant(Qry)
def kind_orderby(q):
    return q._orderby_clause is None or isinstance(q._orderby_clause, OrderBy)


@invariant(Qry)
def kind_limit(q):
    return q._limit_clause is None or isinstance(q._limit_clause, Limit)


def part(cs, kind):
    """the last clause of this kind in a list of clauses"""
    r = None
    for c in cs:
        if c is not None and isinstance(c, kind):
            r = c
    return r


def is_last(cs, kind, c, n):
    """c is the last clause of this kind among the first n (or there is none)"""
    return (c is None and forall_index(n, lambda i: cs[i] is None or not isinstance(cs[i], kind))) or \
        (c is not None and isinstance(c, kind) and exists_index(n, lambda i: cs[i] is c and forall_index(n, lambda j: j <= i or cs[j] is None or not isinstance(cs[j], kind))))


def made_of(q, cs):
    """the query consists of exactly these clauses (the last one of each kind)"""
    n = len(cs)
    return is_last(cs, Hint, q.hints, n) and is_last(cs, Explain, q.explain, n) and is_last(cs, CommonTableExpression, q.cte_clause, n) and is_last(cs, Select, q.select_clause, n) \
        and is_last(cs, From, q.from_clause, n) and is_last(cs, Where, q.where_clause, n) and is_last(cs, GroupBy, q.groupby_clause, n) and is_last(cs, Having, q.having_clause, n) \
        and is_last(cs, OrderBy, q.orderby_clause, n) and is_last(cs, Limit, q.limit_clause, n)


def is_one(cs, kind, c):
    """c is a clause of this kind in the list (or there is none)"""
    return (c is None and not exists(cs, lambda x: x is not None and isinstance(x, kind))) or (c is not None and isinstance(c, kind) and exists(cs, lambda x: same(x, c)))


class BuildQueryParts(Contract):
    """a query consists of the clauses it is built of"""
    target = f"{QAL}:build_query"
    props = P
    params = {"query_clauses": Seq(Opt(Cls))}
    returns = Qry
    raises = {"ValueError": "no_select"}
    gens = {"query_clauses": _g("clauses", sets=False)}

    def no_select(query_clauses):
        return not exists(query_clauses, lambda c: c is not None and isinstance(c, Select))

    def inv(query_clauses, k, cte_clause, select_clause, from_clause, where_clause, groupby_clause, having_clause, orderby_clause, limit_clause, explain_clause, hints_clause,
            build_set_query, build_implicit_query, build_explicit_query):
        return is_last(query_clauses, Hint, hints_clause, k) and is_last(query_clauses, Explain, explain_clause, k) and is_last(query_clauses, CommonTableExpression, cte_clause, k) \
            and is_last(query_clauses, Select, select_clause, k) and is_last(query_clauses, From, from_clause, k) and is_last(query_clauses, Where, where_clause, k) \
            and is_last(query_clauses, GroupBy, groupby_clause, k) and is_last(query_clauses, Having, having_clause, k) and is_last(query_clauses, OrderBy, orderby_clause, k) \
            and is_last(query_clauses, Limit, limit_clause, k) and not build_set_query \
            and build_implicit_query == (from_clause is None or is_instance_exact(from_clause, ImplicitFromClause)) \
            and build_explicit_query == (from_clause is None or is_instance_exact(from_clause, ExplicitFromClause))

    invariants = {0: ("inv", {"cte_clause": Opt(Cls), "select_clause": Opt(Cls), "from_clause": Opt(Cls), "where_clause": Opt(Cls), "groupby_clause": Opt(Cls), "having_clause": Opt(Cls),
                              "orderby_clause": Opt(Cls), "limit_clause": Opt(Cls), "explain_clause": Opt(Cls), "hints_clause": Opt(Cls), "build_set_query": Bool, "build_implicit_query": Bool, "build_explicit_query": Bool, "union_clause": NoneT, "intersect_clause": NoneT, "except_clause": NoneT})}

    def ensures_hints(query_clauses, result):
        return is_one(query_clauses, Hint, result.hints)

    def ensures_explain(query_clauses, result):
        return is_one(query_clauses, Explain, result.explain)

    def ensures_cte(query_clauses, result):
        return is_one(query_clauses, CommonTableExpression, result.cte_clause)

    def ensures_select(query_clauses, result):
        return is_one(query_clauses, Select, result.select_clause)

    def ensures_from(query_clauses, result):
        return is_one(query_clauses, From, result.from_clause)

    def ensures_where(query_clauses, result):
        return is_one(query_clauses, Where, result.where_clause)

    def ensures_groupby(query_clauses, result):
        return is_one(query_clauses, GroupBy, result.groupby_clause)

    def ensures_having(query_clauses, result):
        return is_one(query_clauses, Having, result.having_clause)

    def ensures_orderby(query_clauses, result):
        return is_one(query_clauses, OrderBy, result.orderby_clause)

    def ensures_limit(query_clauses, result):
        return is_one(query_clauses, Limit, result.limit_clause)


class BuildQuery(Contract):
    target = f"{QAL}:build_query"
    props = P
    params = {"query_clauses": Seq(Opt(Cls))}
    returns = Qry
    use_at_calls = False
    raises = {"ValueError": "no_select"}
    gens = {"query_clauses": _g("clauses", sets=False)}

    def no_select(query_clauses):
        return not exists(query_clauses, lambda c: c is not None and isinstance(c, Select))

    def inv(query_clauses, k, cte_clause, select_clause, from_clause, where_clause, groupby_clause, having_clause, orderby_clause, limit_clause, explain_clause, hints_clause,
            build_set_query, build_implicit_query, build_explicit_query):
        return is_last(query_clauses, Hint, hints_clause, k) and is_last(query_clauses, Explain, explain_clause, k) and is_last(query_clauses, CommonTableExpression, cte_clause, k) \
            and is_last(query_clauses, Select, select_clause, k) and is_last(query_clauses, From, from_clause, k) and is_last(query_clauses, Where, where_clause, k) \
            and is_last(query_clauses, GroupBy, groupby_clause, k) and is_last(query_clauses, Having, having_clause, k) and is_last(query_clauses, OrderBy, orderby_clause, k) \
            and is_last(query_clauses, Limit, limit_clause, k) and not build_set_query \
            and build_implicit_query == (from_clause is None or is_instance_exact(from_clause, ImplicitFromClause)) \
            and build_explicit_query == (from_clause is None or is_instance_exact(from_clause, ExplicitFromClause))

    invariants = {0: ("inv", {"cte_clause": Opt(Cls), "select_clause": Opt(Cls), "from_clause": Opt(Cls), "where_clause": Opt(Cls), "groupby_clause": Opt(Cls), "having_clause": Opt(Cls),
                              "orderby_clause": Opt(Cls), "limit_clause": Opt(Cls), "explain_clause": Opt(Cls), "hints_clause": Opt(Cls), "build_set_query": Bool, "build_implicit_query": Bool, "build_explicit_query": Bool, "union_clause": NoneT, "intersect_clause": NoneT, "except_clause": NoneT})}

    def ensures(query_clauses, result):
        return made_of(result, query_clauses)

    def ensures_type(query_clauses, result):
        f = result.from_clause
        return is_instance_exact(result, ImplicitSqlQuery if f is None or is_instance_exact(f, ImplicitFromClause) else (ExplicitSqlQuery if is_instance_exact(f, ExplicitFromClause) else MixedSqlQuery))


def parts(q):
    return [q.hints, q.explain, q.cte_clause, q.select_clause, q.from_clause, q.where_clause, q.groupby_clause, q.having_clause, q.orderby_clause, q.limit_clause]


def of_query(q, c):
    """c is one of the clauses of the query"""
    return c is not None and (same(c, q.hints) or same(c, q.explain) or same(c, q.cte_clause) or same(c, q.select_clause) or same(c, q.from_clause) or same(c, q.where_clause)
                              or same(c, q.groupby_clause) or same(c, q.having_clause) or same(c, q.orderby_clause) or same(c, q.limit_clause))


def has(cs, c):
    return c is None or exists(cs, lambda x: same(x, c))


class Clauses(Contract):
    """the clauses of a query are all those that are set, and nothing else"""
    target = f"{QAL}:SqlQuery.clauses"
    props = P
    params = {"self": Qry}
    returns = Seq(Cls)
    family = "QQuery"
    verify = [f"{QAL}:SqlQuery.clauses"]

    def ensures_hints(self, result):
        return has(result, self.hints)

    def ensures_explain(self, result):
        return has(result, self.explain)

    def ensures_cte(self, result):
        return has(result, self.cte_clause)

    def ensures_select(self, result):
        return has(result, self.select_clause)

    def ensures_from(self, result):
        return has(result, self.from_clause)

    def ensures_where(self, result):
        return has(result, self.where_clause)

    def ensures_groupby(self, result):
        return has(result, self.groupby_clause)

    def ensures_having(self, result):
        return has(result, self.having_clause)

    def ensures_orderby(self, result):
        return has(result, self.orderby_clause)

    def ensures_limit(self, result):
        return has(result, self.limit_clause)

    def ensures_only(self, result):
        return forall(result, lambda c: of_query(self, c))


def keeps(q, r, *but):
    """r has the same clauses as q, except for those named"""
    return ("hints" in but or same(r.hints, q.hints)) and ("explain" in but or same(r.explain, q.explain)) and ("cte" in but or same(r.cte_clause, q.cte_clause)) \
        and ("select" in but or same(r.select_clause, q.select_clause)) and ("from" in but or same(r.from_clause, q.from_clause)) and ("where" in but or same(r.where_clause, q.where_clause)) \
        and ("groupby" in but or same(r.groupby_clause, q.groupby_clause)) and ("having" in but or same(r.having_clause, q.having_clause)) \
        and ("orderby" in but or same(r.orderby_clause, q.orderby_clause)) and ("limit" in but or same(r.limit_clause, q.limit_clause))


class SelectStar(Contract):
    """SELECT * projects everything"""
    target = f"{QAL}:Select.star"
    props = P
    params = {"distinct": MISSING}
    returns = Cls
    trusted = True
    note = "the projection itself is an opaque clause for the prover; what it contains is checked by StarContents/CountStarContents"

    def ensures(result):
        return isinstance(result, Select)


class SelectCountStar(Contract):
    """SELECT COUNT(*) counts the rows"""
    target = f"{QAL}:Select.count_star"
    props = P
    params = {"distinct": MISSING}
    returns = Cls
    trusted = True
    note = "the projection itself is an opaque clause for the prover; what it contains is checked by StarContents/CountStarContents"

    def ensures(result):
        return isinstance(result, Select)


class AsStarQuery(Contract):
    """changing the projection changes nothing but the SELECT clause"""
    target = f"{TR}:as_star_query"
    props = P
    params = {"source_query": Qry}
    returns = Qry
    verify = [f"{TR}:as_star_query", f"{TR}:as_count_star_query"]

    def ensures_hints(source_query, result):
        return same(result.hints, source_query.hints)

    def ensures_explain(source_query, result):
        return same(result.explain, source_query.explain)

    def ensures_cte(source_query, result):
        return same(result.cte_clause, source_query.cte_clause)

    def ensures_from(source_query, result):
        return same(result.from_clause, source_query.from_clause)

    def ensures_where(source_query, result):
        return same(result.where_clause, source_query.where_clause)

    def ensures_groupby(source_query, result):
        return same(result.groupby_clause, source_query.groupby_clause)

    def ensures_having(source_query, result):
        return same(result.having_clause, source_query.having_clause)

    def ensures_orderby(source_query, result):
        return same(result.orderby_clause, source_query.orderby_clause)

    def ensures_limit(source_query, result):
        return same(result.limit_clause, source_query.limit_clause)


class StarContents(Contract):
    """SELECT * projects everything"""
    target = f"{TR}:as_star_query"
    props = P
    params = {"source_query": Qry}
    bounded = True

    def ensures(source_query, result):
        return list(result.select_clause.targets) == [BaseProjection(StarExpression())] and not result.select_clause.is_distinct()


class CountStarContents(Contract):
    """SELECT COUNT(*) counts the rows"""
    target = f"{TR}:as_count_star_query"
    props = P
    params = {"source_query": Qry}
    bounded = True

    def ensures(source_query, result):
        return list(result.select_clause.targets) == [BaseProjection(FunctionExpression("COUNT", [StarExpression()]))] and not result.select_clause.is_distinct()


class AsExplain(Contract):
    """a query is turned into an EXPLAIN query by adding the EXPLAIN clause"""
    target = f"{TR}:as_explain"
    props = P
    params = {"query": Qry, "explain": Cls}
    returns = Qry
    gens = {"explain": _g("clause", "explain", [])}

    def requires(query, explain):
        return isinstance(explain, Explain)

    def ensures(query, explain, result):
        return same(result.explain, explain)

    def ensures_hints(query, explain, result):
        return same(result.hints, query.hints)

    def ensures_cte(query, explain, result):
        return same(result.cte_clause, query.cte_clause)

    def ensures_select(query, explain, result):
        return same(result.select_clause, query.select_clause)

    def ensures_from(query, explain, result):
        return same(result.from_clause, query.from_clause)

    def ensures_where(query, explain, result):
        return same(result.where_clause, query.where_clause)

    def ensures_groupby(query, explain, result):
        return same(result.groupby_clause, query.groupby_clause)

    def ensures_having(query, explain, result):
        return same(result.having_clause, query.having_clause)

    def ensures_orderby(query, explain, result):
        return same(result.orderby_clause, query.orderby_clause)

    def ensures_limit(query, explain, result):
        return same(result.limit_clause, query.limit_clause)


class DropHints(Contract):
    """dropping the hints changes nothing but the hint block"""
    target = f"{TR}:drop_hints"
    props = P
    params = {"query": Qry}
    returns = Qry

    def ensures(query, result):
        return result.hints is None

    def ensures_head(query, result):
        return keeps(query, result, "hints", "where", "groupby", "having", "orderby", "limit")

    def ensures_tail(query, result):
        return keeps(query, result, "hints", "cte", "explain", "select", "from")


def last(cs, kind, old):
    r = old
    for c in cs:
        if isinstance(c, kind):
            r = c
    return r


def last_or(cs, kind, old, r):
    """r is the last clause of the kind in the list, or the old one if there is none"""
    n = len(cs)
    return (same(r, old) and forall(cs, lambda c: not isinstance(c, kind))) or \
        (r is not None and exists_index(n, lambda i: same(cs[i], r) and isinstance(r, kind) and forall_index(n, lambda j: j <= i or not isinstance(cs[j], kind))))


def one_or(cs, kind, old, r):
    """r is a clause of the kind in the list, or the old one if there is none"""
    return (same(r, old) and forall(cs, lambda c: not isinstance(c, kind))) or (r is not None and isinstance(r, kind) and exists(cs, lambda c: same(c, r)))


class AddClauses(Contract):
    """of several added clauses of a kind, the last one is used"""
    target = f"{TR}:add_clause"
    props = P
    params = {"query": Qry, "clauses_to_add": Seq(Cls)}
    bounded = True
    gens = {"clauses_to_add": _g("many_clauses")}

    def ensures(query, clauses_to_add, result):
        kinds = (Hint, Explain, CommonTableExpression, Select, From, Where, GroupBy, Having, OrderBy, Limit)
        return all(last_or(clauses_to_add, k, old, new) for k, old, new in zip(kinds, parts(query), parts(result)))


class AddClause(Contract):
    """added clauses replace the present ones of the same kind, all others are retained"""
    target = f"{TR}:add_clause"
    props = P
    params = {"query": Qry, "clauses_to_add": Seq(Cls)}
    returns = Qry
    gens = {"clauses_to_add": _g("clauses", sets=False)}

    def ensures_hints(query, clauses_to_add, result):
        return one_or(clauses_to_add, Hint, query.hints, result.hints)

    def ensures_explain(query, clauses_to_add, result):
        return one_or(clauses_to_add, Explain, query.explain, result.explain)

    def ensures_cte(query, clauses_to_add, result):
        return one_or(clauses_to_add, CommonTableExpression, query.cte_clause, result.cte_clause)

    def ensures_select(query, clauses_to_add, result):
        return one_or(clauses_to_add, Select, query.select_clause, result.select_clause)

    def ensures_from(query, clauses_to_add, result):
        return implies(forall(clauses_to_add, lambda c: not isinstance(c, From)), same(result.from_clause, query.from_clause))

    def ensures_from_kept(query, clauses_to_add, result):
        f = result.from_clause
        return (f is None and query.from_clause is None) or (f is not None and (same(f, query.from_clause) or exists(clauses_to_add, lambda c: same(c, f))))

    def ensures_where(query, clauses_to_add, result):
        return one_or(clauses_to_add, Where, query.where_clause, result.where_clause)

    def ensures_groupby(query, clauses_to_add, result):
        return one_or(clauses_to_add, GroupBy, query.groupby_clause, result.groupby_clause)

    def ensures_having(query, clauses_to_add, result):
        return one_or(clauses_to_add, Having, query.having_clause, result.having_clause)

    def ensures_orderby(query, clauses_to_add, result):
        return one_or(clauses_to_add, OrderBy, query.orderby_clause, result.orderby_clause)

    def ensures_limit(query, clauses_to_add, result):
        return one_or(clauses_to_add, Limit, query.limit_clause, result.limit_clause)


class DropClause(Contract):
    """dropping a clause removes it, all others are retained"""
    target = f"{TR}:drop_clause"
    props = P
    params = {"query": Qry, "clauses_to_drop": Cls}
    returns = Qry

    def requires(query, clauses_to_drop):
        return not isinstance(clauses_to_drop, Select)

    def ensures_head(query, clauses_to_drop, result):
        d = clauses_to_drop
        return keeps(query, result, "hints", "explain", "cte", "from", "where", "groupby", "having", "orderby", "limit") \
            and same(result.hints, None if isinstance(d, Hint) else query.hints) and same(result.explain, None if isinstance(d, Explain) else query.explain) \
            and same(result.cte_clause, None if isinstance(d, CommonTableExpression) else query.cte_clause)

    def ensures_body(query, clauses_to_drop, result):
        d = clauses_to_drop
        return same(result.where_clause, None if isinstance(d, Where) else query.where_clause) and same(result.groupby_clause, None if isinstance(d, GroupBy) else query.groupby_clause) \
            and same(result.having_clause, None if isinstance(d, Having) else query.having_clause) and same(result.orderby_clause, None if isinstance(d, OrderBy) else query.orderby_clause) \
            and same(result.limit_clause, None if isinstance(d, Limit) else query.limit_clause)

    def ensures_from(query, clauses_to_drop, result):
        d, f = clauses_to_drop, query.from_clause
        gone = is_instance_exact(d, From) or (is_instance_exact(d, ImplicitFromClause) and is_instance_exact(f, ImplicitFromClause)) \
            or (is_instance_exact(d, ExplicitFromClause) and is_instance_exact(f, ExplicitFromClause))
        return result.from_clause is None if gone else same(result.from_clause, f)


class ReplaceClause(Contract):
    """a clause that is present can be exchanged, all others are retained"""
    target = f"{TR}:replace_clause"
    props = P
    params = {"query": Qry, "replacements": Cls}
    returns = Qry
    bounded = True

    def ensures(query, replacements, result):
        r = replacements
        new = lambda kind, old: r if old is not None and isinstance(r, type(old)) else old
        return all(same(a, new(None, b)) for a, b in zip(parts(result), parts(query)))


class Rebuild(Lemma):
    """the clauses of a query describe it completely"""
    props = P
    params = {"query": Qry}

    def lemma(query):
        r = build_query(query.clauses())
        return keeps(query, r)


AnyCls = Ref("QAnyClause", [f"{QAL}:{n}" for n in NAMES + SETS], eq="term", opaque=True, truthy=True, gen=_g("any_clause"))
AnyQry = Ref("QAnyQuery", [f"{QAL}:{n}" for n in ("ImplicitSqlQuery", "ExplicitSqlQuery", "MixedSqlQuery", "SetQuery")], eq="term", opaque=True, truthy=True, gen=_g("rich_query"))


def content(x):
    """everything that a part of a query says, in terms of its smaller parts"""
    if isinstance(x, Hint):
        return [x.preparatory_statements, x.query_hints]
    if isinstance(x, Explain):
        return [x.analyze, x.target_format]
    if isinstance(x, CommonTableExpression):
        return [list(x.queries), x.recursive]
    if isinstance(x, ValuesWithQuery):
        return [list(x.rows), list(x.cols), x.target_name, x.materialized]
    if isinstance(x, WithQuery):
        return [x.query, x.target_name, x.materialized]
    if isinstance(x, BaseProjection):
        return [x.expression, x.target_name]
    if isinstance(x, Select):
        return [list(x.targets), x.is_distinct(), None if x.distinct_on is None else list(x.distinct_on)]
    if isinstance(x, From):
        return [list(x.items)]
    if isinstance(x, DirectTableSource):
        return [x.table]
    if isinstance(x, SubqueryTableSource):
        return [x.query, x.target_name, x.lateral]
    if isinstance(x, FunctionTableSource):
        return [x.function, x.target_table]
    if isinstance(x, ValuesTableSource):
        return [list(x.rows), x.table, list(x.cols)]
    if isinstance(x, JoinTableSource):
        return [x.left, x.right, x.join_condition, x.join_type]
    if isinstance(x, Where):
        return [x.predicate]
    if isinstance(x, GroupBy):
        return [list(x.group_columns), x.distinct]
    if isinstance(x, Having):
        return [x.condition]
    if isinstance(x, OrderBy):
        return [list(x.expressions)]
    if isinstance(x, OrderByExpression):
        return [x.column, x.ascending, x.nulls_first]
    if isinstance(x, Limit):
        return [x.limit, x.offset, x.fetch_direction]
    if isinstance(x, UnionClause):
        return [x.left_query, x.right_query, x.is_union_all()]
    if isinstance(x, (IntersectClause, ExceptClause)):
        return [x.left_query, x.right_query]
    if isinstance(x, SetQuery):
        return [x.left_query, x.right_query, x.set_operation, x.cte_clause, x.orderby_clause, x.limit_clause, x.hints, x.explain]
    if isinstance(x, SqlQuery):
        return parts(x)
    return None


def kind_of(x):
    return From if isinstance(x, From) else type(x)


def alike(a, b):
    """both say the same"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    ca = content(a)
    if ca is None:
        return content(b) is None and a == b
    return kind_of(a) is kind_of(b) and alike(ca, content(b))


class ClauseEq(Lemma):
    """clauses are equal if and only if they say the same, and equal ones have the same hash"""
    props = P
    params = {"a": AnyCls, "b": AnyCls}
    bounded = True
    gen = _g("two_clauses")

    def lemma(a, b):
        same_thing = alike(a, b)
        return (a == b) == same_thing and (b == a) == same_thing and (a != b) == (not same_thing) and (not same_thing or hash(a) == hash(b)) and a == a and not a == None


class QueryEq(Lemma):
    """queries are equal if and only if all of their clauses are, and equal ones have the same hash"""
    props = P
    params = {"a": AnyQry, "b": AnyQry}
    bounded = True
    gen = _g("two_queries")

    def lemma(a, b):
        same_thing = alike(a, b)
        return (a == b) == same_thing and (b == a) == same_thing and (a != b) == (not same_thing) and (not same_thing or hash(a) == hash(b)) and a == a and not a == None


class RebuildAny(Lemma):
    """rebuilding a query (or set operation) from its clauses reproduces it, whatever their order"""
    props = P
    params = {"q": AnyQry}
    bounded = True

    def lemma(q):
        cs = list(q.clauses())
        return alike(build_query(cs), q) and alike(build_query(cs[::-1]), q) and alike(build_query([None] + cs), q) and len({kind_of(c) for c in cs}) == len(cs)


class SkipClauses(Lemma):
    """clauses of some kinds can be left out"""
    props = P
    params = {"q": AnyQry, "c": AnyCls, "d": AnyCls}
    bounded = True

    def lemma(q, c, d):
        cs = q.clauses()
        return alike(q.clauses(skip=type(c)), [x for x in cs if not isinstance(x, type(c))]) and alike(q.clauses(skip=None), cs) \
            and alike(q.clauses(skip=[type(c), type(d)]), [x for x in cs if not isinstance(x, (type(c), type(d)))])


class BuildSetQuery(Contract):
    """a set operation is built of its two queries and the clauses around them"""
    target = f"{QAL}:build_query"
    props = P
    params = {"query_clauses": Seq(AnyCls)}
    bounded = True
    raises = {"ValueError": "misplaced"}
    gens = {"query_clauses": _g("some_clauses")}

    def requires(query_clauses):
        return sum(isinstance(c, (UnionClause, IntersectClause, ExceptClause)) for c in query_clauses) == 1

    def misplaced(query_clauses):
        return any(isinstance(c, (Select, From, Where, GroupBy, Having)) for c in query_clauses)

    def ensures(query_clauses, result):
        op = part(query_clauses, (UnionClause, IntersectClause, ExceptClause))
        name = {IntersectClause: SetOperator.Intersect, ExceptClause: SetOperator.Except}.get(type(op)) or (SetOperator.UnionAll if op.is_union_all() else SetOperator.Union)
        return isinstance(result, SetQuery) and result.set_operation == name and alike(result.left_query, plain(op.left_query)) and alike(result.right_query, plain(op.right_query)) \
            and all(x is part(query_clauses, k) for x, k in [(result.cte_clause, CommonTableExpression), (result.orderby_clause, OrderBy), (result.limit_clause, Limit), (result.hints, Hint),
                                                             (result.explain, Explain)])


def plain(q):
    """a query without EXPLAIN"""
    return q if q.explain is None else build_query([c for c in q.clauses() if not isinstance(c, Explain)])


class DropTypes(Lemma):
    """dropping kinds of clauses removes exactly those"""
    props = P
    params = {"q": AnyQry, "c": AnyCls, "d": AnyCls}
    bounded = True

    def requires(q, c, d):
        needed = (Select, UnionClause, IntersectClause, ExceptClause)
        return not isinstance(c, needed) and not isinstance(d, needed)

    def lemma(q, c, d):
        left = lambda *ts: [x for x in q.clauses() if not isinstance(x, ts)]
        return alike(drop_clause(q, type(c)), build_query(left(type(c)))) and alike(drop_clause(q, [type(c), d]), build_query(left(type(c), type(d)))) \
            and alike(drop_clause(q, From), build_query(left(From)))


class DropOnlyPreparation(Contract):
    """dropping the preparatory statements keeps the actual hints"""
    target = f"{TR}:drop_hints"
    props = P
    params = {"query": AnyQry, "preparatory_statements_only": Bool}
    bounded = True

    def ensures(query, preparatory_statements_only, result):
        h = Hint("", query.hints.query_hints) if preparatory_statements_only and query.hints else None
        rest = [c for c in query.clauses() if not isinstance(c, Hint)]
        return alike(result, build_query(rest + [h]))


class ReplaceClauses(Contract):
    """several clauses can be exchanged at once"""
    target = f"{TR}:replace_clause"
    props = P
    params = {"query": AnyQry, "replacements": Seq(Cls)}
    bounded = True
    gens = {"replacements": _g("clauses", sets=False)}

    def ensures(query, replacements, result):
        new = []
        for c in query.clauses():
            r = [x for x in replacements if isinstance(x, type(c))]
            new.append(r[0] if r else c)
        return alike(result, build_query(new))


class ExplainAny(Lemma):
    """EXPLAIN is added to all kinds of queries, the other clauses are retained"""
    props = P
    params = {"q": AnyQry}
    bounded = True

    def lemma(q):
        rest = [c for c in q.clauses() if not isinstance(c, Explain)]
        return alike(as_explain(q), build_query(rest + [Explain(False, "JSON")])) and alike(as_explain_analyze(q), build_query(rest + [Explain(True, "JSON")])) and as_explain(q).is_explain()
