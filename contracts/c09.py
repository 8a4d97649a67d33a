"""C09: pre-checks reject everything an optimizer cannot handle; combining checks never weakens them."""
from pydv.api import *
from contracts.model import *

V = "postbound.validation"
QAL = "postbound.qal._qal"
DBM = "postbound.db._db"
use(V, "PreCheckResult", "CompoundCheck", "EmptyPreCheck", "OptimizationPreCheck", "merge_checks", "SupportedHintCheck", "UnsupportedQueryError",
    "UnsupportedSystemError", "EquiJoinPreCheck", "CustomCheck", "VirtualTablesPreCheck", "SubqueryPreCheck",
    "DependentSubqueryPreCheck", "SetOperationsPreCheck", "CrossProductPreCheck", "ImplicitQueryPreCheck", "InnerJoinPreCheck")
use(QAL, "ImplicitSqlQuery", "JoinType", "DirectTableSource", "JoinTableSource", "SubqueryTableSource", "BinaryPredicate", "CompoundPredicate",
    "ColumnExpression", "LogicalOperator", "CompoundOperator", "ExplicitFromClause")
P = ("C09",)


def _query(rng, size):
    from contracts import gens
    return gens.query(rng, size)


def _db(rng, size):
    from contracts import gens
    return gens.fake_db(rng)


def _check(rng, size):
    from contracts import gens
    return gens.precheck(rng, size)


def _result(rng, size):
    return PreCheckResult(True) if rng.random() < 0.5 else PreCheckResult(False, rng.choice(["", "A", ["A", "B"], [], ["C"]]))


def _reasons(rng, size):
    return rng.choice(["", "A", ["A", "B"], [], ["C"]])


def _col(rng, size):
    from contracts import gens
    return gens.column(rng)


Hintable = EnumT("Hintable", [f"{CORE}:ScanOperator", f"{CORE}:JoinOperator", f"{CORE}:IntermediateOperator", f"{HINTS}:HintType"])
JoinTypes = EnumT("JoinTypes", [f"{QAL}:JoinType"])
LogicalOp = EnumT("LogicalOp", [f"{QAL}:LogicalOperator"])
CompoundOp = EnumT("CompoundOp", [f"{QAL}:CompoundOperator"])
Column = Ref("PreColumn", [f"{CORE}:ColumnReference"], eq="term", opaque=True, gen=_col)
HintSvc = Ref("HintSvc", [f"{DBM}:HintService"], eq="term", opaque=True)
Db = Ref("PreDb", [f"{DBM}:Database"], eq="term", opaque=True, gen=_db, attrs={"hinting()": HintSvc})

Source = Ref("Source", [f"{QAL}:DirectTableSource", f"{QAL}:ValuesTableSource", f"{QAL}:FunctionTableSource", f"{QAL}:SubqueryTableSource",
                        f"{QAL}:JoinTableSource"], eq="term", opaque=True)
FromC = Ref("FromC", [f"{QAL}:From", f"{QAL}:ExplicitFromClause", f"{QAL}:ImplicitFromClause"], eq="term", truthy=True, attrs={"items": Seq(Source), "root": Source})
Expr = Ref("PreExpr", [f"{QAL}:ColumnExpression", f"{QAL}:MathExpression", f"{QAL}:FunctionExpression", f"{QAL}:StaticValueExpression"], eq="term", opaque=True)
Pred = Ref("PrePred", [f"{QAL}:BinaryPredicate", f"{QAL}:BetweenPredicate", f"{QAL}:InPredicate", f"{QAL}:UnaryPredicate", f"{QAL}:CompoundPredicate"],
           eq="term", opaque=True)
Preds = Ref("PrePreds", [f"{QAL}:QueryPredicates"], eq="term", opaque=True, attrs={"joins()": Seq(Pred)})
TableV = Ref("PreTable", [f"{CORE}:TableReference"], eq="term", opaque=True, attrs={"virtual": Bool})
Query = Ref("PreQuery", [f"{QAL}:ImplicitSqlQuery", f"{QAL}:ExplicitSqlQuery", f"{QAL}:MixedSqlQuery"], eq="term", opaque=True, gen=_query)
Query.attrs.update({"from_clause": Opt(FromC), "tables()": Set(TableV), "predicates()": Preds, "subqueries()": Set(Query), "is_dependent()": Bool,
                    "is_set_query()": Bool, "contains_cross_product()": Bool})
Source.attrs.update({"left": Source, "right": Source, "join_type": JoinTypes, "query": Query, "join_condition": Any})
Pred.attrs.update({"columns()": Set(Column), "operation": Any, "first_argument": Expr, "second_argument": Expr, "children": Seq(Pred)})
Result = Ref("PreCheckResult", [f"{V}:PreCheckResult"], fields={"passed": Bool, "failure_reason": Any}, eq="struct", gen=_result)
Check = Ref("Check", [f"{V}:OptimizationPreCheck"], eq="term", opaque=True, gen=_check)


def _compound(rng, size):
    from contracts import gens
    return CompoundCheck([gens.precheck(rng, size) for _ in range(rng.randint(0, 3))])


Compound = Ref("Compound", [f"{V}:CompoundCheck"], fields={"checks": Seq(Check), "name": Str}, eq="term", gen=_compound)


class ChecksQuery(Contract):
    target = f"{V}:OptimizationPreCheck.check_supported_query"
    props = P
    params = {"self": Check, "query": Query}
    returns = Result
    trusted = True
    note = "an arbitrary check decides on queries"


class ChecksDb(Contract):
    target = f"{V}:OptimizationPreCheck.check_supported_database_system"
    props = P
    params = {"self": Check, "database_instance": Db}
    returns = Result
    trusted = True
    note = "an arbitrary check decides on database systems"


class SupportsHint(Contract):
    target = f"{DBM}:HintService.supports_hint"
    props = P
    params = {"self": HintSvc, "hint": Hintable}
    returns = Bool
    trusted = True
    note = "the database system knows its own hints"


class FlatReasons(Contract):
    target = "postbound.util.collections:flatten"
    props = P
    params = {"xs": Seq(Any)}
    returns = Any
    trusted = True
    note = "the text of failures is opaque here (see Reasons)"


class Merged(Contract):
    """the merged result passes if and only if all results pass"""
    target = f"{V}:PreCheckResult.merge"
    props = P
    params = {"checks": Seq(Result)}
    returns = Result

    def ensures(checks, result):
        return result.passed == forall(checks, lambda c: c.passed)


class CompoundQuery(Contract):
    """a query passes if and only if it passes every single check"""
    target = f"{V}:CompoundCheck.check_supported_query"
    props = P
    params = {"self": Compound, "query": Query}
    returns = Result

    def ensures(self, query, result):
        return result.passed == forall(self.checks, lambda c: c.check_supported_query(query).passed)


class CompoundDb(Contract):
    """a database system passes if and only if it passes every single check"""
    target = f"{V}:CompoundCheck.check_supported_database_system"
    props = P
    params = {"self": Compound, "database_instance": Db}
    returns = Result

    def ensures(self, database_instance, result):
        return result.passed == forall(self.checks, lambda c: c.check_supported_database_system(database_instance).passed)


class EnsureQuery(Contract):
    target = f"{V}:PreCheckResult.ensure_all_passed"
    props = P
    params = {"self": Result, "context": Query}
    raises = {"UnsupportedQueryError": "failed"}

    def failed(self, context):
        return not self.passed


class EnsureDb(Contract):
    target = f"{V}:PreCheckResult.ensure_all_passed"
    props = P
    params = {"self": Result, "context": Db}
    raises = {"UnsupportedSystemError": "failed"}

    def failed(self, context):
        return not self.passed


class EnsureAny(Contract):
    target = f"{V}:PreCheckResult.ensure_all_passed"
    props = P
    params = {"self": Result, "context": NoneT}
    raises = {"StateError": "failed"}

    def failed(self, context):
        return not self.passed


def _of(cls, *names, **kw):
    def g(rng, size):
        return cls(**{n: rng.random() < 0.5 for n in names})
    return g


def _hint_check(rng, size):
    from postbound._hints import HintType
    from postbound._core import ScanOperator, JoinOperator
    return SupportedHintCheck(rng.sample(list(ScanOperator) + list(JoinOperator) + list(HintType), rng.randint(1, 3)))


HintCheck = Ref("HintCheck", [f"{V}:SupportedHintCheck"], fields={"_features": Seq(Hintable), "name": Str}, eq="code", gen=_hint_check)
EquiCheck = Ref("EquiCheck", [f"{V}:EquiJoinPreCheck"], fields={"_allow_conjunctions": Bool, "_allow_nesting": Bool, "name": Str}, eq="code",
                gen=lambda rng, size: EquiJoinPreCheck(allow_conjunctions=rng.random() < 0.5, allow_nesting=rng.random() < 0.5))


class Hints(Contract):
    """a database system passes if and only if it supports all features"""
    target = f"{V}:SupportedHintCheck.check_supported_database_system"
    props = P
    params = {"self": HintCheck, "database_instance": Db}
    returns = Result

    def ensures(self, database_instance, result):
        return result.passed == forall(self._features, lambda f: database_instance.hinting().supports_hint(f))


VirtualCheck = Ref("VirtualCheck", [f"{V}:VirtualTablesPreCheck"], fields={"name": Str}, eq="term", gen=lambda rng, size: VirtualTablesPreCheck())


class Virtual(Contract):
    target = f"{V}:VirtualTablesPreCheck.check_supported_query"
    props = P
    params = {"self": VirtualCheck, "query": Query}
    returns = Result

    def ensures(self, query, result):
        return result.passed == forall(query.tables(), lambda t: not t.virtual)


NoSubqueriesCheck = Ref("NoSubqueriesCheck", [f"{V}:SubqueryPreCheck"], fields={"name": Str}, eq="term", gen=lambda rng, size: SubqueryPreCheck())


class NoSubqueries(Contract):
    target = f"{V}:SubqueryPreCheck.check_supported_query"
    props = P
    params = {"self": NoSubqueriesCheck, "query": Query}
    returns = Result

    def ensures(self, query, result):
        return result.passed == (not query.subqueries())


NoDependentCheck = Ref("NoDependentCheck", [f"{V}:DependentSubqueryPreCheck"], fields={"name": Str}, eq="term", gen=lambda rng, size: DependentSubqueryPreCheck())


class NoDependent(Contract):
    target = f"{V}:DependentSubqueryPreCheck.check_supported_query"
    props = P
    params = {"self": NoDependentCheck, "query": Query}
    returns = Result

    def ensures(self, query, result):
        return result.passed == forall(query.subqueries(), lambda s: not s.is_dependent())


NoSetOperationCheck = Ref("NoSetOperationCheck", [f"{V}:SetOperationsPreCheck"], fields={"name": Str}, eq="term", gen=lambda rng, size: SetOperationsPreCheck())


class NoSetOperation(Contract):
    target = f"{V}:SetOperationsPreCheck.check_supported_query"
    props = P
    params = {"self": NoSetOperationCheck, "query": Query}
    returns = Result

    def ensures(self, query, result):
        return result.passed == (not query.is_set_query())


NoCrossProductCheck = Ref("NoCrossProductCheck", [f"{V}:CrossProductPreCheck"], fields={"name": Str}, eq="term", gen=lambda rng, size: CrossProductPreCheck())


class NoCrossProduct(Contract):
    target = f"{V}:CrossProductPreCheck.check_supported_query"
    props = P
    params = {"self": NoCrossProductCheck, "query": Query}
    returns = Result

    def ensures(self, query, result):
        return result.passed == (not query.contains_cross_product())


ImplicitCheck = Ref("ImplicitCheck", [f"{V}:ImplicitQueryPreCheck"], fields={"name": Str}, eq="term", gen=lambda rng, size: ImplicitQueryPreCheck())


class Implicit(Contract):
    target = f"{V}:ImplicitQueryPreCheck.check_supported_query"
    props = P
    params = {"self": ImplicitCheck, "query": Query}
    returns = Result

    def ensures(self, query, result):
        return result.passed == is_instance_exact(query, ImplicitSqlQuery)


@spec(Source, ret=Bool)
def inner(s):
    """all joins of a table source are inner joins"""
    return (s.join_type == JoinType.InnerJoin and inner(s.left) and inner(s.right)) if is_instance_exact(s, JoinTableSource) else (
        inner_query(s.query) if is_instance_exact(s, SubqueryTableSource) else True)


@spec(Query, ret=Bool)
def inner_query(q):
    return q.from_clause is None or (inner(q.from_clause.root) if is_instance_exact(q.from_clause, ExplicitFromClause) else
                                     forall(q.from_clause.items, lambda s: inner(s)))


InnerCheck = Ref("InnerCheck", [f"{V}:InnerJoinPreCheck"], fields={"name": Str}, eq="term", gen=lambda rng, size: InnerJoinPreCheck())


def _source(rng, size):
    from contracts import gens
    while True:
        q = gens.query(rng, size)
        if q.from_clause is not None:
            return rng.choice(list(q.from_clause.items))


class InnerSource(Contract):
    target = f"{V}:InnerJoinPreCheck._check_table_source"
    props = P
    params = {"self": InnerCheck, "source": Source}
    returns = Result
    gens = {"source": _source}

    def ensures(self, source, result):
        return result.passed == inner(source)


class InnerQuery(Contract):
    """a query passes if and only if it has inner joins only, also in subqueries of its FROM clause"""
    target = f"{V}:InnerJoinPreCheck.check_supported_query"
    props = P
    params = {"self": InnerCheck, "query": Query}
    returns = Result

    def ensures(self, query, result):
        return result.passed == inner_query(query)


@spec(Pred, Bool, Bool, ret=Bool)
def equi(p, conjunctions, nesting):
    """an equality of two columns (or of expressions over one column each)"""
    return (conjunctions and p.operation == CompoundOperator.And and forall(p.children, lambda c: equi(c, conjunctions, nesting))) \
        if is_instance_exact(p, CompoundPredicate) else \
        (is_instance_exact(p, BinaryPredicate) and len(p.columns()) == 2 and p.operation == LogicalOperator.Equal
         and (nesting or (is_instance_exact(p.first_argument, ColumnExpression) and is_instance_exact(p.second_argument, ColumnExpression))))


def _pred(rng, size):
    from contracts import gens
    while True:
        p = gens.predicate_over(rng, gens.qtables(rng), size)
        if p is not None:
            return p


class EquiJoinPredicate(Contract):
    target = f"{V}:EquiJoinPreCheck._perform_predicate_check"
    props = P
    params = {"self": EquiCheck, "predicate": Pred}
    returns = Bool
    gens = {"predicate": _pred}

    def ensures(self, predicate, result):
        return result == equi(predicate, self._allow_conjunctions, self._allow_nesting)


class EquiJoins(Contract):
    """a query passes if and only if all of its join predicates are equi-joins"""
    target = f"{V}:EquiJoinPreCheck.check_supported_query"
    props = P
    params = {"self": EquiCheck, "query": Query}
    returns = Result

    def ensures(self, query, result):
        return result.passed == forall(query.predicates().joins(), lambda p: equi(p, self._allow_conjunctions, self._allow_nesting))


def _set_query(rng, size):
    from contracts import gens
    from postbound.qal import SetQuery, SetOperator
    return SetQuery(gens.query(rng, size, 0), gens.query(rng, size, 0), set_operation=rng.choice(list(SetOperator)))


SetQ = Ref("PreSetQuery", [f"{QAL}:SetQuery"], eq="term", opaque=True, gen=_set_query, attrs={"is_set_query()": Bool})


class EnsureSetQuery(Contract):
    target = f"{V}:PreCheckResult.ensure_all_passed"
    props = P
    params = {"self": Result, "context": SetQ}
    raises = {"UnsupportedQueryError": "failed"}

    def failed(self, context):
        return not self.passed


class SetOperationRejected(Contract):
    target = f"{V}:SetOperationsPreCheck.check_supported_query"
    props = P
    params = {"self": NoSetOperationCheck, "query": SetQ}
    returns = Result

    def ensures(self, query, result):
        return result.passed == (not query.is_set_query())


@invariant(HintCheck)
def hint_check_name(c):
    return c.name == "database-check"


@invariant(EquiCheck)
def equi_check_name(c):
    return c.name == "equi-joins-only"


class EqualHintChecks(Lemma):
    """hint checks are only treated as duplicates of each other if they decide alike"""
    props = P
    params = {"a": HintCheck, "b": HintCheck, "d": Db}

    def lemma(a, b, d):
        return implies(a == b, hash(a) == hash(b) and a.check_supported_database_system(d).passed == b.check_supported_database_system(d).passed)


def _joined(rng, size):
    """queries over two or three tables whose joins are equalities of columns or of nested expressions, sometimes several at once"""
    from contracts import gens
    from postbound import qal as q
    from postbound._core import ColumnReference
    if rng.random() < 0.2:
        return gens.query(rng, size)
    tabs = gens.qtables(rng, rng.randint(2, 3))

    def side(t):
        c = q.ColumnExpression(gens.qcol(rng, t))
        return q.FunctionExpression("abs", [c]) if rng.random() < 0.4 else c

    def one(a, b):
        op = q.LogicalOperator.Equal if rng.random() < 0.85 else q.LogicalOperator.Less
        return q.BinaryPredicate(op, side(a), side(b))

    ps = []
    for i in range(1, len(tabs)):
        p = one(tabs[i - 1], tabs[i])
        k = rng.random()
        if k < 0.25:
            p = q.CompoundPredicate.create_or([p, one(tabs[i - 1], tabs[i])])
        elif k < 0.4:
            p = q.CompoundPredicate.create_not(p)
        ps.append(p)
    return q.ImplicitSqlQuery(select_clause=q.Select.star(), from_clause=q.ImplicitFromClause([q.DirectTableSource(t) for t in tabs]),
                              where_clause=q.Where(q.CompoundPredicate.create_and(ps)))


class EqualJoinChecks(Lemma):
    props = P
    params = {"a": EquiCheck, "b": EquiCheck, "q": Query}
    gens = {"q": _joined}

    def lemma(a, b, q):
        return implies(a == b, hash(a) == hash(b) and a.check_supported_query(q).passed == b.check_supported_query(q).passed)


def reasons(r):
    return [] if r.passed else ([r.failure_reason] if isinstance(r.failure_reason, str) else list(r.failure_reason))


class Reasons(Contract):
    """no failure is lost"""
    target = f"{V}:PreCheckResult.merge"
    props = P
    params = {"checks": Seq(Result)}
    returns = Result
    bounded = True

    def ensures(checks, result):
        return sorted(reasons(result)) == sorted([x for c in checks for x in reasons(c)])


class MergedChecks(Lemma):
    """combining checks neither weakens nor strengthens them"""
    props = P
    params = {"checks": Seq(Check), "more": Seq(Check), "q": Query, "d": Db}
    bounded = True

    def lemma(checks, more, q, d):
        m = merge_checks(checks, *more)
        parts = checks + more
        return m.check_supported_query(q).passed == all([c.check_supported_query(q).passed for c in parts]) \
            and m.check_supported_database_system(d).passed == all([c.check_supported_database_system(d).passed for c in parts])


class MergedJoinChecks(Lemma):
    """join checks with different settings are not duplicates of each other"""
    props = P
    params = {"a": EquiCheck, "b": EquiCheck, "q": Query}
    gens = {"q": _joined}
    bounded = True

    def lemma(a, b, q):
        return merge_checks([a, b]).check_supported_query(q).passed == (a.check_supported_query(q).passed and b.check_supported_query(q).passed) \
            and merge_checks(a, b).check_supported_query(q).passed == (a.check_supported_query(q).passed and b.check_supported_query(q).passed)


class CompoundContains(Contract):
    """a check is part of a compound if and only if it is the compound itself or part of one of its checks"""
    target = f"{V}:CompoundCheck.__contains__"
    props = P
    params = {"self": Compound, "item": Check}
    gens = {"item": _check}
    bounded = True

    def ensures(self, item, result):
        return bool(result) == (item == self or any([item in c for c in self.checks]))


class CheckContains(Lemma):
    props = P
    params = {"a": Check, "b": Check}
    bounded = True

    def lemma(a, b):
        return (b in a) == (a == b or (isinstance(a, CompoundCheck) and any([b in c for c in a.checks]))) \
            and implies(not isinstance(a, (CompoundCheck, EmptyPreCheck)), a in CompoundCheck([a])) \
            and implies(a == b, b == a and hash(a) == hash(b)) and implies(a == b, isinstance(b, type(a)))


class EqualChecks(Lemma):
    """checks are only treated as duplicates of each other if they decide alike"""
    props = P
    params = {"a": Check, "b": Check, "q": Query, "d": Db}
    bounded = True

    def lemma(a, b, q, d):
        return implies(a == b, a.check_supported_query(q).passed == b.check_supported_query(q).passed
                       and a.check_supported_database_system(d).passed == b.check_supported_database_system(d).passed)


class CompoundOf(Lemma):
    props = P
    params = {"checks": Seq(Check), "q": Query, "d": Db}
    bounded = True

    def lemma(checks, q, d):
        m = CompoundCheck(checks)
        failures = [str(x) for c in checks for x in reasons(c.check_supported_query(q))]
        return m.check_supported_query(q).passed == all([c.check_supported_query(q).passed for c in checks]) \
            and m.check_supported_database_system(d).passed == all([c.check_supported_database_system(d).passed for c in checks]) \
            and sorted([str(x) for x in reasons(m.check_supported_query(q))]) == sorted(failures)


def connected(tables, links):
    """union-find by hand"""
    groups = [{t} for t in tables]
    for a, b in links:
        touched = [g for g in groups if a in g or b in g]
        groups = [g for g in groups if a not in g and b not in g] + [set().union(*touched)]
    return len(groups) <= 1


def _implicit(rng, size):
    from contracts import gens
    return gens.query(rng, size, 0, ("implicit", "nofrom"))


def _explicit(rng, size):
    from contracts import gens
    return gens.query(rng, size, 0, ("implicit", "explicit", "mixed"))


class CrossProduct(Contract):
    """a query has a cross product if and only if its join predicates do not connect all of its tables"""
    target = f"{QAL}:SqlQuery.contains_cross_product"
    props = P
    params = {"self": Query}
    returns = Bool
    bounded = True
    gens = {"self": _implicit}

    def ensures(self, result):
        links = [(a.table, b.table) for p in self.predicates().joins() for a, b in p.join_partners()]
        return result == (not connected(self.tables(), links))


class Subqueries(Contract):
    """subqueries are found in explicit joins, too"""
    target = f"{QAL}:SqlQuery.subqueries"
    props = P
    params = {"self": Query}
    bounded = True

    def ensures(self, result):
        return ("(SELECT" in str(self) and not str(self).startswith("WITH")) == (len(result) > 0) or str(self).startswith("WITH")


class BoundTables(Contract):
    """queries without subqueries bind exactly the tables of their FROM clause"""
    target = f"{QAL}:SqlQuery.bound_tables"
    props = P
    params = {"self": Query}
    bounded = True
    gens = {"self": _explicit}

    def ensures(self, result):
        return result == set(self.from_clause.tables()) and not self.is_dependent() and self.unbound_tables() == set()
