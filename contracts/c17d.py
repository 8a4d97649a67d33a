"""C17: what is hinted: a whole plan, or its individual parts."""
from pydv.api import *
from contracts.model import CORE, HINTS, QEP

PGM, DDM, MYM = "postbound.postgres", "postbound.duckdb", "postbound.mysql"
QAL = "postbound.qal._qal"
TRF = "postbound.transform"
DBM = "postbound.db._db"
use(HINTS, "jointree_from_plan", "operators_from_plan", "parameters_from_plan")
use(TRF, "add_clause", "replace_clause")
use(PGM, "PostgresExplainClause", "PostgresLimitClause", "_generate_pghintplan_hints", "_generate_pglab_plan", "_generate_pglab_hints")
P = ("C17",)


def _hints(kind):
    def g(rng, size):
        from contracts import gens
        return gens.hints_for(rng, rng.choice(kind) if isinstance(kind, tuple) else kind)
    return g


Tree = Ref("HOrder", [f"{HINTS}:JoinTree"], eq="term", opaque=True)
Plan = Ref("HPlan", [f"{QEP}:QueryPlan"], eq="term", opaque=True)
Ops = Ref("HOps", [f"{HINTS}:PhysicalOperatorAssignment"], eq="term", opaque=True)
Par = Ref("HPar", [f"{HINTS}:PlanParameterization"], eq="term", opaque=True)
Clause = Ref("HClause", [f"{QAL}:Hint", f"{QAL}:Explain", f"{QAL}:Limit", f"{PGM}:PostgresExplainClause", f"{PGM}:PostgresLimitClause"], eq="term", opaque=True, truthy=True)
Query = Ref("HQuery", [f"{QAL}:SqlQuery"], eq="term", opaque=True, truthy=True, attrs={"explain": Opt(Clause), "limit_clause": Opt(Clause)})
Pg = Ref("HPg", [f"{PGM}:PostgresInterface"], eq="term", opaque=True)
PgHints = Obj("PgHints", f"{PGM}:PostgresHintService", {"_postgres_db": Pg, "_inactive": Bool, "_backend": Str})


class Replaced(Contract):
    target = f"{TRF}:replace_clause"
    props = P
    params = {"query": Query, "replacements": Clause}
    returns = Query
    trusted = True
    note = "exchanging clauses is the subject of C12"


class Added(Contract):
    target = f"{TRF}:add_clause"
    props = P
    params = {"query": Query, "clauses_to_add": Clause}
    returns = Query
    trusted = True
    note = "exchanging clauses is the subject of C12"


class NewExplain(Contract):
    target = f"{PGM}:PostgresExplainClause.__init__"
    props = P
    params = {"original_clause": Clause}
    returns = Clause
    trusted = True
    constructs = True
    note = "clauses are opaque here"


class NewLimit(Contract):
    target = f"{PGM}:PostgresLimitClause.__init__"
    props = P
    params = {"original_clause": Clause}
    returns = Clause
    trusted = True
    constructs = True
    note = "clauses are opaque here"


class OrderOf(Contract):
    target = f"{HINTS}:jointree_from_plan"
    props = P
    params = {"plan": Plan, "card_source": Str}
    returns = Tree
    trusted = True
    note = "the subject of C08"


class OpsOf(Contract):
    target = f"{HINTS}:operators_from_plan"
    props = P
    params = {"query_plan": Plan, "include_workers": Bool}
    returns = Ops
    trusted = True
    note = "the subject of C08"


class ParOf(Contract):
    target = f"{HINTS}:parameters_from_plan"
    props = P
    params = {"query_plan": Plan, "target_cardinality": Str, "fallback_estimated": Bool}
    returns = Par
    trusted = True
    note = "the subject of C08"


class PgHintPlanBlock(Contract):
    target = f"{PGM}:_generate_pghintplan_hints"
    props = P
    params = {"query": Query, "join_order": Opt(Tree), "phys_ops": Opt(Ops), "plan_params": Opt(Par), "pg_instance": Pg}
    returns = Clause
    trusted = True
    note = "the contents of hint blocks are checked by the bounded contracts of C17"


class PgLabPlanBlock(Contract):
    target = f"{PGM}:_generate_pglab_plan"
    props = P
    params = {"plan": Plan}
    returns = Clause
    trusted = True
    note = "the contents of hint blocks are checked by the bounded contracts of C17"


class PgLabBlock(Contract):
    target = f"{PGM}:_generate_pglab_hints"
    props = P
    params = {"join_order": Opt(Tree), "phys_ops": Opt(Ops), "plan_params": Opt(Par)}
    returns = Clause
    trusted = True
    note = "the contents of hint blocks are checked by the bounded contracts of C17"


def adapted(q):
    """the query in the dialect of Postgres"""
    e = q.explain
    r = q if e is None or isinstance(e, PostgresExplainClause) else replace_clause(q, PostgresExplainClause(e))
    n = r.limit_clause
    return r if n is None or isinstance(n, PostgresLimitClause) else replace_clause(r, PostgresLimitClause(n))


class PgHinted(Contract):
    """a plan is hinted like the join order, operators and parameters it consists of - or as a whole by pg_lab; never along with other decisions"""
    target = f"{PGM}:PostgresHintService.generate_hints"
    family = "HintedQuery"
    props = P
    params = {"self": PgHints, "query": Query, "plan": Opt(Plan), "join_order": Opt(Tree), "physical_operators": Opt(Ops), "plan_parameters": Opt(Par)}
    returns = Query
    gen = _hints(("pg_lab", "pg_hint_plan"))
    raises = {"ValueError": "conflict"}

    def requires(self):
        return not self._inactive and (self._backend == "pg_lab" or self._backend == "pg_hint_plan")

    def conflict(self, plan, join_order, physical_operators, plan_parameters):
        return plan is not None and (join_order is not None or physical_operators is not None or plan_parameters is not None)

    def ensures_hint_plan(self, query, plan, join_order, physical_operators, plan_parameters, result):
        if self._backend != "pg_hint_plan":
            return True
        if plan is None:
            return same(result, add_clause(adapted(query), _generate_pghintplan_hints(query, join_order, physical_operators, plan_parameters, pg_instance=self._postgres_db)))
        return same(result, add_clause(adapted(query), _generate_pghintplan_hints(
            query, jointree_from_plan(plan), operators_from_plan(plan), parameters_from_plan(plan, target_cardinality="actual", fallback_estimated=True), pg_instance=self._postgres_db)))

    def ensures_lab(self, query, plan, join_order, physical_operators, plan_parameters, result):
        if self._backend != "pg_lab":
            return True
        if plan is None:
            return same(result, add_clause(adapted(query), _generate_pglab_hints(join_order, physical_operators, plan_parameters)))
        return same(result, add_clause(adapted(query), _generate_pglab_plan(plan)))
