"""C17: the hint blocks state the decisions of the optimizer (whole hint blocks, read back and compared to the decisions)."""
import re
from pydv.api import *
from contracts.model import CORE

PGM, DDM, MYM = "postbound.postgres", "postbound.duckdb", "postbound.mysql"
use("postbound._hints", "jointree_from_plan", "operators_from_plan", "parameters_from_plan", "PlanParameterization", "PhysicalOperatorAssignment")
use(CORE, "ScanOperator", "JoinOperator", "IntermediateOperator")
use("postbound.qal._qal", "Hint", "Explain", "Limit")
use(DDM, "DuckDBInterface")
use("postbound.parser", "parse_query")
use("postbound.transform", "add_clause")
P = ("C17",)


def _hints(kind):
    def g(rng, size):
        from contracts import gens
        return gens.hints_for(rng, kind)
    return g


def nested(t):
    """the nesting of the tables of a join tree or query plan, outer side first"""
    if t.is_scan():
        return t.base_table.identifier()
    if t.is_join():
        return (nested(t.outer_child), nested(t.inner_child))
    return nested(t.input_node)


def reads(text):
    """'(a (b c))' as nested pairs"""
    toks, at = re.findall(r"[()]|[^()\s]+", text), [0]

    def one():
        t = toks[at[0]]
        at[0] += 1
        if t != "(":
            return t
        out = []
        while toks[at[0]] != ")":
            out.append(one())
        at[0] += 1
        return tuple(out)
    r = one()
    return r if at[0] == len(toks) else ("trailing tokens", text)


def block(hint, start):
    """the lines of a hint block as pairs of keyword and arguments"""
    lines = hint.query_hints.split("\n")
    if lines[0].strip() != start or lines[-1].strip() != "*/":
        return [("malformed", hint.query_hints)]
    out = []
    for ln in lines[1:-1]:
        if ln.strip():
            m = re.fullmatch(r"\s*(\w+)\((.*)\)\s*", ln)
            out.append(("malformed", ln) if m is None else (m.group(1), m.group(2)))
    return out


OPS = ("SeqScan", "IdxScan", "IndexScan", "IndexOnlyScan", "BitmapScan", "NestLoop", "HashJoin", "MergeJoin", "Memo", "Memoize", "Material")


def operators(lines):
    """[operator, tables, number of workers (0 if not given)]"""
    out = []
    for k, a in lines:
        if k in OPS:
            m = re.fullmatch(r"(.*?)\s*(\(workers=(\d+)\))?", a)
            out.append([{"IdxScan": "Index", "IndexScan": "Index", "IndexOnlyScan": "Index", "Memoize": "Memo"}.get(k, k), sorted(m.group(1).split()), int(m.group(3) or 0)])
    return sorted(out)


def of_kind(lines, *kinds):
    return [a for k, a in lines if k in kinds]


def cards(lines):
    return sorted([sorted(a.rsplit("#", 1)[0].split()), a.rsplit("#", 1)[1]] for a in of_kind(lines, "Card", "Rows"))


def names(tabs):
    return sorted(t.identifier() for t in tabs)


NAME = {}


def op_name(o):
    if not NAME:
        NAME.update({ScanOperator.SequentialScan: "SeqScan", ScanOperator.IndexScan: "Index", ScanOperator.IndexOnlyScan: "Index", ScanOperator.BitmapScan: "BitmapScan",
                     JoinOperator.NestedLoopJoin: "NestLoop", JoinOperator.HashJoin: "HashJoin", JoinOperator.SortMergeJoin: "MergeJoin",
                     IntermediateOperator.Memoize: "Memo", IntermediateOperator.Materialize: "Material"})
    return NAME.get(o)


def knob(o):
    return {ScanOperator.SequentialScan: "enable_seqscan", ScanOperator.IndexScan: "enable_indexscan", ScanOperator.IndexOnlyScan: "enable_indexonlyscan",
            ScanOperator.BitmapScan: "enable_bitmapscan", JoinOperator.NestedLoopJoin: "enable_nestloop", JoinOperator.HashJoin: "enable_hashjoin",
            JoinOperator.SortMergeJoin: "enable_mergejoin", IntermediateOperator.Memoize: "enable_memoize", IntermediateOperator.Materialize: "enable_material",
            IntermediateOperator.Sort: "enable_sort"}[o]


def decided(ops, par, skip=()):
    """[operator, tables, number of workers] of the assigned operators; the plan parameters override the workers"""
    out = []
    if ops is None:
        return out
    given = {} if par is None else par.parallel_workers
    some = lambda w: w if w == w else 0
    for t, a in ops.scan_operators.items():
        out.append([op_name(a.operator), names([t]), some(given.get(frozenset([t]), a.parallel_workers))])
    for j, a in ops.join_operators.items():
        out.append([op_name(a.operator), names(j), some(given.get(j, a.parallel_workers))])
    for j, o in ops.intermediate_operators.items():
        if op_name(o) not in (None,) + tuple(skip):
            out.append([op_name(o), names(j), 0])
    return sorted(out)


def once(stated, wanted):
    """the same operators; the workers are stated for at most one of them, and for one of them if there are any"""
    if [o[:2] for o in stated] != [o[:2] for o in wanted]:
        return False
    par = [o for o in stated if o[2]]
    return len(par) == (1 if any(o[2] > 1 for o in wanted) else 0) and all(o in wanted for o in par)


def knobs(ops):
    return [] if ops is None else sorted([knob(o), "on" if v else "off"] for o, v in ops.global_settings.items())


def settings(par):
    return [] if par is None else sorted([k, str(v)] for k, v in par.system_settings.items())


def valid_cards(par):
    return [] if par is None else sorted([names(t), str(c.value)] for t, c in par.cardinalities.items() if c.is_valid())


def sets(lines):
    out = []
    for a in of_kind(lines, "Set"):
        k, v = re.fullmatch(r"(\w+)\s*=?\s*(.*)", a).groups()
        v = v.strip("'")
        out.append([k, {"True": "on", "False": "off"}.get(v, v) if k.startswith("enable_") else v])
    return sorted(out)


def parts(plan, order, ops, par, **kw):
    if plan is None:
        return order, ops, par
    return jointree_from_plan(plan), operators_from_plan(plan), parameters_from_plan(plan, **kw)


def otherwise_same(query, result):
    """only the hints are new, EXPLAIN and LIMIT may be written in another dialect"""
    def told(c):
        if isinstance(c, Explain):
            return ["explain", c.analyze, str(c.target_format)]
        if isinstance(c, Limit):
            return ["limit", c.limit, c.offset, c.fetch_direction]
        return c
    keep = lambda q: [told(c) for c in q.clauses() if not isinstance(c, Hint)]
    return keep(query) == keep(result)


def join_orders(lines, kind):
    return [reads(a) for a in of_kind(lines, kind)]


class PgLabHints(Contract):
    """pg_lab: join order, operators, settings and cardinalities of the parts of a plan"""
    target = f"{PGM}:PostgresHintService.generate_hints"
    family = "PgLab"
    props = P
    params = {"self": Any, "query": Any, "plan": Any, "join_order": Any, "physical_operators": Any, "plan_parameters": Any}
    bounded = True
    gen = _hints("pg_lab")
    raises = {"ValueError": "conflict"}

    def conflict(plan, join_order, physical_operators, plan_parameters):
        return plan is not None and (join_order is not None or physical_operators is not None or plan_parameters is not None)

    def ensures_frame(query, result):
        return otherwise_same(query, result) and result.hints is not None

    def ensures_parts(plan, join_order, physical_operators, plan_parameters, result):
        if plan is not None:
            return True
        lines, ops, par = block(result.hints, "/*=pg_lab="), physical_operators, plan_parameters
        configs = ["plan_mode=anchored"] + ([f"exec_mode={par.execution_mode}"] if par is not None and par.execution_mode else [])
        return join_orders(lines, "JoinOrder") == ([nested(join_order)] if join_order is not None and len(join_order.tables()) > 1 else []) \
            and once(operators(lines), decided(ops, par)) and sets(lines) == sorted(knobs(ops) + settings(par)) and cards(lines) == valid_cards(par) \
            and of_kind(lines, "Config") == configs and not result.hints.preparatory_statements \
            and all(k in OPS + ("JoinOrder", "Config", "Set", "Card") for k, _ in lines)

    def ensures_plan(plan, result):
        if plan is None:
            return True
        lines = block(result.hints, "/*=pg_lab=")
        nodes, todo = [], [plan]
        while todo:
            nodes.append(todo.pop())
            todo.extend(nodes[-1].children)
        hinted = [n for n in nodes if op_name(n.operator) is not None]
        stated, own = operators(lines), [n.parallel_workers for n in nodes if n.parallel_workers]
        par = [o[2] for o in stated if o[2]] + [int(a.split("=")[1]) for a in of_kind(lines, "Result")]
        best = lambda n: n.actual_cardinality if n.actual_cardinality.is_valid() else n.estimated_cardinality
        return join_orders(lines, "JoinOrder") == [nested(plan)] and of_kind(lines, "Config") == ["plan_mode=full"] \
            and [o[:2] for o in stated] == sorted([op_name(n.operator), names(n.tables())] for n in hinted) \
            and cards(lines) == sorted([names(n.tables()), str(best(n).value)] for n in hinted if best(n).is_valid()) \
            and len(par) <= 1 and all(w in own for w in par) and (bool(par) or not any(n.parallel_workers for n in hinted)) and sets(lines) == [] \
            and not result.hints.preparatory_statements


class PgHintPlanHints(Contract):
    """pg_hint_plan: join order, operators, settings and cardinalities of a plan, or of its parts"""
    target = f"{PGM}:PostgresHintService.generate_hints"
    family = "PgHintPlan"
    props = P
    params = {"self": Any, "query": Any, "plan": Any, "join_order": Any, "physical_operators": Any, "plan_parameters": Any}
    bounded = True
    gen = _hints("pg_hint_plan")
    raises = {"ValueError": "conflict"}

    def conflict(plan, join_order, physical_operators, plan_parameters):
        return plan is not None and (join_order is not None or physical_operators is not None or plan_parameters is not None)

    def ensures_frame(query, result):
        return otherwise_same(query, result) and result.hints is not None

    def ensures_decisions(self, query, plan, join_order, physical_operators, plan_parameters, result):
        lines = block(result.hints, "/*+")
        order, ops, par = parts(plan, join_order, physical_operators, plan_parameters, target_cardinality="actual", fallback_estimated=True)
        if of_kind(lines, "Leading") and not all(a.startswith("(") for a in of_kind(lines, "Leading")):
            return False
        state = [s for s in sets(lines) if s != ["geqo", "off"]]
        geqo = [s for s in sets(lines) if s == ["geqo", "off"]]
        prep = sorted(result.hints.preparatory_statements.split("\n")) if result.hints.preparatory_statements else []
        wanted = decided(ops, None, skip=("Material",))
        return join_orders(lines, "Leading") == ([nested(order)] if order is not None and len(order.tables()) > 1 else []) \
            and [o[:2] for o in operators(lines)] == [o[:2] for o in wanted] and state == knobs(ops) and cards(lines) == valid_cards(par) \
            and prep == sorted(f"SET LOCAL {k} TO '{v}';" for k, v in settings(par)) \
            and bool(geqo) == (len(query.tables()) > int(self._postgres_db.config["geqo_threshold"])) \
            and all(k in OPS + ("Leading", "Parallel", "Set", "Rows") for k, _ in lines)

    def ensures_workers(plan, join_order, physical_operators, plan_parameters, result):
        """all parallel hints belong to a single decision, and name the tables of it"""
        order, ops, par = parts(plan, join_order, physical_operators, plan_parameters)
        asked = [[o[1], o[2]] for o in decided(ops, None) if o[2] > 1] + ([] if par is None else [[names(t), w] for t, w in par.parallel_workers.items() if w > 1])
        stated = [a.split() for a in of_kind(block(result.hints, "/*+"), "Parallel")]
        if not stated:
            return not asked
        return all(len(s) == 3 and s[2] == "hard" for s in stated) and [sorted(s[0] for s in stated), int(stated[0][1])] in asked and len({s[1] for s in stated}) == 1


class DuckDbHints(Contract):
    """quack_lab: join order, operators, settings and cardinalities of a plan, or of its parts"""
    target = f"{DDM}:DuckDBHintService.generate_hints"
    props = P
    params = {"self": Any, "query": Any, "plan": Any, "join_order": Any, "physical_operators": Any, "plan_parameters": Any}
    bounded = True
    gen = _hints("duckdb")
    raises = {"ValueError": "conflict", "UnsupportedDatabaseFeatureError": "unsupported"}

    def conflict(plan, join_order, physical_operators, plan_parameters):
        return plan is not None and (join_order is not None or physical_operators is not None or plan_parameters is not None)

    def unsupported(plan, join_order, physical_operators, plan_parameters):
        if plan is not None and (join_order is not None or physical_operators is not None or plan_parameters is not None):
            return False
        order, ops, par = parts(plan, join_order, physical_operators, plan_parameters)
        no = (ScanOperator.IndexOnlyScan, ScanOperator.BitmapScan, JoinOperator.IndexNestedLoopJoin)
        return (ops is not None and (any(a.operator in no for a in ops)
                                     or bool(ops.intermediate_operators)
                                     or any(o in no or isinstance(o, IntermediateOperator) for o in ops.global_settings))) \
            or (par is not None and bool(par.parallel_workers))

    def ensures_frame(query, result):
        return otherwise_same(query, result)

    def ensures_decisions(query, plan, join_order, physical_operators, plan_parameters, result):
        order, ops, par = parts(plan, join_order, physical_operators, plan_parameters)
        wanted = [[nested(order)] if order is not None and len(order.tables()) > 2 else [], [o[:2] for o in decided(ops, None)], knobs(ops), valid_cards(par),
                  sorted(f"SET {k} = " + (f"'{v}';" if isinstance(v, str) else f"{v};") for k, v in ([] if par is None else par.system_settings.items()))]
        if not any(wanted):
            return result.hints == query.hints
        lines = block(result.hints, "/*=quack_lab=")
        prep = sorted(result.hints.preparatory_statements.split("\n")) if result.hints.preparatory_statements else []
        return [join_orders(lines, "JoinOrder"), [o[:2] for o in operators(lines)], sets(lines), cards(lines), prep] == wanted \
            and all(k in OPS + ("JoinOrder", "Set", "Card") for k, _ in lines)


class MysqlHints(Contract):
    """MySQL: join order, operators and settings of a plan, or of its parts"""
    target = f"{MYM}:MysqlHintService.generate_hints"
    props = P
    params = {"self": Any, "query": Any, "plan": Any, "join_order": Any, "physical_operators": Any, "plan_parameters": Any}
    bounded = True
    gen = _hints("mysql")
    raises = {"UnsupportedDatabaseFeatureError": "unsupported"}

    def unsupported(plan, join_order, physical_operators, plan_parameters):
        order, ops, par = parts(plan, join_order, physical_operators, plan_parameters)
        return order is not None and not order.is_empty() and not straight(order)

    def ensures_frame(query, result):
        return otherwise_same(query, result)

    def ensures_decisions(query, plan, join_order, physical_operators, plan_parameters, result):
        order, ops, par = parts(plan, join_order, physical_operators, plan_parameters)
        lead = flat(nested(order)) if order is not None and not order.is_empty() else []
        code = {"SeqScan": "NO_INDEX", "Index": "INDEX", "BitmapScan": "INDEX_MERGE", "NestLoop": "NO_BNL", "HashJoin": "BNL"}
        hinted = sorted([code[o[0]], o[1]] for o in decided(ops, None, skip=("Memo", "Material")))
        prep = []
        if ops is not None and ops.global_settings:
            prep.append("SET @@optimizer_switch='block_nested_loop=" + ("on" if ops.global_settings[JoinOperator.HashJoin] else "off") + "';")
        for k, v in ([] if par is None else par.system_settings.items()):
            prep.append(f"SET {k}=" + (("TRUE" if v else "FALSE") if isinstance(v, bool) else f"'{v}'" if isinstance(v, str) else str(v)) + ";")
        if not lead and not hinted and not prep:
            return result == query
        lines = block(result.hints, "/*+") if result.hints.query_hints else []
        given = result.hints.preparatory_statements.split("\n") if result.hints.preparatory_statements else []
        comma = lambda a: [x.strip() for x in a.split(",")]
        return [comma(a) for a in of_kind(lines, "JOIN_ORDER")] == ([lead] if lead else []) and sorted(given) == sorted(prep) \
            and sorted([k, sorted(comma(a))] for k, a in lines if k != "JOIN_ORDER") == hinted


def flat(n):
    return [n] if isinstance(n, str) else [x for y in n for x in flat(y)]


def straight(t):
    return t.is_scan() or ((t.outer_child.is_scan() or t.inner_child.is_scan()) and straight(t.outer_child) and straight(t.inner_child))


class MysqlText(Contract):
    """the text for MySQL explains in its dialect, and contains the hint block once"""
    target = f"{MYM}:MysqlHintService.format_query"
    props = P
    params = {"self": Any, "query": Any}
    bounded = True

    def gen(rng, size):
        from contracts import gens
        from postbound.transform import add_clause
        from postbound.qal import Explain, Hint
        a = gens.hints_for(rng, "mysql")
        q = gens.query(rng)
        q = add_clause(q, [Hint(rng.choice(["", "SET x=1;"]), "/*+\n  NO_INDEX(r)\n*/")] + [Explain(rng.random() < 0.5, rng.choice(["JSON", "TREE"]))] * (rng.random() < 0.7))
        return {"self": a["self"], "query": q}

    def ensures_explain(query, result):
        if query.explain is None:
            return "EXPLAIN" not in result
        return " ".join(["EXPLAIN"] + (["ANALYZE"] if query.explain.analyze else []) + [f"FORMAT={query.explain.target_format}"]) in " ".join(result.split())

    def ensures_hints(query, result):
        return result.count("NO_INDEX(r)") == 1


class DuckDbSettings(Lemma):
    """the settings of a query are in effect when it is executed"""
    props = P
    params = {"n": Int, "by_hints": Bool}
    bounded = True

    def gen(rng, size):
        return {"n": rng.choice([1, 2, 3, 5]), "by_hints": rng.random() < 0.5}

    def lemma(n, by_hints):
        db = DuckDBInterface(":memory:")
        try:
            q = parse_query("SELECT current_setting('threads')", bind_columns=False)
            if by_hints:
                q = db.hinting().generate_hints(q, plan_parameters=PlanParameterization().set_system_settings(threads=n))
            else:
                q = add_clause(q, Hint(f"SET threads = {n};", ""))
            return int(db.execute_query(q)) == n
        finally:
            db.close()
