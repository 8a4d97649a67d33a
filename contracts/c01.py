"""C01: operator assignments store exactly what was assigned, and combine faithfully."""
from pydv.api import *
from contracts.model import *

use(HINTS, "PhysicalOperatorAssignment", "ScanOperatorAssignment", "JoinOperatorAssignment", "DirectionalJoinOperatorAssignment")
use(CORE, "ScanOperator", "JoinOperator", "IntermediateOperator", "TableReference")

POA = f"{HINTS}:PhysicalOperatorAssignment"
P = ("C01",)


def _poa(rng, size):
    from contracts import gens
    return gens.poa(rng, size)


def _pp(rng, size):
    from contracts import gens
    return gens.params(rng, size)


Assign = Obj("Assign", POA, {
    "global_settings": Map(Operator, Bool),
    "join_operators": Map(Tables, JoinAssign),
    "intermediate_operators": Map(Tables, InterOp),
    "scan_operators": Map(Table, ScanAssign)}, gen=_poa)

Params = Obj("Params", f"{HINTS}:PlanParameterization", {
    "cardinalities": Map(Tables, Card),
    "parallel_workers": Map(Tables, Flt),
    "system_settings": Map(Str, Any),
    "execution_mode": Opt(Str)}, gen=_pp)


# a stored assignment is filed under its own table / tables
def keyed(a):
    return forall(a.scan_operators, lambda t, o: same(o.table, t)) and forall(a.join_operators, lambda ts, o: same(o.join, ts))


def others_same(a, b):
    return same(a.global_settings, b.global_settings) and same(a.join_operators, b.join_operators) \
        and same(a.intermediate_operators, b.intermediate_operators) and same(a.scan_operators, b.scan_operators)


@invariant(JoinAssign)
def join_has_two(o):
    return len(o.join) >= 2


@invariant(JoinAssign)
def directional_covers(o):
    return not o.is_directional() or (same(o.join, o.inner | o.outer) and len(o.inner) > 0 and len(o.outer) > 0)


class ScanAssignInit(Contract):
    target = f"{HINTS}:ScanOperatorAssignment.__init__"
    props = P
    params = {"self": Obj("NewScan", f"{HINTS}:ScanOperatorAssignment", {}), "operator": ScanOp, "table": Table, "parallel_workers": Flt}
    modifies = ["self"]
    use_at_calls = False

    def ensures_stored(self, operator, table, parallel_workers):
        return same(self.operator, operator) and same(self.table, table) and same(self.parallel_workers, parallel_workers)


class JoinAssignInit(Contract):
    target = f"{HINTS}:JoinOperatorAssignment.__init__"
    props = P
    params = {"self": Obj("NewJoin", f"{HINTS}:JoinOperatorAssignment", {}), "operator": JoinOp, "join": Tables, "parallel_workers": Flt}
    modifies = ["self"]
    raises = {"ValueError": "too_few"}
    use_at_calls = False

    def too_few(join):
        return len(join) < 2

    def ensures_stored(self, operator, join, parallel_workers):
        return same(self.operator, operator) and same(self.join, join) and same(self.parallel_workers, parallel_workers)


class SetScan(Contract):
    target = f"{POA}.set_scan_operator"
    props = P
    params = {"self": Assign, "operator": ScanAssign, "table": MISSING}
    modifies = ["self.scan_operators"]
    returns = "self"

    def ensures(self, old_self, operator):
        return same(self.scan_operators, mapput(old_self.scan_operators, operator.table, operator))


class SetScanByOperator(Contract):
    target = f"{POA}.set_scan_operator"
    props = P
    params = {"self": Assign, "operator": ScanOp, "table": Table}
    modifies = ["self.scan_operators"]
    returns = "self"

    def ensures(self, old_self, operator, table):
        o = self.scan_operators[table]
        return same(o.operator, operator) and same(o.table, table) and is_nan(o.parallel_workers) \
            and same(self.scan_operators, mapput(old_self.scan_operators, table, o))


class SetJoin(Contract):
    target = f"{POA}.set_join_operator"
    props = P
    params = {"self": Assign, "operator": JoinAssign, "tables": MISSING}
    modifies = ["self.join_operators"]
    returns = "self"

    def ensures(self, old_self, operator):
        return same(self.join_operators, mapput(old_self.join_operators, operator.join, operator))


class SetJoinByOperator(Contract):
    target = f"{POA}.set_join_operator"
    props = P
    params = {"self": Assign, "operator": JoinOp, "tables": Tables}
    modifies = ["self.join_operators"]
    returns = "self"
    raises = {"ValueError": "too_few"}

    def too_few(tables):
        return len(tables) < 2

    def ensures(self, old_self, operator, tables):
        o = self.join_operators[tables]
        return same(o.operator, operator) and same(o.join, tables) and is_nan(o.parallel_workers) and not o.is_directional() \
            and same(self.join_operators, mapput(old_self.join_operators, tables, o))


class SetIntermediate(Contract):
    target = f"{POA}.set_intermediate_operator"
    props = P
    params = {"self": Assign, "operator": InterOp, "tables": Tables}
    modifies = ["self.intermediate_operators"]
    returns = "self"

    def ensures(self, old_self, operator, tables):
        return same(self.intermediate_operators, mapput(old_self.intermediate_operators, tables, operator))


class Merge(Contract):
    target = f"{POA}.merge_with"
    props = P
    params = {"self": Assign, "other_assignment": Assign}
    returns = Assign

    def ensures_global(self, other_assignment, result):
        return same(result.global_settings, mapmerge(self.global_settings, other_assignment.global_settings))

    def ensures_scans(self, other_assignment, result):
        return same(result.scan_operators, mapmerge(self.scan_operators, other_assignment.scan_operators))

    def ensures_joins(self, other_assignment, result):
        return same(result.join_operators, mapmerge(self.join_operators, other_assignment.join_operators))

    def ensures_inter(self, other_assignment, result):
        return same(result.intermediate_operators, mapmerge(self.intermediate_operators, other_assignment.intermediate_operators))


class Clone(Contract):
    target = f"{POA}.clone"
    props = P
    params = {"self": Assign}
    returns = Assign

    def ensures_same_content(self, result):
        return others_same(self, result)

    def ensures_independent(self, result):
        return result is not self and result.global_settings is not self.global_settings \
            and result.join_operators is not self.join_operators and result.scan_operators is not self.scan_operators \
            and result.intermediate_operators is not self.intermediate_operators


class GlobalOnly(Contract):
    target = f"{POA}.global_settings_only"
    props = P
    params = {"self": Assign}
    returns = Assign

    def ensures(self, result):
        return same(result.global_settings, self.global_settings) and len(result.scan_operators) == 0 \
            and len(result.join_operators) == 0 and len(result.intermediate_operators) == 0 \
            and result.global_settings is not self.global_settings


class SetGlobal(Contract):
    target = f"{POA}.set_operator_enabled_globally"
    props = P
    params = {"self": Assign, "operator": Operator, "enabled": Bool, "overwrite_fine_grained_selection": Bool}
    modifies = ["self.global_settings", "self.scan_operators", "self.join_operators", "self.intermediate_operators"]
    returns = "self"

    def ensures_setting(self, old_self, operator, enabled):
        return same(self.global_settings, mapput(old_self.global_settings, operator, enabled))

    def ensures_untouched(self, old_self, operator, enabled, overwrite_fine_grained_selection):
        return implies(enabled or not overwrite_fine_grained_selection,
                       same(self.scan_operators, old_self.scan_operators) and same(self.join_operators, old_self.join_operators)
                       and same(self.intermediate_operators, old_self.intermediate_operators))

    def ensures_scan_overwrite(self, old_self, operator, enabled, overwrite_fine_grained_selection):
        return implies(not enabled and overwrite_fine_grained_selection,
                       same(self.scan_operators, {t: o for t, o in old_self.scan_operators.items() if o.operator != operator}))

    def ensures_join_overwrite(self, old_self, operator, enabled, overwrite_fine_grained_selection):
        return implies(not enabled and overwrite_fine_grained_selection,
                       same(self.join_operators, {t: o for t, o in old_self.join_operators.items() if o.operator != operator}))

    def ensures_inter_overwrite(self, old_self, operator, enabled, overwrite_fine_grained_selection):
        return implies(not enabled and overwrite_fine_grained_selection,
                       same(self.intermediate_operators, {t: o for t, o in old_self.intermediate_operators.items() if o != operator}))


class EnabledGlobally(Contract):
    target = f"{POA}.get_globally_enabled_operators"
    props = P
    params = {"self": Assign, "include_by_default": Bool}
    returns = Set(Operator)

    def ensures_scan(self, include_by_default, result):
        return forall(list(ScanOperator), lambda o: (o in result) == self.global_settings.get(o, include_by_default))

    def ensures_join(self, include_by_default, result):
        return forall(list(JoinOperator), lambda o: (o in result) == self.global_settings.get(o, include_by_default))

    def ensures_inter(self, include_by_default, result):
        return forall(list(IntermediateOperator), lambda o: (o in result) == self.global_settings.get(o, include_by_default))


class GetTable(Contract):
    target = f"{POA}.get"
    props = P
    params = {"self": Assign, "intermediate": Table, "default": Opt(ScanAssign)}
    returns = Opt(ScanAssign)

    def ensures(self, intermediate, default, result):
        return same(result, self.scan_operators[intermediate]) if intermediate in self.scan_operators else same(result, default)


class GetItemOperator(Contract):
    target = f"{POA}.__getitem__"
    props = P
    params = {"self": Assign, "item": Operator}
    returns = Opt(Bool)

    def ensures(self, item, result):
        return same(result, self.global_settings[item]) if item in self.global_settings else result is None


class GetItemTable(Contract):
    target = f"{POA}.__getitem__"
    props = P
    params = {"self": Assign, "item": Table}
    returns = Opt(ScanAssign)

    def ensures(self, item, result):
        return same(result, self.scan_operators[item]) if item in self.scan_operators else result is None


class ContainsTable(Contract):
    target = f"{POA}.__contains__"
    props = P
    params = {"self": Assign, "item": Table}
    returns = Bool

    def ensures(self, item, result):
        return result == (item in self.scan_operators)


class Equality(Contract):
    target = f"{POA}.__eq__"
    props = P
    params = {"self": Assign, "other": Assign}
    returns = Bool

    def ensures(self, other, result):
        return result == others_same(self, other)


# -- lookups through sets of tables ---------------------------------------------------------------------------------------

class GetSet(Contract):
    target = f"{POA}.get"
    props = P
    params = {"self": Assign, "intermediate": Tables, "default": Opt(JoinAssign)}

    def requires(intermediate):
        return len(intermediate) != 1

    def ensures(self, intermediate, default, result):
        return same(result, self.join_operators[intermediate]) if intermediate in self.join_operators else same(result, default)


class GetSingleton(Contract):
    target = f"{POA}.get"
    props = P
    params = {"self": Assign, "intermediate": Tables, "default": Opt(ScanAssign)}

    def requires(intermediate):
        return len(intermediate) == 1

    def ensures_found(self, intermediate, result):
        return forall(intermediate, lambda t: implies(t in self.scan_operators, same(result, self.scan_operators[t])))

    def ensures_default(self, intermediate, default, result):
        return forall(intermediate, lambda t: implies(t not in self.scan_operators, same(result, default)))


class GetItemSet(Contract):
    target = f"{POA}.__getitem__"
    props = P
    params = {"self": Assign, "item": Tables}

    def requires(item):
        return len(item) >= 2

    def ensures(self, item, result):
        return same(result, self.join_operators[item]) if item in self.join_operators else result is None


class GetItemSingleton(Contract):
    target = f"{POA}.__getitem__"
    props = P
    params = {"self": Assign, "item": Tables}

    def requires(item):
        return len(item) == 1

    def ensures(self, item, result):
        return forall(item, lambda t: same(result, self.scan_operators[t]) if t in self.scan_operators else result is None)


class ContainsSet(Contract):
    target = f"{POA}.__contains__"
    props = P
    params = {"self": Assign, "item": Tables}
    returns = Bool

    def requires(item):
        return len(item) != 1

    def ensures(self, item, result):
        return result == (item in self.join_operators)


class ContainsSingleton(Contract):
    target = f"{POA}.__contains__"
    props = P
    params = {"self": Assign, "item": Tables}
    returns = Bool

    def requires(item):
        return len(item) == 1

    def ensures(self, item, result):
        return forall(item, lambda t: result == (t in self.scan_operators))


# -- generic additions ----------------------------------------------------------------------------------------------------

class AddScan(Contract):
    target = f"{POA}.add"
    props = P
    params = {"self": Assign, "operator": ScanAssign, "tables": MISSING}
    modifies = ["self.scan_operators"]
    returns = "self"

    def ensures(self, old_self, operator):
        return same(self.scan_operators, mapput(old_self.scan_operators, operator.table, operator))


class AddJoin(Contract):
    target = f"{POA}.add"
    props = P
    params = {"self": Assign, "operator": JoinAssign, "tables": MISSING}
    modifies = ["self.join_operators"]
    returns = "self"

    def ensures(self, old_self, operator):
        return same(self.join_operators, mapput(old_self.join_operators, operator.join, operator))


class AddScanByOperator(Contract):
    target = f"{POA}.add"
    props = P
    params = {"self": Assign, "operator": ScanOp, "tables": Table}
    modifies = ["self.scan_operators"]
    returns = "self"

    def ensures(self, old_self, operator, tables):
        o = self.scan_operators[tables]
        return same(o.operator, operator) and same(o.table, tables) and is_nan(o.parallel_workers) \
            and same(self.scan_operators, mapput(old_self.scan_operators, tables, o))


class AddJoinByOperator(Contract):
    target = f"{POA}.add"
    props = P
    params = {"self": Assign, "operator": JoinOp, "tables": SetOfTables}
    modifies = ["self.join_operators"]
    returns = "self"
    raises = {"ValueError": "too_few"}

    def too_few(tables):
        return len(tables) < 2

    def ensures(self, old_self, operator, tables):
        o = self.join_operators[frozenset(tables)]
        return same(o.operator, operator) and same(o.join, frozenset(tables)) and is_nan(o.parallel_workers) and not o.is_directional() \
            and same(self.join_operators, mapput(old_self.join_operators, frozenset(tables), o))


class AddIntermediate(Contract):
    target = f"{POA}.add"
    props = P
    params = {"self": Assign, "operator": InterOp, "tables": SetOfTables}
    modifies = ["self.intermediate_operators"]
    returns = "self"

    def ensures(self, old_self, operator, tables):
        return same(self.intermediate_operators, mapput(old_self.intermediate_operators, frozenset(tables), operator))


class AddIntermediateOnTable(Contract):
    target = f"{POA}.add"
    props = P
    params = {"self": Assign, "operator": InterOp, "tables": Table}
    modifies = ["self.intermediate_operators"]
    returns = "self"

    def ensures(self, old_self, operator, tables):
        return same(self.intermediate_operators, mapput(old_self.intermediate_operators, frozenset([tables]), operator))


class SetShortcut(Contract):
    target = f"{POA}.set"
    props = P
    params = {"self": Assign, "operator": Operator, "enabled": Bool}
    modifies = ["self.global_settings"]
    returns = "self"

    def ensures(self, old_self, operator, enabled):
        return same(self.global_settings, mapput(old_self.global_settings, operator, enabled))


# -- whole-object observers -----------------------------------------------------------------------------------------------

class Truthiness(Contract):
    target = f"{POA}.__bool__"
    props = P
    params = {"self": Assign}
    returns = Bool

    def ensures(self, result):
        return result == (len(self.global_settings) > 0 or len(self.join_operators) > 0 or len(self.scan_operators) > 0
                          or len(self.intermediate_operators) > 0)


class HashAgrees(Lemma):
    props = P
    params = {"a": Assign, "b": Assign}

    def lemma(a, b):
        return implies(others_same(a, b), hash(a) == hash(b))


class Iteration(Contract):
    target = f"{POA}.__iter__"
    props = P
    params = {"self": Assign}
    bounded = True
    note = "elements of two dictionaries in sequence"

    def ensures(self, result):
        got = list(result)
        return seq_eq(got, list(self.scan_operators.values()) + list(self.join_operators.values()))


class Printable(Contract):
    target = f"{POA}.__str__"
    props = P
    params = {"self": Assign}
    bounded = True
    note = "textual rendering"

    def ensures(self, result):
        return isinstance(result, str) and all(o.value in result for o in self.intermediate_operators.values()) \
            and all(o.operator.value in result for o in self.scan_operators.values()) \
            and all(o.operator.value in result for o in self.join_operators.values())


# -- the assignments themselves -------------------------------------------------------------------------------------------

class DirectionalInit(Contract):
    target = f"{HINTS}:DirectionalJoinOperatorAssignment.__init__"
    props = P
    params = {"self": Obj("NewDirJoin", f"{HINTS}:DirectionalJoinOperatorAssignment", {}), "operator": JoinOp, "inner": Tables, "outer": Tables,
              "parallel_workers": Flt}
    modifies = ["self"]
    raises = {"ValueError": "bad"}
    use_at_calls = False

    def bad(inner, outer):
        return len(inner) == 0 or len(outer) == 0 or len(inner | outer) < 2

    def ensures_stored(self, operator, inner, outer, parallel_workers):
        return same(self.operator, operator) and same(self.inner, inner) and same(self.outer, outer) \
            and same(self.join, inner | outer) and same(self.parallel_workers, parallel_workers) and self.is_directional()


class ScanAssignEq(Contract):
    target = f"{HINTS}:ScanOperatorAssignment.__eq__"
    props = P
    params = {"self": ScanAssign, "other": ScanAssign}
    returns = Bool
    use_at_calls = False

    def ensures(self, other, result):
        return result == (same(self.operator, other.operator) and same(self.table, other.table)
                          and same(self.parallel_workers, other.parallel_workers))


class JoinAssignEq(Contract):
    target = f"{HINTS}:JoinOperatorAssignment.__eq__"
    verify = [f"{HINTS}:JoinOperatorAssignment.__eq__", f"{HINTS}:DirectionalJoinOperatorAssignment.__eq__"]
    props = P
    params = {"self": JoinAssign, "other": JoinAssign}
    returns = Bool
    use_at_calls = False

    def requires(self, other):
        return self.is_directional() == other.is_directional()

    def ensures(self, other, result):
        return result == (same(self.operator, other.operator) and same(self.join, other.join)
                          and same(self.parallel_workers, other.parallel_workers)
                          and (not self.is_directional() or (same(self.inner, other.inner) and same(self.outer, other.outer))))


def upgraded(o, n, w):
    return same(n.operator, o.operator) and same(n.parallel_workers, w)


class IntegrateWorkers(Contract):
    target = f"{POA}.integrate_workers_from"
    props = P
    params = {"self": Assign, "params": Params, "fail_on_missing": Bool}
    returns = Assign
    raises = {"ValueError": "missing"}
    bounded = True
    note = "dictionary updated while it is consulted inside a loop over another dictionary"

    def requires(self):
        return keyed(self)

    def missing(self, params, fail_on_missing):
        return fail_on_missing and exists(params.parallel_workers, lambda ts, w: ts not in self)

    def ensures_rest(self, result):
        return same(result.global_settings, self.global_settings) and same(result.intermediate_operators, self.intermediate_operators) \
            and same(set(result.scan_operators), set(self.scan_operators)) and same(set(result.join_operators), set(self.join_operators))

    def ensures_scans(self, params, result):
        return forall(self.scan_operators, lambda t, o: same(result.scan_operators[t].table, t)
                      and upgraded(o, result.scan_operators[t], params.parallel_workers.get(frozenset([t]), o.parallel_workers)))

    def ensures_joins(self, params, result):
        return forall(self.join_operators, lambda ts, o: same(result.join_operators[ts].join, ts)
                      and upgraded(o, result.join_operators[ts], params.parallel_workers.get(ts, o.parallel_workers)))

    def ensures_direction(self, result):
        return forall(self.join_operators, lambda ts, o: result.join_operators[ts].is_directional() == o.is_directional()
                      and (not o.is_directional() or (same(result.join_operators[ts].inner, o.inner) and same(result.join_operators[ts].outer, o.outer))))
