"""Types shared by the contract files: how the repository's classes appear to the verifier."""
from pydv.api import *

CORE = "postbound._core"
HINTS = "postbound._hints"
QEP = "postbound._qep"


def _t(rng, size):
    from contracts import gens
    return gens.table(rng)


def _c(rng, size):
    from contracts import gens
    return gens.column(rng)


# One opaque key per table: two references that the code considers equal are one key (see DESIGN, "Table keys").
Table = Ref("Table", [f"{CORE}:TableReference"], eq="term", gen=_t, opaque=True)
Tables = Set(Table)
SetOfTables = Set(Table, "set")

ScanOp = EnumT("ScanOp", [f"{CORE}:ScanOperator"])
JoinOp = EnumT("JoinOp", [f"{CORE}:JoinOperator"])
InterOp = EnumT("InterOp", [f"{CORE}:IntermediateOperator"])
Operator = EnumT("Operator", [f"{CORE}:ScanOperator", f"{CORE}:JoinOperator", f"{CORE}:IntermediateOperator"])


def _scan(rng, size):
    from contracts import gens
    return gens.scan_assignment(rng)


def _join(rng, size):
    from contracts import gens
    return gens.join_assignment(rng)


def _card(rng, size):
    from contracts import gens
    return gens.cardinality(rng)


ScanAssign = Ref("ScanAssign", [f"{HINTS}:ScanOperatorAssignment"],
                 fields={"_operator": ScanOp, "_table": Table, "_parallel_workers": Flt}, eq="struct", gen=_scan)
JoinAssign = Ref("JoinAssign", [f"{HINTS}:JoinOperatorAssignment", f"{HINTS}:DirectionalJoinOperatorAssignment"],
                 fields={"_operator": JoinOp, "_join": Tables, "_parallel_workers": Flt, "_inner": Tables, "_outer": Tables},
                 eq="struct", gen=_join)

# cardinalities as opaque values (their arithmetic is the subject of its own property)
Card = Ref("Card", [f"{CORE}:Cardinality"], eq="term", gen=_card, opaque=True)


def pair_gen(**params):
    """arguments x1 and x2 for each parameter x of two objects that are frequently the same"""
    def gen(rng, size):
        from contracts import gens
        return gens.twice(rng, {p: g for p, g in params.items()}, size)
    return gen


def part_gen(kind):
    def g(rng, size):
        from contracts import gens
        return gens._part(rng, kind, gens.qtables(rng, 2))
    return g
