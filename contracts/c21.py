"""C21: dynamic programming (allowed operators, sort keys, which paths are kept)."""
from pydv.api import *
from contracts.model import CORE, QEP

DP = "postbound.opt.dynprog"
DBM = "postbound.db._db"
QAL = "postbound.qal._qal"
use(CORE, "ScanOperator", "JoinOperator", "ColumnReference", "TableReference")
use(QAL, "ColumnExpression")
use(QEP, "SortKey", "QueryPlan")
use(DP, "DynamicProgrammingEnumerator", "PostgresDynProg", "RelOptInfo")
P = ("C21",)


def _gen(name, *a, **k):
    def g(rng, size):
        from contracts import gens
        return getattr(gens, name)(rng, *a, **k)
    return g


# ---- sort keys --------------------------------------------------------------------------------------------------------

Expr = Ref("DpExpr", [f"{QAL}:SqlExpression"], eq="term", opaque=True, truthy=True, gen=_gen("sort_expr"))
Key = Ref("DpKey", [f"{QEP}:SortKey"], fields={"_members": Set(Expr), "_ascending": Bool}, eq="code", gen=_gen("sort_key"))
NewKey = Obj("DpNewKey", f"{QEP}:SortKey", {}, gen=lambda rng, size: object.__new__(SortKey))


@invariant(Key)
def key_wf(k):
    """sort keys are never empty (see KeyInit)"""
    return len(k._members) > 0


def compatible(a, b):
    """sorted in the same direction by a common expression"""
    return a.ascending == b.ascending and exists(a.equivalence_class, lambda e: e in b.equivalence_class)


class KeyInit(Contract):
    """a sort key consists of exactly the given expressions, of at least one"""
    target = f"{QEP}:SortKey.__init__"
    props = P
    params = {"self": NewKey, "columns": Seq(Expr, "list"), "ascending": Bool}
    returns = NoneT
    modifies = ["self"]
    use_at_calls = False
    raises = {"ValueError": "nothing"}

    def nothing(columns):
        return len(columns) == 0

    def ensures_members(self, columns):
        return forall(columns, lambda c: c in self.equivalence_class) and forall(self.equivalence_class, lambda e: e in columns)

    def ensures_direction(self, ascending):
        return self.ascending == ascending


class KeyCompatible(Contract):
    """sort keys are compatible iff they sort by a common expression in the same direction"""
    target = f"{QEP}:SortKey.is_compatible_with"
    props = P
    params = {"self": Key, "other": Key}
    returns = Bool

    def ensures_common(self, other, result):
        return result == compatible(self, other)


class KeyMerge(Contract):
    """merging sort keys combines their expressions, in the same direction"""
    target = f"{QEP}:SortKey.merge_with"
    props = P
    params = {"self": Key, "other": Key}
    returns = Key
    raises = {"ValueError": "opposite"}

    def opposite(self, other):
        return self.ascending != other.ascending

    def ensures_members(self, other, result):
        return (forall(self.equivalence_class, lambda e: e in result.equivalence_class) and forall(other.equivalence_class, lambda e: e in result.equivalence_class)
                and forall(result.equivalence_class, lambda e: e in self.equivalence_class or e in other.equivalence_class))

    def ensures_direction(self, result):
        return result.ascending == self.ascending


class KeyContains(Contract):
    """compatible keys contain each other"""
    target = f"{QEP}:SortKey.__contains__"
    props = P
    params = {"self": Key, "item": Key}
    returns = Bool

    def ensures_common(self, item, result):
        return result == compatible(self, item)


Column = Ref("DpColumn", [f"{CORE}:ColumnReference"], eq="term", opaque=True, truthy=True, gen=_gen("sort_column"))
ColExpr = Ref("DpColExpr", [f"{QAL}:ColumnExpression"], fields={"_column": Column}, eq="struct", gen=_gen("sort_expr"))
ColKey = Ref("DpColKey", [f"{QEP}:SortKey"], fields={"_members": Set(ColExpr), "_ascending": Bool}, eq="code", gen=_gen("sort_key"))


class KeyColumn(Contract):
    """a relation is sorted by each column of the equivalence class"""
    target = f"{QEP}:SortKey.is_compatible_with"
    family = "columns"
    props = P
    params = {"self": ColKey, "other": Column}
    returns = Bool

    def ensures_member(self, other, result):
        return result == exists(self.equivalence_class, lambda e: e.column == other)


class KeyContainsColumn(Contract):
    target = f"{QEP}:SortKey.__contains__"
    family = "columns"
    props = P
    params = {"self": ColKey, "item": Column}
    returns = Bool

    def ensures_member(self, item, result):
        return result == exists(self.equivalence_class, lambda e: e.column == item)


# ---- which paths are kept ----------------------------------------------------------------------------------------------

Params = Ref("DpParams", [f"{QEP}:PlanParams"], eq="term", opaque=True, truthy=True, attrs={"sort_keys": Seq(Key, "list")})
Path = Ref("DpPath", [f"{QEP}:QueryPlan"], eq="term", truthy=True, gen=_gen("dp_path"), fields={"_plan_params": Params}, attrs={"estimated_cost": Flt})
Rel = Obj("DpRel", f"{DP}:RelOptInfo", {"pathlist": Seq(Path, "list"), "partial_paths": Seq(Path, "list")}, gen=_gen("dp_rel"))
Postgres = Obj("DpPostgres", f"{DP}:PostgresDynProg", {}, gen=lambda rng, size: object.__new__(PostgresDynProg))


@spec(Seq(Key, "list"), Seq(Key, "list"), ret=Bool)
def subsumes(a, b):
    """b is a prefix of a"""
    return len(b) <= len(a) and forall_index(len(b), lambda i: compatible(a[i], b[i]))


@spec(Seq(Key, "list"), Seq(Key, "list"), ret=Bool)
def same_sorting(a, b):
    return len(a) == len(b) and forall_index(len(b), lambda i: compatible(a[i], b[i]))


def evicts(new, old):
    """the new path is at least as well sorted and cheaper (if it is better sorted, at most 1% more expensive)"""
    return subsumes(new.sort_keys, old.sort_keys) and (new.estimated_cost < old.estimated_cost if same_sorting(new.sort_keys, old.sort_keys) else new.estimated_cost <= 1.01 * old.estimated_cost)


def beats(old, new):
    """the old path is sorted in the same way and at most as expensive"""
    return same_sorting(new.sort_keys, old.sort_keys) and not new.estimated_cost < old.estimated_cost


class Subsumes(Contract):
    """a sort order subsumes all of its prefixes"""
    target = f"{DP}:PostgresDynProg._sorting_subsumes"
    props = P
    params = {"self": Postgres, "sorting": Seq(Key, "list"), "other": Seq(Key, "list")}
    returns = Bool
    invariants = {0: ("so_far", {"other_key": Key})}

    def so_far(k, sorting, other):
        return len(other) <= len(sorting) and k <= len(other) and forall_index(k, lambda i: compatible(sorting[i], other[i]))

    def ensures_prefix(sorting, other, result):
        return result == subsumes(sorting, other)


class SameSorting(Contract):
    """sort orders are the same if all of their keys are compatible"""
    target = f"{DP}:PostgresDynProg._same_sorting"
    props = P
    params = {"self": Postgres, "sorting": Seq(Key, "list"), "other": Seq(Key, "list")}
    returns = Bool
    invariants = {0: ("so_far", {})}

    def so_far(k, sorting, other):
        return len(other) == len(sorting) and forall_index(k, lambda i: compatible(sorting[i], other[i]))

    def ensures_same(sorting, other, result):
        return result == same_sorting(sorting, other)


class _AddPath(Contract):
    abstract = True
    target = f"{DP}:PostgresDynProg.standard_add_path"
    props = P
    returns = NoneT
    modifies = ["rel"]
    fuel = 0
    invariants = {0: ("so_far", {"keep_new": Bool, "result_paths": Seq(Path, "list")})}


class AddPath(_AddPath):
    """a path is dropped iff another one is at least as good and kept"""
    family = "regular"
    params = {"self": Postgres, "rel": Rel, "path": Path, "is_partial": Const(False)}

    def so_far(k, rel, path, keep_new, result_paths):
        return (keep_new and forall(result_paths, lambda p: p in rel.pathlist)
                and forall(rel.pathlist[:k], lambda p: p in result_paths or evicts(path, p)))

    def ensures_known(old_rel, path, rel):
        return forall(rel.pathlist, lambda p: p in old_rel.pathlist or p == path)

    def ensures_evicted(old_rel, path, rel):
        return forall(old_rel.pathlist, lambda p: p in rel.pathlist or evicts(path, p))

    def ensures_added(old_rel, path, rel):
        return path in rel.pathlist or exists(old_rel.pathlist, lambda p: p in rel.pathlist and beats(p, path))

    def ensures_others(old_rel, rel):
        return seq_eq(rel.partial_paths, old_rel.partial_paths)


class AddPartialPath(_AddPath):
    """the same holds for partial paths, separately"""
    family = "partial"
    params = {"self": Postgres, "rel": Rel, "path": Path, "is_partial": Const(True)}

    def so_far(k, rel, path, keep_new, result_paths):
        return (keep_new and forall(result_paths, lambda p: p in rel.partial_paths)
                and forall(rel.partial_paths[:k], lambda p: p in result_paths or evicts(path, p)))

    def ensures_known(old_rel, path, rel):
        return forall(rel.partial_paths, lambda p: p in old_rel.partial_paths or p == path)

    def ensures_evicted(old_rel, path, rel):
        return forall(old_rel.partial_paths, lambda p: p in rel.partial_paths or evicts(path, p))

    def ensures_added(old_rel, path, rel):
        return path in rel.partial_paths or exists(old_rel.partial_paths, lambda p: p in rel.partial_paths and beats(p, path))

    def ensures_others(old_rel, rel):
        return seq_eq(rel.pathlist, old_rel.pathlist)


# ---- allowed operators --------------------------------------------------------------------------------------------------

ScanOp = EnumT("DpScan", [f"{CORE}:ScanOperator"])
JoinOp = EnumT("DpJoin", [f"{CORE}:JoinOperator"])
AnyOp = EnumT("DpOp", [f"{CORE}:ScanOperator", f"{CORE}:JoinOperator"])
Svc = Ref("DpHinting", [f"{DBM}:HintService"], eq="term", opaque=True)
Db = Ref("DpDb", [f"{DBM}:Database"], eq="term", opaque=True, truthy=True, gen=_gen("dp_fake_db"), attrs={"hinting()": Svc})
Enumerator = Obj("DpEnumerator", f"{DP}:DynamicProgrammingEnumerator", {}, gen=lambda rng, size: object.__new__(DynamicProgrammingEnumerator))


class DpSupports(Contract):
    target = f"{DBM}:HintService.supports_hint"
    props = P
    params = {"self": Svc, "hint": AnyOp}
    returns = Bool
    trusted = True
    note = "the database system knows its own hints"


class DpDescribe(Contract):
    target = f"{DBM}:Database.describe"
    props = P
    params = {"self": Db}
    returns = Any
    trusted = True
    note = "describing the database system has no effects"


class Operators(Contract):
    """the enumerator uses exactly the requested operators that the database supports"""
    target = f"{DP}:DynamicProgrammingEnumerator.__init__"
    props = P
    params = {"self": Enumerator, "supported_scan_ops": Set(ScanOp), "supported_join_ops": Set(JoinOp), "target_db": Db}
    returns = NoneT
    modifies = ["self"]

    def ensures_scans(self, supported_scan_ops, target_db):
        got = self.describe()["scan_ops"]
        return (forall(supported_scan_ops, lambda o: (o.name in got) == target_db.hinting().supports_hint(o))
                and forall(got, lambda n: exists(supported_scan_ops, lambda o: o.name == n)))

    def ensures_joins(self, supported_join_ops, target_db):
        got = self.describe()["join_ops"]
        return (forall(supported_join_ops, lambda o: (o.name in got) == target_db.hinting().supports_hint(o))
                and forall(got, lambda n: exists(supported_join_ops, lambda o: o.name == n)))


class _Defaults(Contract):
    """without a choice of operators, the enumerator uses all supported ones"""
    abstract = True
    params = {"supported_scan_ops": NoneT, "supported_join_ops": NoneT}
    returns = NoneT
    modifies = ["self"]

    def ensures_scans(self, target_db):
        got, svc = self.describe()["scan_ops"], target_db.hinting()
        return (("SequentialScan" in got) == svc.supports_hint(ScanOperator.SequentialScan) and ("IndexScan" in got) == svc.supports_hint(ScanOperator.IndexScan)
                and ("IndexOnlyScan" in got) == svc.supports_hint(ScanOperator.IndexOnlyScan) and ("BitmapScan" in got) == svc.supports_hint(ScanOperator.BitmapScan))

    def ensures_joins(self, target_db):
        got, svc = self.describe()["join_ops"], target_db.hinting()
        return (("NestedLoopJoin" in got) == svc.supports_hint(JoinOperator.NestedLoopJoin) and ("HashJoin" in got) == svc.supports_hint(JoinOperator.HashJoin)
                and ("SortMergeJoin" in got) == svc.supports_hint(JoinOperator.SortMergeJoin))


class DefaultOperators(_Defaults):
    target = f"{DP}:DynamicProgrammingEnumerator.__init__"
    family = "defaults"
    props = P
    params = {"self": Enumerator, **_Defaults.params, "target_db": Db}


PgDb = Ref("DpPgDb", ["postbound.postgres:PostgresInterface"], eq="term", opaque=True, truthy=True, gen=_gen("dp_fake_pg"), attrs={"hinting()": Svc})
NewPostgres = Obj("DpNewPostgres", f"{DP}:PostgresDynProg", {}, gen=lambda rng, size: object.__new__(PostgresDynProg))
FLAGS = {"enable_materialize": Bool, "enable_memoize": Bool, "enable_sort": Bool}


class PgDescribe(Contract):
    target = "postbound.postgres:PostgresInterface.describe"
    props = P
    params = {"self": PgDb}
    returns = Any
    trusted = True
    note = "describing the database system has no effects"


class PostgresOperators(Operators):
    target = f"{DP}:PostgresDynProg.__init__"
    props = P
    params = {"self": NewPostgres, "supported_scan_ops": Set(ScanOp), "supported_join_ops": Set(JoinOp), "target_db": PgDb, **FLAGS}


class PostgresDefaults(_Defaults):
    target = f"{DP}:PostgresDynProg.__init__"
    family = "defaults"
    props = P
    params = {"self": NewPostgres, **_Defaults.params, "target_db": PgDb, **FLAGS}


class PostgresOnly(Contract):
    """only Postgres databases can use the Postgres strategy"""
    target = f"{DP}:PostgresDynProg.__init__"
    family = "other systems"
    props = P
    params = {"self": NewPostgres, "supported_scan_ops": Set(ScanOp), "supported_join_ops": Set(JoinOp), "target_db": Db, **FLAGS}
    returns = NoneT
    modifies = ["self"]
    raises = {"LogicError": "always"}

    def always():
        return True
