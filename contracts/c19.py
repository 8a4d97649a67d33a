"""C19: enumerated and sampled join orders, operators and plans (the operators that may be used, combining join trees)."""
from pydv.api import *
from contracts.model import CORE, HINTS

EN, RA = "postbound.opt.enumeration", "postbound.opt.randomized"
DBM = "postbound.db._db"
use(CORE, "ScanOperator", "JoinOperator")
use(HINTS, "JoinTree")
use(EN, "ExhaustiveOperatorEnumerator", "ExhaustiveJoinOrderEnumerator")
use(RA, "RandomOperatorGenerator")
P = ("C19",)


def _gen(name, *a, **k):
    def g(rng, size):
        from contracts import gens
        return getattr(gens, name)(rng, *a, **k)
    return g


ScanOp = EnumT("EnScan", [f"{CORE}:ScanOperator"])
JoinOp = EnumT("EnJoin", [f"{CORE}:JoinOperator"])
AnyOp = EnumT("EnOp", [f"{CORE}:ScanOperator", f"{CORE}:JoinOperator"])
Svc = Ref("EnHinting", [f"{DBM}:HintService"], eq="term", opaque=True)
Db = Ref("EnDb", [f"{DBM}:Database"], eq="term", opaque=True, truthy=True, gen=_gen("fake_db"), attrs={"hinting()": Svc})
Query = Ref("EnQuery", ["postbound.qal._qal:ImplicitSqlQuery"], eq="term", opaque=True, gen=_gen("spj"))
Table = Ref("EnTable", [f"{CORE}:TableReference"], eq="term", opaque=True, truthy=True, gen=_gen("table"))
Tree = Ref("EnTree", [f"{HINTS}:JoinTree"], fields={"_table": Opt(Table), "_annotation": Opt(Any), "_hash_val": Int}, eq="code", gen=_gen("jointree", logical=False, empty=False))
Tree.fields["_outer"] = Opt(Tree)
Tree.fields["_inner"] = Opt(Tree)


@invariant(Tree)
def tree_wf(t):
    """trees that are merged are never empty"""
    return (t._table is not None and t._outer is None and t._inner is None) or (t._table is None and t._outer is not None and t._inner is not None)


class EnSupports(Contract):
    target = f"{DBM}:HintService.supports_hint"
    props = P
    params = {"self": Svc, "hint": AnyOp}
    returns = Bool
    trusted = True
    note = "the database system knows its own hints"


Enumerator = Obj("EnEnumerator", f"{EN}:ExhaustiveOperatorEnumerator", {}, gen=lambda rng, size: object.__new__(ExhaustiveOperatorEnumerator))
Sampler = Obj("EnSampler", f"{RA}:RandomOperatorGenerator", {}, gen=lambda rng, size: object.__new__(RandomOperatorGenerator))


def usable(got, given, database):
    """exactly the given operators that the database supports"""
    return forall(given, lambda o: (o in got) == database.hinting().supports_hint(o)) and forall(got, lambda o: o in given)


class _Operators(Contract):
    abstract = True
    params = {"scan_operators": Seq(ScanOp, "list", 1), "join_operators": Seq(JoinOp, "list", 1), "include_scans": Bool, "include_joins": Bool, "database": Db}
    returns = NoneT
    modifies = ["self"]
    raises = {"ValueError": "nothing"}

    def nothing(include_scans, include_joins):
        return not include_scans and not include_joins

    def ensures_scans(self, scan_operators, database):
        return usable(self.allowed_scan_ops, scan_operators, database)

    def ensures_joins(self, join_operators, database):
        return usable(self.allowed_join_ops, join_operators, database)


class EnumeratorOperators(_Operators):
    """the enumeration uses exactly the given operators that the database supports"""
    target = f"{EN}:ExhaustiveOperatorEnumerator.__init__"
    props = P
    params = {"self": Enumerator, **_Operators.params}


class SamplerOperators(_Operators):
    """the random generator uses exactly the given operators that the database supports"""
    target = f"{RA}:RandomOperatorGenerator.__init__"
    props = P
    params = {"self": Sampler, **_Operators.params, "eliminate_duplicates": Bool}


class _AllOperators(Contract):
    abstract = True
    params = {"scan_operators": NoneT, "join_operators": NoneT, "include_scans": Bool, "include_joins": Bool, "database": Db}
    returns = NoneT
    modifies = ["self"]

    def requires_something(include_scans, include_joins):
        return include_scans or include_joins

    def ensures_scans(self, database):
        return forall(self.allowed_scan_ops, lambda o: database.hinting().supports_hint(o)) and every_scan(self.allowed_scan_ops, database)

    def ensures_joins(self, database):
        return forall(self.allowed_join_ops, lambda o: database.hinting().supports_hint(o)) and every_join(self.allowed_join_ops, database)


def every_scan(got, db):
    return (implies(db.hinting().supports_hint(ScanOperator.SequentialScan), ScanOperator.SequentialScan in got)
            and implies(db.hinting().supports_hint(ScanOperator.IndexScan), ScanOperator.IndexScan in got)
            and implies(db.hinting().supports_hint(ScanOperator.IndexOnlyScan), ScanOperator.IndexOnlyScan in got)
            and implies(db.hinting().supports_hint(ScanOperator.BitmapScan), ScanOperator.BitmapScan in got))


def every_join(got, db):
    return (implies(db.hinting().supports_hint(JoinOperator.NestedLoopJoin), JoinOperator.NestedLoopJoin in got)
            and implies(db.hinting().supports_hint(JoinOperator.HashJoin), JoinOperator.HashJoin in got)
            and implies(db.hinting().supports_hint(JoinOperator.SortMergeJoin), JoinOperator.SortMergeJoin in got))


class EnumeratorDefaults(_AllOperators):
    """without a choice of operators, the enumeration uses all supported ones"""
    target = f"{EN}:ExhaustiveOperatorEnumerator.__init__"
    family = "defaults"
    props = P
    params = {"self": Enumerator, **_AllOperators.params}


class SamplerDefaults(_AllOperators):
    """without a choice of operators, the random generator uses all supported ones"""
    target = f"{RA}:RandomOperatorGenerator.__init__"
    family = "defaults"
    props = P
    params = {"self": Sampler, **_AllOperators.params, "eliminate_duplicates": Bool}


class MergeTrees(Contract):
    """merging keeps both trees as they are, the first one as the outer side"""
    target = f"{EN}:_merge_nodes"
    family = "trees"
    verify = [f"{EN}:_merge_nodes", f"{RA}:_merge_nodes"]
    props = P
    params = {"query": Query, "start": Tree, "end": Tree}
    returns = Any
    use_at_calls = False

    def ensures_sides(start, end, result):
        return result.outer_child == start and result.inner_child == end


class MergeTables(Contract):
    """merging base tables joins their scans, the first one as the outer side"""
    target = f"{EN}:_merge_nodes"
    family = "tables"
    verify = [f"{EN}:_merge_nodes", f"{RA}:_merge_nodes"]
    props = P
    params = {"query": Query, "start": Table, "end": Table}
    returns = Any
    use_at_calls = False

    def ensures_sides(start, end, result):
        return result.outer_child.base_table == start and result.inner_child.base_table == end


class MergeTreeTable(Contract):
    """merging a tree with a base table keeps the tree as the outer side"""
    target = f"{EN}:_merge_nodes"
    family = "mixed"
    verify = [f"{EN}:_merge_nodes", f"{RA}:_merge_nodes"]
    props = P
    params = {"query": Query, "start": Tree, "end": Table}
    returns = Any
    use_at_calls = False

    def ensures_sides(start, end, result):
        return result.outer_child == start and result.inner_child.base_table == end


class MergeTableTree(Contract):
    """merging a base table with a tree keeps the table as the outer side"""
    target = f"{EN}:_merge_nodes"
    family = "mixed2"
    verify = [f"{EN}:_merge_nodes", f"{RA}:_merge_nodes"]
    props = P
    params = {"query": Query, "start": Table, "end": Tree}
    returns = Any
    use_at_calls = False

    def ensures_sides(start, end, result):
        return result.outer_child.base_table == start and result.inner_child == end


def _sampler(rng, size):
    from contracts import gens
    return RandomOperatorGenerator(**gens.operator_args(rng))


Configured = Obj("EnConfigured", f"{RA}:RandomOperatorGenerator", {"allowed_scan_ops": Set(ScanOp), "allowed_join_ops": Set(JoinOp)}, gen=_sampler)


class NecessaryHints(Contract):
    """the random generator demands support for exactly the operators that it uses"""
    target = f"{RA}:RandomOperatorGenerator.necessary_hints"
    props = P
    params = {"self": Configured}
    returns = Set(AnyOp)

    def ensures_all(self, result):
        return forall(self.allowed_scan_ops, lambda o: o in result) and forall(self.allowed_join_ops, lambda o: o in result)

    def ensures_no_more(self, result):
        return forall(result, lambda o: o in self.allowed_scan_ops or o in self.allowed_join_ops)
