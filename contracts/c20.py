"""C20: the join graph (join paths, index information, n:m joins)."""
from pydv.api import *
from contracts.model import CORE

JG = "postbound.opt._joingraph"
QAL = "postbound.qal._qal"
use(JG, "JoinPath", "IndexInfo", "JoinGraph")
P = ("C20",)


def _gen(name, *a, **k):
    def g(rng, size):
        from contracts import gens
        return getattr(gens, name)(rng, *a, **k)
    return g


Table = Ref("JgTable", [f"{CORE}:TableReference"], eq="term", opaque=True, truthy=True, gen=_gen("jg_table"))
Column = Ref("JgColumn", [f"{CORE}:ColumnReference"], eq="term", opaque=True, truthy=True, gen=_gen("jg_column"))
Pred = Ref("JgPred", [f"{QAL}:AbstractPredicate"], eq="term", opaque=True, truthy=True, gen=_gen("jg_pred"))
Path = Ref("JgPath", [f"{JG}:JoinPath"], fields={"start_table": Table, "target_table": Table, "join_condition": Opt(Pred)}, eq="struct", gen=_gen("jg_path"))
Kind = Str
Schema = Ref("JgSchema", ["postbound.db._db:DatabaseSchema"], eq="term", opaque=True, truthy=True, gen=_gen("jg_schema"))
Graph = Ref("JgGraph", [f"{JG}:JoinGraph"], eq="term", opaque=True, truthy=True, gen=_gen("jg_graph"),
            attrs={"initial()": Bool})
Info = Obj("JgInfo", f"{JG}:IndexInfo", {"_column": Column, "_index_type": Str, "_is_invalid": Bool}, gen=_gen("jg_info"))


class PathTables(Contract):
    target = f"{JG}:JoinPath.tables"
    props = P
    params = {"self": Path}
    returns = Any

    def ensures_tables(self, result):
        return result == (self.start_table, self.target_table)


class PathSpans(Contract):
    target = f"{JG}:JoinPath.spans_table"
    props = P
    params = {"self": Path, "table": Table}
    returns = Bool

    def ensures_either(self, table, result):
        return result == (table == self.start_table or table == self.target_table)


class PathFlip(Contract):
    """flipping a path retains its condition"""
    target = f"{JG}:JoinPath.flip_direction"
    props = P
    params = {"self": Path}
    returns = Path

    def ensures_flipped(self, result):
        return result.start_table == self.target_table and result.target_table == self.start_table

    def ensures_condition(self, result):
        return result.join_condition == self.join_condition


class SchemaPrimary(Contract):
    target = "postbound.db._db:DatabaseSchema.is_primary_key"
    props = P
    params = {"self": Schema, "column": Column}
    returns = Bool
    trusted = True
    note = "the database knows its primary keys"


class SchemaSecondary(Contract):
    target = "postbound.db._db:DatabaseSchema.has_secondary_index"
    props = P
    params = {"self": Schema, "column": Column}
    returns = Bool
    trusted = True
    note = "the database knows its indexes"


class IndexInit(Contract):
    target = f"{JG}:IndexInfo.__init__"
    props = P
    params = {"self": Obj("JgRawInfo", f"{JG}:IndexInfo", {}, gen=lambda rng, size: object.__new__(IndexInfo)), "column": Column, "index_type": Str, "invalid": Bool}
    returns = NoneT
    modifies = ["self"]
    use_at_calls = False

    def ensures_kept(self, column, index_type, invalid):
        return self.column == column and self.index_type == index_type and self.is_invalid == invalid


class _Fresh(Contract):
    abstract = True
    props = P
    params = {"column": Column}
    returns = Any
    use_at_calls = False

    def ensures_column(column, result):
        return result.column == column

    def ensures_valid(result):
        return not result.is_invalid


class PrimaryIndex(_Fresh):
    target = f"{JG}:IndexInfo.primary_index"
    props = P

    def ensures_kind(result):
        return result.is_primary() and not result.is_secondary() and result.index_type == "primary"


class SecondaryIndex(_Fresh):
    target = f"{JG}:IndexInfo.secondary_index"
    props = P

    def ensures_kind(result):
        return result.is_secondary() and not result.is_primary() and result.index_type == "secondary"


class NoIndex(_Fresh):
    target = f"{JG}:IndexInfo.no_index"
    props = P

    def ensures_kind(result):
        return not result.is_secondary() and not result.is_primary() and not result.is_indexed() and result.index_type == "none"


class IndexFromSchema(Contract):
    """the index that the schema states, primary keys first"""
    target = f"{JG}:IndexInfo.generate_for"
    props = P
    params = {"column": Column, "db_schema": Schema}
    returns = Any

    def ensures_column(column, result):
        return result.column == column and not result.is_invalid

    def ensures_primary(column, db_schema, result):
        return result.is_primary() == db_schema.is_primary_key(column)

    def ensures_secondary(column, db_schema, result):
        return result.is_secondary() == (not db_schema.is_primary_key(column) and db_schema.has_secondary_index(column))


class IsPrimary(Contract):
    target = f"{JG}:IndexInfo.is_primary"
    props = P
    params = {"self": Info}
    returns = Bool

    def ensures_kind(self, result):
        return result == (self.index_type == "primary" and not self.is_invalid)


class IsSecondary(Contract):
    target = f"{JG}:IndexInfo.is_secondary"
    props = P
    params = {"self": Info}
    returns = Bool

    def ensures_kind(self, result):
        return result == (self.index_type == "secondary" and not self.is_invalid)


class IsIndexed(Contract):
    target = f"{JG}:IndexInfo.is_indexed"
    props = P
    params = {"self": Info}
    returns = Bool

    def ensures_kind(self, result):
        return result == ((self.index_type == "secondary" or self.index_type == "primary") and not self.is_invalid)


class CanJoin(Contract):
    """both columns are indexed, at least one as a primary key"""
    target = f"{JG}:IndexInfo.can_pk_fk_join"
    props = P
    params = {"self": Info, "other": Info}
    returns = Bool

    def ensures_kinds(self, other, result):
        return result == (self.is_indexed() and other.is_indexed() and (self.is_primary() or other.is_primary()))


class Invalidate(Contract):
    """an invalid index is of no use, the remaining state is kept"""
    target = f"{JG}:IndexInfo.invalidate"
    props = P
    params = {"self": Info}
    returns = NoneT
    modifies = ["self"]

    def ensures_invalid(self):
        return self.is_invalid and not self.is_indexed()

    def ensures_kept(self, old_self):
        return self.column == old_self.column and self.index_type == old_self.index_type


class JoinsTables(Contract):
    target = f"{JG}:JoinGraph.joins_tables"
    family = "assumed"
    props = P
    params = {"self": Graph, "first_table": Table, "second_table": Table}
    returns = Bool
    trusted = True
    note = "the edges of the networkx graph (checked by the bounded contracts)"


class PkFkJoin(Contract):
    target = f"{JG}:JoinGraph.is_pk_fk_join"
    family = "assumed"
    props = P
    params = {"self": Graph, "fk_table": Table, "pk_table": Table}
    returns = Bool
    trusted = True
    note = "the edges of the networkx graph (checked by the bounded contracts)"


class AvailablePaths(Contract):
    target = f"{JG}:JoinGraph.available_join_paths"
    family = "assumed"
    props = P
    params = {"self": Graph, "both_directions_on_initial": Bool}
    returns = Seq(Path, "list")
    trusted = True
    note = "the edges of the networkx graph (checked by the bounded contracts)"


class NmJoin(Contract):
    """joined tables that are no pk/fk join, in neither direction"""
    target = f"{JG}:JoinGraph.is_n_m_join"
    props = P
    params = {"self": Graph, "first_table": Table, "second_table": Table}
    returns = Bool

    def ensures_neither(self, first_table, second_table, result):
        return result == (self.joins_tables(first_table, second_table) and not self.is_pk_fk_join(first_table, second_table)
                          and not self.is_pk_fk_join(second_table, first_table))


def many(graph, p):
    return not graph.is_pk_fk_join(p.start_table, p.target_table) and not graph.is_pk_fk_join(p.target_table, p.start_table)


class NmPaths(Contract):
    """the available paths that are n:m joins, both directions only for an initial graph"""
    target = f"{JG}:JoinGraph.available_n_m_join_paths"
    props = P
    params = {"self": Graph, "both_directions_on_initial": Bool}
    returns = Seq(Path, "list")
    invariants = {0: ("collected", {"n_m_paths": Seq(Path, "list"), "start_table": Table, "target_table": Table})}

    def collected(self, both_directions_on_initial, n_m_paths, k):
        ps = self.available_join_paths(both_directions_on_initial=False)
        return (forall_index(k, lambda i: implies(many(self, ps[i]), ps[i] in n_m_paths))
                and implies(both_directions_on_initial and self.initial(), forall_index(k, lambda i: implies(many(self, ps[i]), ps[i].flip_direction() in n_m_paths)))
                and forall(n_m_paths, lambda p: many(self, p) and (p in ps or (both_directions_on_initial and self.initial() and p.flip_direction() in ps))))

    def ensures_all(self, result):
        return forall(self.available_join_paths(both_directions_on_initial=False), lambda p: implies(many(self, p), p in result))

    def ensures_flipped(self, both_directions_on_initial, result):
        return implies(both_directions_on_initial and self.initial(),
                       forall(self.available_join_paths(both_directions_on_initial=False), lambda p: implies(many(self, p), p.flip_direction() in result)))

    def ensures_only(self, both_directions_on_initial, result):
        ps = self.available_join_paths(both_directions_on_initial=False)
        return forall(result, lambda p: many(self, p) and (p in ps or (both_directions_on_initial and self.initial() and p.flip_direction() in ps)))
