"""C18: parsing and formatting retain the meaning of queries (the scopes that names are resolved in)."""
from pydv.api import *
from contracts.model import CORE

PM = "postbound.parser"
TR = f"{CORE}:TableReference"
DBM = "postbound.db._db"
use(PM, "QueryNamespace", "SchemaCache")
use(CORE, "TableReference")
P = ("C18",)


def _g(name, *a):
    def g(rng, size):
        from contracts import gens
        return getattr(gens, name)(rng, *a)
    return g


def _name(rng, size):
    return rng.choice(["r", "s", "t", "u", "a", "b", "c", "x", "y", "z"])


NTable = Ref("NTable", [TR], eq="term", opaque=True, truthy=True, gen=_g("ns_table"),
             attrs={"full_name": Str, "alias": Str, "virtual": Bool, "schema": Str, "identifier()": Str})
NSpace = Ref("NSpace", [f"{PM}:QueryNamespace"], eq="term", truthy=True, gen=_g("namespace"))
NSpace.fields = {"_parent": Opt(NSpace), "_table_sources": Map(Str, NTable), "_hidden_sources": Map(Str, NTable), "_cte_sources": Map(Str, NSpace),
                 "_subquery_children": Map(Str, NSpace), "_output_shape": Seq(Str, "list"), "_current_ctx": Seq(NTable, "list")}
NCache = Ref("NCache", [f"{PM}:SchemaCache"], eq="term", opaque=True)
Scope = Obj("Scope", f"{PM}:QueryNamespace", {"_parent": Opt(NSpace), "_top_level": Bool, "_table_sources": Map(Str, NTable), "_hidden_sources": Map(Str, NTable),
                                              "_cte_sources": Map(Str, NSpace), "_subquery_children": Map(Str, NSpace), "_output_shape": Seq(Str, "list"),
                                              "_current_ctx": Seq(NTable, "list"), "_column_cache": Map(Str, NTable), "_setop_children": Seq(NSpace, "list"), "_produced_columns": Set(Str),
                                              "_schema_cache": NCache}, gen=_g("namespace"))


class Virtual(Contract):
    target = f"{CORE}:TableReference.create_virtual"
    props = P
    params = {"alias": Str, "full_name": MISSING, "schema": MISSING}
    returns = NTable
    trusted = True
    note = "the virtual table with the alias (see C04)"


@spec(NSpace, Str, ret=Opt(NTable))
def visible(ns, key):
    """the table with this identifier in the innermost scope that has one"""
    if key in ns._table_sources:
        return ns._table_sources[key]
    if key in ns._cte_sources:
        return TableReference.create_virtual(key)
    return None if ns._parent is None else visible(ns._parent, key)


@spec(NSpace, Str, ret=Opt(NTable))
def hidden(ns, key):
    """the aliased table with this name in the innermost scope that has one"""
    if key in ns._hidden_sources:
        return ns._hidden_sources[key]
    return None if ns._parent is None else hidden(ns._parent, key)


@spec(NSpace, Str, ret=Bool)
def has_cte(ns, key):
    return key in ns._cte_sources or (ns._parent is not None and has_cte(ns._parent, key))


class ResolveTable(Contract):
    """a name means the table with this identifier in the innermost scope; the full name of an aliased table is the last resort"""
    target = f"{PM}:QueryNamespace.resolve_table"
    props = P
    params = {"self": NSpace, "key": Str}
    gens = {"key": _name}
    returns = Opt(NTable)

    def ensures_visible_first(self, key, result):
        v = visible(self, key)
        return v is None or same(result, v)

    def ensures_hidden_last(self, key, result):
        return visible(self, key) is not None or same(result, hidden(self, key))


class ResolveIdentifier(Contract):
    target = f"{PM}:QueryNamespace._resolve_identifier"
    props = P
    params = {"self": NSpace, "key": Str}
    gens = {"key": _name}
    returns = Opt(NTable)

    def ensures_innermost(self, key, result):
        return same(result, visible(self, key))


class ResolveHidden(Contract):
    target = f"{PM}:QueryNamespace._resolve_hidden"
    props = P
    params = {"self": NSpace, "key": Str}
    gens = {"key": _name}
    returns = Opt(NTable)

    def ensures_innermost(self, key, result):
        return same(result, hidden(self, key))


class ProvidesCte(Contract):
    """the CTEs that a name can mean are exactly those of the enclosing scopes"""
    target = f"{PM}:QueryNamespace.provides_cte"
    props = P
    params = {"self": NSpace, "name": Str}
    gens = {"name": _name}
    returns = Bool

    def ensures_some_scope(self, name, result):
        return result == has_cte(self, name)


@spec(NSpace, Str, ret=Opt(NSpace))
def named(ns, key):
    """the CTE or subquery with this name in the innermost scope that has one"""
    if key in ns._cte_sources:
        return ns._cte_sources[key]
    if key in ns._subquery_children:
        return ns._subquery_children[key]
    return None if ns._parent is None else named(ns._parent, key)


class LookupNamespace(Contract):
    target = f"{PM}:QueryNamespace._lookup_namespace"
    props = P
    params = {"self": NSpace, "table_key": Str}
    gens = {"table_key": _name}
    returns = Opt(NSpace)

    def ensures_innermost(self, table_key, result):
        return same(result, named(self, table_key))


class SchemaLookup(Contract):
    target = f"{PM}:SchemaCache.lookup_column"
    props = P
    params = {"self": NCache, "colname": Str, "candidate_tables": Seq(NTable, "list")}
    returns = Opt(NTable)
    trusted = True
    note = "what the schema of an arbitrary database says (see PhysicalColumns)"


@spec(Map(Str, NSpace), Map(Str, NSpace), Opt(NSpace), NCache, NTable, Str, ret=Bool)
def has_column(ctes, subqueries, parent, schema, table, key):
    """whether a table of a scope has a column"""
    if not table.virtual and schema.lookup_column(key, [table]) is not None:
        return True
    if table.identifier() in subqueries and key in subqueries[table.identifier()]._output_shape:
        return True
    if table.virtual and table.alias and table.full_name:
        return outer_has(ctes, subqueries, parent, table.full_name, key)
    return (table.identifier() in ctes and key in ctes[table.identifier()]._output_shape) or outer_has(ctes, subqueries, parent, table.identifier(), key)


def outer_has(ctes, subqueries, parent, name, key):
    if name in ctes:
        return key in ctes[name]._output_shape
    if name in subqueries:
        return key in subqueries[name]._output_shape
    n = None if parent is None else named(parent, name)
    return n is not None and key in n._output_shape


def owns(self, table, key):
    return has_column(self._cte_sources, self._subquery_children, self._parent, self._schema_cache, table, key)


class LookupColumn(Contract):
    """an unqualified column belongs to the first table of the scope that has such a column, unless the query itself produces it"""
    target = f"{PM}:QueryNamespace.lookup_column"
    props = P
    params = {"self": Scope, "key": Str}
    gens = {"key": _name}
    returns = Opt(NTable)
    modifies = ["self._column_cache"]
    use_at_calls = False
    fuel = 3

    def known(self, k, key, matching_table):
        return matching_table is None and forall_index(k, lambda i: not owns(self, self._current_ctx[i], key))

    invariants = {0: ("known", {"matching_table": Opt(NTable)})}

    def ensures_own_output(self, key, result):
        return key not in self._produced_columns or result is None

    def ensures_none(self, key, result, old_self):
        return key in old_self._column_cache or result is not None or key in self._produced_columns or forall(self._current_ctx, lambda t: not owns(self, t, key))

    def ensures_first(self, key, result, old_self):
        ctx = self._current_ctx
        return key in old_self._column_cache or result is None \
            or exists_index(len(ctx), lambda i: same(ctx[i], result) and owns(self, ctx[i], key) and forall_index(i, lambda j: not owns(self, ctx[j], key)))

    def ensures_cached(self, key, result, old_self):
        cache = self._column_cache
        return key in self._produced_columns or result is None or (key in cache and same(cache[key], result))


class RegisterTable(Contract):
    """a table in the FROM clause is known by its identifier; the full name of an aliased table is hidden by the alias"""
    target = f"{PM}:QueryNamespace.register_table"
    props = P
    params = {"self": Scope, "table": NTable}
    gens = {"self": _g("flat_namespace")}
    modifies = ["self._column_cache", "self._current_ctx", "self._table_sources", "self._hidden_sources"]
    use_at_calls = False

    def ensures_listed(self, table, old_self):
        return same(self._current_ctx, old_self._current_ctx + [table])

    def ensures_visible(self, table, old_self):
        if table.alias == "" and table.full_name == "":
            return same(self._table_sources, old_self._table_sources)
        return same(self._table_sources, mapput(old_self._table_sources, table.full_name if table.alias == "" else table.alias, table))

    def ensures_hidden(self, table, old_self):
        return same(self._hidden_sources, mapput(old_self._hidden_sources, table.full_name, table) if table.alias and table.full_name else old_self._hidden_sources)

    def ensures_forgets(self):
        return len(self._column_cache) == 0


class OpenNested(Contract):
    """CTEs become known by their name, subqueries in the FROM clause become tables of the scope; other nested queries add nothing to the scope"""
    target = f"{PM}:QueryNamespace.open_nested"
    props = P
    params = {"self": Scope, "alias": Str, "source": Str}
    gens = {"self": _g("flat_namespace"), "alias": lambda rng, size: rng.choice(["a", "c", "r"]),
            "source": lambda rng, size: rng.choice(["cte", "subquery", "values", "setop", "temporary"])}
    modifies = ["self._column_cache", "self._current_ctx", "self._table_sources", "self._cte_sources", "self._subquery_children", "self._setop_children"]
    use_at_calls = False

    def requires(self, alias):
        return alias != ""

    def ensures_scope(self, alias, source, old_self):
        from_item = source in ("subquery", "values")
        return same(self._current_ctx, old_self._current_ctx + [TableReference.create_virtual(alias)] if from_item else old_self._current_ctx) \
            and same(self._table_sources, mapput(old_self._table_sources, alias, TableReference.create_virtual(alias)) if from_item else old_self._table_sources)

    def ensures_cte(self, alias, source, old_self):
        return source == "cte" or same(self._cte_sources, old_self._cte_sources)

    def ensures_forgets(self, source):
        return source == "temporary" or len(self._column_cache) == 0


NColumn = Ref("NColumn", [f"{CORE}:ColumnReference"], eq="term", opaque=True, attrs={"name": Str})
NSchema = Ref("NSchema", [f"{DBM}:DatabaseSchema"], eq="term", opaque=True, truthy=True, gen=_g("ns_schema"))
Known = Map(Str, TupT(Seq(Str, "list"), Set(Str)))
Schemas = Obj("Schemas", f"{PM}:SchemaCache", {"_schema": Opt(NSchema), "_lookup_cache": Known}, gen=_g("schema_cache"))


class TableColumns(Contract):
    target = f"{DBM}:DatabaseSchema.columns"
    props = P
    params = {"self": NSchema, "table": Str}
    returns = Seq(NColumn, "list")
    trusted = True
    note = "the columns of a table according to an arbitrary database"


def names_of(schema, table):
    return [c.name for c in schema.columns(table)]


def up_to_date(self):
    """what is remembered is what the current schema says"""
    if self._schema is None:
        return len(self._lookup_cache) == 0
    return forall(self._lookup_cache, lambda t: same(self._lookup_cache[t][0], names_of(self._schema, t)) and same(self._lookup_cache[t][1], set(names_of(self._schema, t))))


class ChangeSchema(Contract):
    """the columns of one database are never used for another one"""
    target = f"{PM}:SchemaCache.initialize_with"
    props = P
    params = {"self": Schemas, "schema": Opt(NSchema)}
    modifies = ["self._schema", "self._lookup_cache"]
    use_at_calls = False

    def requires(self):
        return up_to_date(self)

    def ensures_schema(self, schema):
        return same(self._schema, schema)

    def ensures_up_to_date(self):
        return up_to_date(self)


class Inflate(Contract):
    target = f"{PM}:SchemaCache._inflate_cache"
    props = P
    params = {"self": Schemas, "table": NTable}
    returns = TupT(Seq(Str, "list"), Set(Str))
    modifies = ["self._lookup_cache"]

    def requires(self):
        return up_to_date(self)

    def ensures_columns(self, table, result):
        return same(result[0], [] if self._schema is None else names_of(self._schema, table.full_name)) \
            and same(result[1], set() if self._schema is None else set(names_of(self._schema, table.full_name)))

    def ensures_up_to_date(self):
        return up_to_date(self)


class PhysicalColumns(Contract):
    """a column belongs to the first physical table that has it according to the current schema"""
    target = f"{PM}:SchemaCache.lookup_column"
    family = "Schemas"
    props = P
    params = {"self": Schemas, "colname": Str, "candidate_tables": Seq(NTable, "list")}
    gens = {"colname": _name}
    returns = Opt(NTable)
    modifies = ["self._lookup_cache"]
    use_at_calls = False
    invariants = {0: ("none_before", {})}

    def requires(self):
        return up_to_date(self)

    def none_before(self, k, colname, candidate_tables):
        return up_to_date(self) and forall_index(k, lambda i: not listed(self, candidate_tables[i], colname))

    def ensures_none(self, colname, candidate_tables, result):
        return result is not None or forall(candidate_tables, lambda t: not listed(self, t, colname))

    def ensures_first(self, colname, candidate_tables, result):
        return result is None or exists_index(len(candidate_tables), lambda i: same(candidate_tables[i], result) and listed(self, candidate_tables[i], colname)
                                              and forall_index(i, lambda j: not listed(self, candidate_tables[j], colname)))


def listed(self, table, colname):
    return self._schema is not None and not table.virtual and colname in set(names_of(self._schema, table.full_name))
