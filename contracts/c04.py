"""C04: table and column references are values: identity ignores case only, derived references change one thing."""
from pydv.api import *
from contracts.model import CORE, _t, _c

use(CORE, "TableReference", "ColumnReference", "BoundColumnReference")
TR = f"{CORE}:TableReference"
CR = f"{CORE}:ColumnReference"
BCR = f"{CORE}:BoundColumnReference"
P = ("C04",)

TableV = Ref("TableV", [TR], fields={"_schema": Str, "_full_name": Str, "_alias": Str, "_virtual": Bool, "_identifier": Str,
                                     "_normalized_schema": Str, "_normalized_full_name": Str, "_normalized_alias": Str,
                                     "_normalized_identifier": Str, "_hash_val": Int, "_sql_repr": Str}, eq="code",
             gen=lambda rng, size: anytable(rng))
ColV = Ref("ColV", [CR, BCR], fields={"_name": Str, "_table": Opt(TableV), "_normalized_name": Str, "_hash_val": Int, "_sql_repr": Str},
           eq="code", gen=lambda rng, size: anycolumn(rng))


def anytable(rng):
    names = ["r", "R", "s", "Order", "base", "BASE", "a b", ""]
    while True:
        full, alias = rng.choice(names), rng.choice(names + ["", ""])
        schema = rng.choice(["", "", "public", "Public", "other"]) if full else ""
        if full or alias:
            return TableReference(full, alias, virtual=rng.random() < 0.3, schema=schema)


def anycolumn(rng):
    n = rng.choice(["a", "A", "b", "ab"])
    return ColumnReference(n, anytable(rng) if rng.random() < 0.75 else None)


@invariant(TableV)
def table_wf(t):
    return (t._full_name != "" or t._alias != "") and (t._schema == "" or t._full_name != "") \
        and same(t._normalized_schema, t._schema.lower()) and same(t._normalized_full_name, t._full_name.lower()) \
        and same(t._normalized_alias, t._alias.lower()) and same(t._identifier, t._alias if t._alias != "" else t._full_name) \
        and same(t._normalized_identifier, t._identifier.lower()) \
        and t._hash_val == hash((t._normalized_full_name, t._normalized_alias, t._normalized_schema))


@invariant(ColV)
def col_wf(c):
    return c._name != "" and same(c._normalized_name, c._name.lower()) and (c._table is not None) == isinstance(c, BoundColumnReference) \
        and c._hash_val == hash((c._normalized_name, c._table))


def content(t, full, alias, virtual, schema):
    return same(t.full_name, full) and same(t.alias, alias) and t.virtual == virtual and same(t.schema, schema)


def alike(a, b):
    return same(a.full_name.lower(), b.full_name.lower()) and same(a.alias.lower(), b.alias.lower()) \
        and same(a.schema.lower(), b.schema.lower())


class TableInit(Contract):
    target = f"{TR}.__init__"
    props = P
    params = {"self": Obj("NewTable", TR, {}), "full_name": Str, "alias": Str, "virtual": Bool, "schema": Str}
    modifies = ["self"]
    returns = NoneT
    raises = {"ValueError": "bad"}
    raises_unchanged = False
    use_at_calls = False

    def bad(full_name, alias, schema):
        return (full_name == "" and alias == "") or (schema != "" and full_name == "")

    def ensures_content(self, full_name, alias, virtual, schema):
        return content(self, full_name, alias, virtual, schema)

    def ensures_identifier(self, full_name, alias):
        return same(self.identifier(), alias if alias != "" else full_name)

    def ensures_wf(self):
        return table_wf(self)


class CreateVirtual(Contract):
    target = f"{TR}.create_virtual"
    props = P
    params = {"alias": Str, "full_name": Str, "schema": Str}
    raises = {"ValueError": "bad"}
    returns = TableV
    use_at_calls = False

    def bad(full_name, alias, schema):
        return (full_name == "" and alias == "") or (schema != "" and full_name == "")

    def ensures(alias, full_name, schema, result):
        return content(result, full_name, alias, True, schema)


class TableEq(Contract):
    target = f"{TR}.__eq__"
    props = P
    params = {"self": TableV, "other": TableV}
    returns = Bool
    use_at_calls = False

    def ensures(self, other, result):
        return result == alike(self, other)


class TableEqOther(Contract):
    target = f"{TR}.__eq__"
    props = P
    params = {"self": TableV, "other": ColV}
    returns = Bool
    use_at_calls = False

    def ensures(self, other, result):
        return not result


class TableEquivalence(Lemma):
    props = P
    params = {"a": TableV, "b": TableV, "c": TableV}

    def lemma(a, b, c):
        return a == a and (a == b) == (b == a) and implies(a == b and b == c, a == c)


class TableHash(Lemma):
    props = P
    params = {"a": TableV, "b": TableV}

    def lemma(a, b):
        return implies(a == b, hash(a) == hash(b))


class DropAlias(Contract):
    target = f"{TR}.drop_alias"
    props = P
    params = {"self": TableV}
    returns = TableV
    raises = {"StateError": "bad"}
    use_at_calls = False

    def requires(self):
        return self.virtual or self.full_name != ""

    def bad(self):
        return self.virtual

    def ensures(self, result):
        return content(result, self.full_name, "", False, self.schema)


class WithAlias(Contract):
    target = f"{TR}.with_alias"
    props = P
    params = {"self": TableV, "alias": Str}
    returns = TableV
    raises = {"StateError": "bad"}
    use_at_calls = False

    def bad(self):
        return self.full_name == ""

    def ensures(self, alias, result):
        return content(result, self.full_name, alias, self.virtual, self.schema)


class MakeVirtual(Contract):
    target = f"{TR}.make_virtual"
    props = P
    params = {"self": TableV}
    returns = TableV
    use_at_calls = False

    def ensures(self, result):
        return content(result, self.full_name, self.alias, True, self.schema)


class UpdateTable(Contract):
    target = f"{TR}.update"
    props = P
    params = {"self": TableV, "full_name": Opt(Str), "alias": Opt(Str), "virtual": Opt(Bool), "schema": Opt(Str)}
    returns = TableV
    raises = {"ValueError": "bad"}
    use_at_calls = False

    def bad(self, full_name, alias, schema):
        f = self.full_name if full_name is None else full_name
        a = self.alias if alias is None else alias
        s = self.schema if schema is None else schema
        return (f == "" and a == "") or (s != "" and f == "")

    def ensures(self, full_name, alias, virtual, schema, result):
        return content(result, self.full_name if full_name is None else full_name, self.alias if alias is None else alias,
                       self.virtual if virtual is None else virtual, self.schema if schema is None else schema)


class UpdateNothing(Contract):
    target = f"{TR}.update"
    props = P
    params = {"self": TableV, "full_name": MISSING, "alias": MISSING, "virtual": MISSING, "schema": MISSING}
    returns = TableV
    use_at_calls = False

    def ensures(self, result):
        return content(result, self.full_name, self.alias, self.virtual, self.schema)


class UpdateAliasOnly(Contract):
    target = f"{TR}.update"
    props = P
    params = {"self": TableV, "full_name": MISSING, "alias": Str, "virtual": MISSING, "schema": MISSING}
    returns = TableV
    use_at_calls = False

    def requires(self, alias):
        return self.full_name != "" or alias != ""

    def ensures(self, alias, result):
        return content(result, self.full_name, alias, self.virtual, self.schema)


class QualifiedName(Contract):
    target = f"{TR}.qualified_name"
    props = P
    params = {"self": TableV}
    returns = Str
    raises = {"VirtualTableError": "bad"}
    use_at_calls = False

    def bad(self):
        return self.virtual


# -- columns --------------------------------------------------------------------------------------------------------------

class ColumnCreate(Lemma):
    props = P
    params = {"name": Str, "table": Opt(TableV)}

    def requires(name):
        return name != ""

    def lemma(name, table):
        c = ColumnReference(name, table)
        return same(c.name, name) and same(c.table, table) and c.is_bound() == (table is not None) \
            and isinstance(c, BoundColumnReference) == (table is not None) and col_wf(c)


class ColumnInit(Contract):
    target = f"{CR}.__init__"
    props = P
    params = {"self": Obj("NewColumn", CR, {}), "name": Str, "table": NoneT}
    modifies = ["self"]
    returns = NoneT
    raises = {"ValueError": "bad"}
    use_at_calls = False

    def bad(name):
        return name == ""

    def ensures(self, name):
        return same(self.name, name) and self.table is None and not self.is_bound()


class BoundColumnInit(Contract):
    target = f"{BCR}.__init__"
    props = P
    params = {"self": Obj("NewBoundColumn", BCR, {}), "name": Str, "table": TableV}
    modifies = ["self"]
    returns = NoneT
    raises = {"ValueError": "bad"}
    use_at_calls = False

    def bad(name):
        return name == ""

    def ensures(self, name, table):
        return same(self.name, name) and self.table is table and self.is_bound()


class ColumnEq(Contract):
    target = f"{CR}.__eq__"
    props = P
    params = {"self": ColV, "other": ColV}
    returns = Bool
    use_at_calls = False

    def ensures(self, other, result):
        return result == (same(self.name.lower(), other.name.lower())
                          and (other.table is None if self.table is None else other.table is not None and alike(self.table, other.table)))


class ColumnHash(Lemma):
    props = P
    params = {"a": ColV, "b": ColV}

    def lemma(a, b):
        return implies(a == b, hash(a) == hash(b))


class BelongsTo(Contract):
    target = f"{CR}.belongs_to"
    props = P
    params = {"self": ColV, "table": TableV}
    returns = Bool
    use_at_calls = False

    def ensures(self, table, result):
        return result == (self.table is not None and alike(self.table, table))


class BindTo(Contract):
    target = f"{CR}.bind_to"
    props = P
    params = {"self": ColV, "table": TableV}
    returns = ColV
    use_at_calls = False

    def ensures(self, table, result):
        return same(result.name, self.name) and result.is_bound() and content(result.table, table.full_name, table.alias, table.virtual, table.schema)


class AsUnbound(Contract):
    target = f"{CR}.as_unbound"
    props = P
    params = {"self": ColV}
    returns = ColV
    use_at_calls = False

    def ensures(self, result):
        return same(result.name, self.name) and not result.is_bound() and result.table is None


class DropTableAlias(Contract):
    target = f"{CR}.drop_table_alias"
    props = P
    params = {"self": ColV}
    returns = ColV
    raises = {"StateError": "bad"}
    use_at_calls = False

    def requires(self):
        return self.table is None or self.table.virtual or self.table.full_name != ""

    def bad(self):
        return self.table is not None and self.table.virtual

    def ensures(self, result):
        return same(result.name, self.name) and (result.table is None if self.table is None
                                                 else content(result.table, self.table.full_name, "", False, self.table.schema))


class ColumnOrder(Contract):
    target = f"{CR}.__lt__"
    props = P
    params = {"self": ColV, "other": ColV}
    returns = Bool
    use_at_calls = False
    bounded = True
    note = "strict partial order, compatible with equality"

    def ensures(self, other, result):
        return not (result and other < self) and not (result and self == other) \
            and (result == (self.name.lower() < other.name.lower()) if self.table == other.table else True)


class CopyColumn(Lemma):
    props = P
    params = {"c": ColV}
    runtime = True

    def lemma(c):
        return c.__copy__() == c


class CopyRoundTrip(Lemma):
    props = P
    params = {"c": ColV, "t": TableV}
    bounded = True
    note = "copy and pickle protocols of CPython"

    def lemma(c, t):
        import copy
        import pickle
        return copy.deepcopy(c) == c and copy.copy(c) == c and pickle.loads(pickle.dumps(c)) == c and hash(pickle.loads(pickle.dumps(c))) == hash(c) \
            and copy.deepcopy(c).is_bound() == c.is_bound() and copy.deepcopy(t) == t and pickle.loads(pickle.dumps(t)) == t


class QuoteText(Contract):
    target = f"{CORE}:quote"
    props = P
    params = {"identifier": Str}
    returns = Str
    trusted = True
    note = "the textual form of a name is some function of the name (regular expression; searched at run time by Quoting)"


class Quoting(Contract):
    target = f"{CORE}:quote"
    props = P
    params = {"identifier": Str}
    returns = Str
    bounded = True
    note = "regular expression over characters"
    mine_extra = True

    gen = lambda rng, size: {"identifier": "".join(rng.choice(['a', 'B', '"', ' ', '_', '1', 'select', 'é', '.']) for _ in range(rng.randint(0, size + 1)))}

    def ensures(identifier, result):
        return unquote(result) == identifier

    def ensures_reserved(identifier, result):
        return implies(identifier.lower() in ("select", "from", "where", "order", "group"), result != identifier)


def unquote(s):
    if s.startswith('"'):
        assert s.endswith('"') and len(s) >= 2
        inner = s[1:-1]
        assert '"' not in inner.replace('""', '')
        return inner.replace('""', '"')
    assert all(ch.isalnum() or ch in "_$" for ch in s)
    return s
