"""C18: parsing and formatting retain the meaning of queries (whole statements, compared by means of Postgres' own parser)."""
from pydv.api import *

PM = "postbound.parser"
QAL = "postbound.qal._qal"
use(PM, "parse_query")
P = ("C18",)
RESERVED = ["ParserError", "NotImplementedError", "ValueError"]


def schema(kind):
    from contracts import gens, sqltext
    tables = [None, sqltext.SCHEMA, sqltext.OTHER_SCHEMA][kind]
    return None if tables is None else gens.FakeSchema(tables)


def tables(db_schema):
    return {} if db_schema is None else db_schema._tables


def _statement(rng, size):
    from contracts import sqltext
    return {"query": sqltext.statement(rng, rng.randint(0, 3)), "accept_set_query": True, "include_hints": rng.random() < 0.8, "bind_columns": False, "db_schema": schema(rng.randint(0, 2))}


def _decorated(rng, size):
    from contracts import sqltext
    sets, hints, explain, query = sqltext.decorated(rng, rng.randint(0, 1))
    text = "\n".join([*sets, *hints, explain + query]) + rng.choice(["", ";", " ;\n"])
    return {"query": text, "accept_set_query": True, "include_hints": rng.random() < 0.8, "bind_columns": False, "db_schema": schema(rng.randint(0, 2))}


def _exotic(rng, size):
    from contracts import sqltext
    return {"query": rng.choice(sqltext.EXOTIC), "accept_set_query": True, "include_hints": True, "bind_columns": False, "db_schema": schema(rng.randint(0, 2))}


def meaning(text):
    from contracts import sqltext
    return sqltext.meaning(text)


def lost(query, db_schema, text):
    """what a text does not have in common with the original query"""
    from contracts import sqltext
    return sqltext.differs(sqltext.owners(query, tables(db_schema)), sqltext.meaning(text))


def physical(query):
    return {(t.full_name, t.alias, t.schema) for t in query.tables() if not t.virtual}


def relations(text):
    from contracts import sqltext
    return sqltext.relations(text)


class ParseStatement(Contract):
    """the text of a parsed query means the same as the original text; each unqualified column is bound to a table that provides it"""
    target = f"{PM}:parse_query"
    family = "statements"
    props = P
    params = {"query": Str, "accept_set_query": Bool, "include_hints": Bool, "bind_columns": Bool, "db_schema": Any}
    bounded = True
    gen = _statement
    weight = 5
    note = "bounded: statements of an own grammar; the oracle is the parse tree that Postgres builds for both texts"

    def ensures_meaning(query, db_schema, result):
        return lost(query, db_schema, str(result)) == ""

    def ensures_tables(query, result):
        return physical(result) == relations(query)

    def ensures_stable(db_schema, result):
        again = parse_query(str(result), accept_set_query=True, bind_columns=False, db_schema=db_schema)
        return str(again) == str(result) and again.tables() == result.tables()


class ParseDecorated(Contract):
    """preparatory statements, hint blocks and EXPLAIN clauses are retained, and change nothing else"""
    target = f"{PM}:parse_query"
    family = "decorated statements"
    props = P
    params = {"query": Str, "accept_set_query": Bool, "include_hints": Bool, "bind_columns": Bool, "db_schema": Any}
    bounded = True
    gen = _decorated
    weight = 2
    note = "bounded: statements of an own grammar with SET statements, hint blocks, comments and EXPLAIN clauses"

    def ensures_meaning(query, include_hints, db_schema, result):
        text = str(result)
        return lost(query if include_hints else without_settings(query), db_schema, text) == ""

    def ensures_hints(query, include_hints, result):
        from contracts import sqltext
        wanted = [h for h in sqltext.HINTS if h in query]
        text = result.hints.query_hints if result.hints else ""
        return all(h in text for h in wanted) if include_hints else not result.hints

    def ensures_explain(query, result):
        return result.is_explain() == ("EXPLAIN " in query) and (not result.is_explain() or result.explain.analyze == ("ANALYZE" in query))


def without_settings(query):
    from contracts import sqltext
    for s in sqltext.SETS:
        query = query.replace(s, "")
    return query


class ParseExotic(Contract):
    """what the representation of queries cannot express is rejected, not dropped"""
    target = f"{PM}:parse_query"
    family = "features"
    props = P
    params = {"query": Str, "accept_set_query": Bool, "include_hints": Bool, "bind_columns": Bool, "db_schema": Any}
    bounded = True
    gen = _exotic
    may_raise = RESERVED
    note = "bounded: a list of 190 statements with unusual features"

    def ensures_meaning(query, db_schema, result):
        return lost(query, db_schema, str(result)) == ""


def _formatted(rng, size):
    from contracts import sqltext
    from postbound.parser import parse_query
    kind = rng.choice(["plain", "plain", "decorated"])
    if kind == "plain":
        text = sqltext.statement(rng, rng.randint(0, 3))
    else:
        sets, hints, explain, query = sqltext.decorated(rng, rng.randint(0, 1))
        text = "\n".join([*sets, *hints, explain + query])
    return {"query": parse_query(text, accept_set_query=True, bind_columns=False), "flavor": rng.choice(["vanilla", "postgres"]), "inline_hint_block": rng.random() < 0.5,
            "trailing_semicolon": rng.random() < 0.7, "custom_formatter": None}


class Format(Contract):
    """formatted queries mean the same as the query, contain its hints, and are terminated on demand"""
    target = "postbound.qal._formatter:format_quick"
    props = P
    params = {"query": Any, "flavor": Str, "inline_hint_block": Bool, "trailing_semicolon": Bool, "custom_formatter": NoneT}
    bounded = True
    gen = _formatted
    weight = 4
    note = "bounded: parsed statements of an own grammar; the oracle is the parse tree that Postgres builds for both texts"

    def ensures_meaning(query, result):
        from contracts import sqltext
        return sqltext.differs(sqltext.meaning(str(query)), sqltext.meaning(result)) == ""

    def ensures_hints(query, result):
        return not query.hints or query.hints.query_hints in result

    def ensures_semicolon(trailing_semicolon, result):
        return result.endswith(";") == trailing_semicolon
