"""SELECT statements as text, and what they mean according to Postgres' own parser.

`statement` writes statements of the SQL that PostBOUND supports, by an own grammar that shares nothing with the parser and
the formatter of the repository. `exotic` adds one construct that PostBOUND may reject (but must not drop). `meaning` is the parse
tree that Postgres builds for a text, without positions and up to notations that mean the same.
"""

from __future__ import annotations

import json

import pglast
import pglast.parser

TABS = ["r", "s", "t", "u", "movie_info"]
COLS = ["a", "b", "c", "id", "limit_", "name"]
QUOTED = ['"Foo"', '"order"', '"a b"', '"from"']


class Gen:
    def __init__(self, rng, exotic=None):
        self.rng = rng
        self.exotic = exotic
        self.n = 0
        self.budget = 30

    def p(self, prob):
        return self.rng.random() < prob

    def fresh(self, stem):
        self.n += 1
        return f"{stem}{self.n}"

    def pick(self, xs):
        return self.rng.choice(xs)

    def some(self, make, lo=1, hi=3):
        return [make() for _ in range(self.rng.randint(lo, hi))]

    # -- expressions

    def col(self, scope):
        name = self.pick(QUOTED) if self.p(0.06) else self.pick(COLS)
        if scope and self.p(0.75):
            return f"{self.pick(scope)}.{name}"
        return name

    def const(self):
        return self.pick(["0", "1", "42", "7", "-3", "3000000000", "9007199254740993", "2.5", "0.001", "'abc'", "'it''s'", "'%x_'", "''",
                          "'limit 3'", "'a/*b'", "'x\\ny'", "'--'", "'1'", "TRUE", "FALSE", "NULL"])

    def expr(self, scope, d, agg=True):
        self.budget -= 1
        if d <= 0 or self.budget <= 0 or self.p(0.3):
            return self.col(scope) if self.p(0.65) else self.const()
        kind = self.rng.randrange(13)
        e = lambda: self.expr(scope, d - 1)
        if kind <= 1:
            return f"{self.operand(scope, d - 1)} {self.pick(['+', '-', '*', '/', '%', '||'])} {self.operand(scope, d - 1)}"
        if kind == 2:
            ops = [self.operand(scope, d - 1) for _ in range(3)]
            o1, o2 = self.pick(["+", "-", "*", "/"]), self.pick(["+", "-", "*", "/"])
            return self.pick([f"{ops[0]} {o1} {ops[1]} {o2} {ops[2]}", f"{ops[0]} {o1} ({ops[1]} {o2} {ops[2]})",
                              f"({ops[0]} {o1} {ops[1]}) {o2} {ops[2]}"])
        if kind == 3:
            return f"- {self.operand(scope, d - 1)}" if self.p(0.5) else f"-({self.operand(scope, d - 1)} + {self.operand(scope, d - 1)})"
        if kind in (4, 5):
            return self.func(scope, d)
        if kind == 6:
            return self.cast(scope, d)
        if kind == 7:
            return self.case(scope, d)
        if kind == 8:
            return self.window(scope, d)
        if kind == 9:
            return f"({self.query(scope, d - 2, one=True)})"
        if kind == 10:
            return f"ARRAY[{', '.join(self.some(e))}]"
        if kind == 11:
            arr = self.pick([self.col(scope), f"(ARRAY[{', '.join(self.some(e))}])", f"({self.func(scope, d - 1)})"])
            return arr + self.pick(["[1]", f"[{e()}]", "[1:2]", "[:2]", "[2:]", "[1][2]", "[1:2][3:4]"])
        return f"({self.pred(scope, d - 1)})"

    def operand(self, scope, d):
        return self.pick([self.col(scope), self.const(), f"({self.expr(scope, d)})", self.func(scope, d), self.cast(scope, d)])

    def func(self, scope, d):
        e = lambda: self.expr(scope, d - 1)
        name = self.pick(["f", "lower", "upper", "count", "sum", "coalesce", "extra.f", "min"])
        text = self.pick([f"{name}({', '.join(self.some(e))})", f"{name}({e()})", "now()", "count(*)", f"count(DISTINCT {e()})",
                          f"count(DISTINCT {self.col(scope)})", f"sum(DISTINCT {self.col(scope)})"]) if name != "coalesce" else f"coalesce({e()}, {e()})"
        if text.split("(")[0] in ("count", "sum", "min") and self.p(0.2):
            text += f" FILTER (WHERE {self.pred(scope, d - 1)})"
        return text

    def cast(self, scope, d):
        typ = self.pick(["int", "integer", "bigint", "smallint", "text", "varchar(10)", "char(3)", "varchar", "numeric(10, 2)", "double precision",
                         "real", "bool", "boolean", "date", "timestamp", "int[]", "text[]", "mytype", "timestamptz", "interval"])
        inner = self.expr(scope, d - 1)
        return self.pick([f"CAST({inner} AS {typ})", f"({inner})::{typ}", f"{self.col(scope)}::{typ}"] + (["date '2020-01-01'"] if self.p(0.3) else []))

    def case(self, scope, d):
        e = lambda: self.expr(scope, d - 1)
        head, when = ("CASE", lambda: self.pred(scope, d - 1)) if self.p(0.6) else (f"CASE {e()}", e)
        text = head + "".join(f" WHEN {when()} THEN {e()}" for _ in range(self.rng.randint(1, 2)))
        return text + (f" ELSE {e()}" if self.p(0.5) else "") + " END"

    def window(self, scope, d):
        e = lambda: self.expr(scope, d - 1)
        fn = self.pick([f"sum({e()})", "rank()", "count(*)", f"count({self.col(scope)})", "row_number()"])
        text = fn + (f" FILTER (WHERE {self.pred(scope, d - 1)})" if fn[0] in "sc" and self.p(0.2) else "")
        parts = []
        if self.p(0.6):
            parts.append("PARTITION BY " + ", ".join(self.some(e, 1, 2)))
        if self.p(0.6):
            parts.append("ORDER BY " + ", ".join(self.some(lambda: self.ordering(scope, d - 1), 1, 2)))
        return f"{text} OVER ({' '.join(parts)})"

    def ordering(self, scope, d):
        return self.expr(scope, d) + self.pick(["", "", " ASC", " DESC"]) + self.pick(["", "", "", " NULLS FIRST", " NULLS LAST"])

    # -- predicates

    def pred(self, scope, d):
        self.budget -= 1
        leaf = d <= 0 or self.budget <= 0
        o = lambda: self.operand(scope, 0 if leaf else d - 1)
        kind = self.rng.randrange(4 if leaf else 16)
        if kind <= 2:
            return f"{o()} {self.pick(['=', '<', '<=', '>', '>=', '<>', '!=', '=', '='])} {o()}"
        if kind == 3:
            return f"{o()} IS {self.pick(['', 'NOT '])}NULL"
        if kind in (4, 5):
            word = self.pick([" AND ", " OR "])
            return word.join(f"({x})" if self.p(0.7) else x for x in self.some(lambda: self.pred(scope, d - 1), 2, 4))
        if kind == 6:
            return f"NOT ({self.pred(scope, d - 1)})"
        if kind == 7:
            return f"{o()} {self.pick(['LIKE', 'NOT LIKE', 'ILIKE', 'NOT ILIKE'])} {self.pick([chr(39) + '%a_' + chr(39), o()])}"
        if kind == 8:
            return f"{o()} {self.pick(['IN', 'NOT IN'])} ({', '.join(self.some(o, 1, 3))})"
        if kind == 9:
            return f"{o()} BETWEEN {o()} AND {o()}"
        if kind == 10:
            return f"{o()} {self.pick(['IN', 'NOT IN'])} ({self.query(scope, d - 2, one=True)})"
        if kind == 11:
            return f"{self.pick(['', 'NOT '])}EXISTS ({self.query(scope, d - 2)})"
        if kind == 12:
            return f"{o()} IS {self.pick(['', 'NOT '])}DISTINCT FROM {o()}"
        if kind == 13:
            return f"{o()} {self.pick(['=', '<', '>=', '<>'])} {self.pick(['ANY', 'ALL'])} " + self.pick(
                [f"({self.query(scope, d - 2, one=True)})", f"(ARRAY[{', '.join(self.some(o, 1, 2))}])"])
        if kind == 14:
            return f"{o()} {self.pick(['@>', '<@', '&&'])} {o()}"
        return self.pick([self.col(scope), "TRUE", self.func(scope, d - 1)])

    # -- tables

    def table(self, ctes):
        name = self.pick(ctes) if ctes and self.p(0.4) else self.pick(TABS)
        if name in TABS and self.p(0.1):
            name = self.pick(["sc", "public"]) + "." + name
        if self.p(0.65):
            alias = self.fresh(self.pick(["x", "y"]))
            return f"{name} {self.pick(['AS ', ''])}{alias}", [alias]
        return name, [name.split(".")[-1]]

    def source(self, outer, d, ctes, left, joins=True):
        """A table source, and the names it makes available."""
        kind = self.rng.randrange(12 if joins else 11)
        if d <= 0 or kind <= 6 or self.budget <= 0:
            return self.table(ctes)
        if kind <= 8:
            lateral = left and self.p(0.3)
            alias = self.fresh("q")
            return f"{'LATERAL ' if lateral else ''}({self.query(outer + (left if lateral else []), d - 1, ctes=ctes)}) AS {alias}", [alias]
        if kind == 9:
            alias = self.fresh("v")
            width = self.rng.randint(1, 2)
            rows = ", ".join(f"({', '.join(self.const() for _ in range(width))})" for _ in range(self.rng.randint(1, 2)))
            cols = f"({', '.join(self.fresh('vc') for _ in range(width))})" if self.p(0.7) else ""
            return f"(VALUES {rows}) AS {alias}{cols}", [alias]
        if kind == 10:
            alias = self.fresh("fn")
            return f"{self.pick(['generate_series', 'unnest'])}({', '.join(self.some(self.const))}) AS {alias}", [alias]
        return self.joined(outer, d, ctes, left)

    def joined(self, outer, d, ctes, left):
        text, names = self.source(outer, d - 1, ctes, left)
        for _ in range(self.rng.randint(1, 2)):
            right, more = self.source(outer, d - 1, ctes, left + names, joins=False)
            if d > 1 and self.p(0.15):
                right, more = self.joined(outer, d - 2, ctes, left)
                right = f"({right})"
            names = names + more
            kind = self.pick(["JOIN", "INNER JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN", "LEFT OUTER JOIN", "FULL OUTER JOIN", "CROSS JOIN"])
            text += f" {kind} {right}" + ("" if kind == "CROSS JOIN" else f" ON {self.pred(outer + names, d - 1)}")
        return text, names

    def jointree(self, n, rich=False):
        """A tree of n inputs, bushy and with parentheses wherever they are needed."""
        if n == 1:
            return self.source([], 1, [], [], joins=False) if rich and self.p(0.2) else self.table([])
        cut = self.rng.randint(1, n - 1)
        left, names = self.jointree(cut, rich)
        right, more = self.jointree(n - cut, rich)
        left = f"({left})" if cut > 1 and self.p(0.5) else left
        right = f"({right})" if n - cut > 1 else right
        kind = self.pick(["JOIN", "JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN", "CROSS JOIN"])
        names = names + more
        return f"{left} {kind} {right}" + ("" if kind == "CROSS JOIN" else f" ON {self.pred(names, 1)}"), names

    def from_(self, outer, d, ctes):
        entries, names = [], []
        for _ in range(self.rng.choice([1, 1, 2, 2, 3])):
            entry, more = self.joined(outer, d, ctes, names) if self.p(0.25) else self.source(outer, d, ctes, names)
            if set(more) & set(names):
                continue
            entries.append(entry)
            names += more
        return ", ".join(entries), names

    # -- queries

    def ctes(self, outer, d, known):
        texts, names = [], []
        recursive = self.p(0.2)
        for _ in range(self.rng.randint(1, 2)):
            name = self.fresh("w")
            mat = self.pick(["", "", "MATERIALIZED ", "NOT MATERIALIZED "])
            if self.p(0.2):
                cols = f"({self.fresh('wc')})" if self.p(0.7) else ""
                texts.append(f"{name}{cols} AS {mat}(VALUES ({self.const()}), ({self.const()}))")
            elif recursive and self.p(0.5):
                texts.append(f"{name} AS {mat}(SELECT {self.pick(COLS)} AS k FROM {self.pick(TABS)} UNION ALL "
                             f"SELECT {name}.k FROM {name} WHERE {name}.k < {self.const()})")
            else:
                texts.append(f"{name} AS {mat}({self.query(outer, d - 1, ctes=known + names)})")
            names.append(name)
        return f"WITH {'RECURSIVE ' if recursive else ''}{', '.join(texts)} ", names

    def limit(self):
        return self.pick([f" LIMIT {self.pick(['0', '1', '10'])}", " LIMIT 5 OFFSET 3", " OFFSET 2", " FETCH FIRST 4 ROWS ONLY", " LIMIT ALL",
                          " OFFSET 0", " OFFSET 1 FETCH NEXT 2 ROWS ONLY"])

    def tail(self, scope, d):
        text = ""
        if self.p(0.3):
            text += " ORDER BY " + ", ".join(self.some(lambda: self.ordering(scope, min(d, 1)), 1, 2))
        if self.p(0.25):
            text += self.limit()
        return text

    def query(self, outer, d, one=False, ctes=(), top=False, sets=True):
        ctes = list(ctes)
        head = ""
        if d > 0 and self.p(0.2):
            head, more = self.ctes(outer, d, ctes)
            ctes += more
        if sets and d > 0 and self.p(0.15):
            left, right = (self.query(outer, d - 1, one, ctes) for _ in range(2))
            op = self.pick(["UNION", "UNION ALL", "INTERSECT", "EXCEPT"])
            return f"{head}({left}) {op} ({right})" + self.tail([], 0)
        if self.p(0.03) and not one:
            return head + "SELECT " + ", ".join(self.some(self.const))
        source, names = self.from_(outer, d, ctes)
        scope = names + (outer if self.p(0.6) else [])
        distinct = ""
        if self.p(0.15):
            distinct = "DISTINCT " if self.p(0.6) else f"DISTINCT ON ({', '.join(self.some(lambda: self.expr(scope, d - 1), 1, 2))}) "
        if not one and self.p(0.2):
            targets = self.pick(["*", "*", f"{self.pick(names)}.*", f"{self.pick(names)}.*, {self.col(scope)} AS z"])
        else:
            targets = ", ".join(self.expr(scope, d) + (f" AS {self.pick([self.fresh('o'), self.fresh('o'), QUOTED[0], QUOTED[1]])}" if self.p(0.4) else "")
                                for _ in range(1 if one else self.rng.randint(1, 3)))
        text = f"{head}SELECT {distinct}{targets} FROM {source}"
        if self.p(0.6):
            text += f" WHERE {self.pred(scope, d)}"
        if self.p(0.25):
            text += " GROUP BY " + ", ".join(self.some(lambda: self.expr(scope, d - 1), 1, 2))
            if self.p(0.5):
                text += f" HAVING {self.pred(scope, d - 1)}"
        return text + self.tail(scope, d)


def statement(rng, size=2):
    """A statement of the supported SQL."""
    if rng.random() < 0.08:
        gen = Gen(rng)
        text, names = gen.jointree(rng.randint(2, 5), size > 1)
        return f"SELECT {gen.pick(['*', gen.col(names)])} FROM {text}" + (f" WHERE {gen.pred(names, 1)}" if gen.p(0.5) else "")
    return Gen(rng).query([], min(size, 3))


HINTS = ["/*+ SeqScan(r) */", "/*+\n  Leading((r s))\n  HashJoin(r s)\n*/", "-- a comment", "/* note */"]
SETS = ["SET enable_nestloop = 'off';", "SET work_mem TO '4MB';", "SET x = 'it';"]
EXPLAINS = ["EXPLAIN ", "EXPLAIN ANALYZE ", "EXPLAIN (ANALYZE, FORMAT JSON) ", "EXPLAIN (FORMAT JSON) ", "EXPLAIN (FORMAT TEXT) "]


def decorated(rng, size=2):
    """A statement with its preparatory statements, hint block and EXPLAIN clause: (SET statements, hints, explain, query)"""
    sets = [rng.choice(SETS) for _ in range(rng.choice([0, 0, 1, 2]))]
    hints = [rng.choice(HINTS) for _ in range(rng.choice([0, 1, 1, 2]))]
    explain = rng.choice(["", "", *EXPLAINS])
    return sets, hints, explain, statement(rng, size)


EXOTIC = [
    "SELECT * FROM r NATURAL JOIN s", "SELECT * FROM r NATURAL LEFT JOIN s", "SELECT * FROM r JOIN s USING (id)", "SELECT * FROM r LEFT JOIN s USING (id)",
    "SELECT a FROM r INTERSECT ALL SELECT b FROM s", "SELECT a FROM r EXCEPT ALL SELECT b FROM s",
    "SELECT a FROM r LIMIT 1 + 2", "SELECT a FROM r LIMIT (SELECT 1)", "SELECT a FROM r ORDER BY a FETCH FIRST 3 ROWS WITH TIES",
    "SELECT a FROM r OFFSET 1 + 1", "SELECT a FROM r LIMIT '5'", "SELECT a FROM r LIMIT NULL",
    "SELECT a FROM r LIMIT 3 OFFSET NULL", "SELECT a FROM r LIMIT 3000000000", "SELECT a FROM r UNION SELECT b FROM s ORDER BY 1 FETCH FIRST 2 ROWS WITH TIES",
    "SELECT sum(a) OVER (ORDER BY b ROWS BETWEEN 1 PRECEDING AND CURRENT ROW) FROM r", "SELECT sum(a) OVER w FROM r WINDOW w AS (PARTITION BY b)",
    "SELECT sum(a) OVER (w ORDER BY c) FROM r WINDOW w AS (PARTITION BY b)", "SELECT count(DISTINCT a) OVER (PARTITION BY b) FROM r",
    "SELECT array_agg(a ORDER BY b) FROM r", "SELECT percentile_cont(0.5) WITHIN GROUP (ORDER BY a) FROM r", "SELECT f(VARIADIC a) FROM r",
    "SELECT f(x => 1) FROM r", "SELECT a FROM r GROUP BY ROLLUP (a)", "SELECT a FROM r GROUP BY DISTINCT a, b", "SELECT a FROM r GROUP BY ()",
    "SELECT q.x FROM r AS q(x, y)", "SELECT q.x FROM (SELECT a FROM r) AS q(x)", "WITH w(x) AS (SELECT a FROM r) SELECT w.x FROM w",
    "SELECT a FROM ONLY r", "SELECT a FROM r TABLESAMPLE SYSTEM (10)", "SELECT a FROM r FOR UPDATE", "SELECT a FROM r FOR SHARE OF r",
    "SELECT a FROM r ORDER BY a USING >", "SELECT * FROM unnest(ARRAY[1]) WITH ORDINALITY AS x", "SELECT * FROM unnest(ARRAY[1]) AS x(y)",
    "SELECT * FROM ROWS FROM (f(1), g(2)) AS x", "SELECT * FROM f(1) AS x(a int)", "SELECT * FROM r, LATERAL f(r.a) AS x",
    "SELECT a FROM r WHERE a NOT BETWEEN 1 AND 2", "SELECT a FROM r WHERE a BETWEEN SYMMETRIC 2 AND 1", "SELECT a FROM r WHERE a SIMILAR TO 'x'",
    "SELECT a FROM r WHERE a LIKE 'x!%' ESCAPE '!'", "SELECT a FROM r WHERE (a, b) = (1, 2)", "SELECT a FROM r WHERE (a, b) IN ((1, 2), (3, 4))",
    "SELECT a FROM r WHERE (a, b) IN (SELECT s.a, s.b FROM s)", "SELECT a FROM r WHERE (a, b) = (SELECT s.a, s.b FROM s)",
    'SELECT a COLLATE "C" FROM r', "SELECT a AT TIME ZONE 'utc' FROM r", "SELECT a INTO x FROM r", "VALUES (1), (2)", "TABLE r",
    "SELECT a OPERATOR(pg_catalog.+) 1 FROM r", "SELECT a ~ 'x' FROM r", "SELECT CAST(a AS int[][]) FROM r", "SELECT CAST(a AS int[3]) FROM r",
    "SELECT CAST(a AS sc.mytype) FROM r", "SELECT interval '1' day FROM r", "SELECT CAST(a AS interval(3)) FROM r", "SELECT CAST(a AS timestamp(3)) FROM r",
    "SELECT a FROM db.sc.r", "SELECT sc.r.a FROM sc.r", "SELECT (r).a FROM r", "SELECT (r).* FROM r", "SELECT current_date", "SELECT greatest(a, b) FROM r",
    "SELECT nullif(a, b) FROM r", "SELECT a IS TRUE FROM r", "SELECT a IS NOT FALSE FROM r", "SELECT a IS UNKNOWN FROM r", "SELECT extract(year FROM a) FROM r",
    "SELECT substring(a FROM 1 FOR 2) FROM r", "SELECT position('x' IN a) FROM r", "SELECT trim(a) FROM r", "SELECT ARRAY(SELECT a FROM r)",
    "SELECT ARRAY[[1, 2], [3, 4]]", "SELECT ROW(1, 2)", "SELECT a[1].b FROM r", "SELECT * FROM (r JOIN s ON r.a = s.a) AS j",
    "SELECT * FROM (r CROSS JOIN s), t", "SELECT a FROM r WHERE a = ANY (b)", "SELECT a FROM r WHERE a LIKE ANY (ARRAY['x'])",
    "SELECT a FROM r WHERE a NOT IN (SELECT b FROM s) AND NOT a = ALL (SELECT b FROM s)", "SELECT $1 FROM r", "SELECT B'101'", "SELECT X'1F'", "SELECT E'a\\nb'",
    "SELECT DISTINCT ON (a) a, b FROM r ORDER BY a", "SELECT ALL a FROM r", "SELECT FROM r", "SELECT + a FROM r",
    "SELECT @ a FROM r", "SELECT a ! b FROM r", "SELECT 1.5e10, 1e-7, .5", "SELECT 123456789012345678901234567890", "SELECT 0.1234567890123456789",
    "SELECT a FROM r WHERE NOT a", "SELECT a FROM r WHERE NOT NOT a = 1", "SELECT a FROM r WHERE EXISTS (SELECT 1) IS NOT NULL",
    "SELECT a FROM r ORDER BY a = 1 DESC", "SELECT (a = 1) = (b = 2) FROM r", "SELECT (a IS NULL) IS NULL FROM r", "SELECT (a IN (1)) = TRUE FROM r",
    "WITH w AS (SELECT 1), w2 AS (SELECT * FROM w) SELECT * FROM w2, w", "WITH w AS (DELETE FROM r RETURNING a) SELECT * FROM w",
    "WITH RECURSIVE w AS (SELECT 1 AS n UNION ALL SELECT n + 1 FROM w) SEARCH DEPTH FIRST BY n SET o SELECT * FROM w",
    "(SELECT a FROM r LIMIT 1) UNION (SELECT b FROM s ORDER BY b LIMIT 2) LIMIT 3", "SELECT a FROM r UNION (SELECT b FROM s UNION ALL SELECT c FROM t)",
    "(SELECT a FROM r UNION SELECT b FROM s) UNION ALL SELECT c FROM t", "SELECT a FROM r EXCEPT (SELECT b FROM s EXCEPT SELECT c FROM t)",
    "WITH w AS (SELECT 1) (SELECT * FROM w) UNION (WITH v AS (SELECT 2) SELECT * FROM v)", "SELECT (SELECT a FROM r LIMIT 1) FROM s FETCH FIRST 1 ROW ONLY",
    "SELECT a AS \"A b\" FROM r AS \"R\" WHERE \"R\".\"Col\" = 1", "SELECT \"R\".a FROM sc.\"R\"", "SELECT f(DISTINCT a, b) FROM r", "SELECT \"MyFunc\"(a) FROM r",
    "SELECT CAST(a AS \"MyType\") FROM r", "SELECT * FROM f() AS \"X\"", "SELECT x.\"Q\" FROM (VALUES (1)) AS x(\"Q\")", "WITH \"W\" AS (SELECT 1 AS a) SELECT \"W\".a FROM \"W\"",
    "SELECT date_trunc('day', a) FROM r", "SELECT a->>'x' FROM r", "SELECT a::json->'x' FROM r", "SELECT XMLELEMENT(name foo)", "SELECT GROUPING(a) FROM r GROUP BY a",
    "SELECT a <-> b FROM r", "SELECT a ^ 2 FROM r", "SELECT a & b FROM r", "SELECT ~ a FROM r", "SELECT a = b FROM r", "SELECT r FROM r", "SELECT r.*, s.a FROM r, s",
    "EXPLAIN (COSTS OFF) SELECT 1", "EXPLAIN VERBOSE SELECT 1", "EXPLAIN (ANALYZE FALSE) SELECT 1", "EXPLAIN (ANALYZE OFF) SELECT 1", "EXPLAIN (ANALYZE TRUE) SELECT 1",
    "EXPLAIN (ANALYZE 0) SELECT 1", "EXPLAIN (FORMAT XML) SELECT a FROM r", "EXPLAIN (FORMAT yaml) SELECT a FROM r", "SET LOCAL x TO 'a'; SELECT 1",
    "SET x TO 1; SELECT 1", "SET x TO 1.5; SELECT 1", "SET x TO on; SELECT 1", "SET search_path TO a, b; SELECT 1", "SET x TO DEFAULT; SELECT 1", "RESET x; SELECT 1",
    "SET enable_seqscan = off; SELECT a FROM r", "SET x TO 'it''s'; SELECT a FROM r", "SET a.b TO 'x'; SELECT 1", "SET TIME ZONE 'utc'; SELECT 1", "SELECT 1; SELECT 2",
    "SET x TO 'y';", "INSERT INTO r VALUES (1)", "CREATE TABLE x AS SELECT 1", "EXPLAIN INSERT INTO r VALUES (1)", "SELECT count(*) FILTER (WHERE a > 1) OVER (PARTITION BY b) FROM r",
    "SELECT count(ALL a) FROM r", "SELECT f(*) FROM r", "SELECT coalesce(a) FROM r", "SELECT CASE a WHEN 1 THEN 2 END FROM r", "SELECT CASE WHEN a THEN 1 END FROM r",
    "SELECT '2020-01-01'::date - interval '3 months'", "SELECT -a.b FROM a", "SELECT - - a FROM r", "SELECT -(-3) FROM r", "SELECT a - -3 FROM r", "SELECT a - (b - c) FROM r",
    "SELECT a / (b * c) FROM r", "SELECT (a || b) || c FROM r", "SELECT a || (b || c) FROM r", "SELECT -(a + b) * c FROM r", "SELECT (-a) % b FROM r", "SELECT a::int::text FROM r",
    "SELECT (a + b)::int FROM r", "SELECT (CASE WHEN a = 1 THEN b END) + 1 FROM r", "SELECT (SELECT 1) + 1", "SELECT (a[1])[2] FROM r", "SELECT (a || b)[1] FROM r",
    "SELECT a FROM r WHERE a IN (1) IS NULL", "SELECT a FROM r WHERE (a LIKE 'x') = b", "SELECT a FROM r WHERE (a AND b) = c", "SELECT a FROM r WHERE (a BETWEEN 1 AND 2) IS NULL",
    "SELECT a FROM r WHERE a = (b = c)", "SELECT a FROM r WHERE (a IS DISTINCT FROM b) = c", "SELECT a FROM r WHERE (NOT a) = b", "SELECT a FROM r WHERE (NOT a) IS NULL",
    "SELECT a FROM r WHERE EXISTS (SELECT 1) = TRUE", "SELECT a FROM r WHERE (EXISTS (SELECT 1)) = TRUE", "SELECT a FROM r WHERE a BETWEEN (b = c) AND (1 + 2)",
    "SELECT a FROM r WHERE (a = 1 OR b = 2) AND NOT (c = 3 AND d = 4)", "SELECT a FROM r WHERE a = 1 OR b = 2 AND c = 3", "SELECT a FROM r WHERE (a = 1) AND (b)",
]


# -- meaning

DROP = {"location", "stmt_location", "stmt_len", "rexpr_list_start", "rexpr_list_end", "list_start", "list_end", "expr_location", "stmt_len"}


def meaning(text):
    """The parse tree of Postgres, without the positions in the text and up to equivalent notations."""
    try:
        return clean(json.loads(pglast.parser.parse_sql_json(text))["stmts"])
    except pglast.parser.ParseError as e:
        return {"no statement": f"{e}: {text}"}


def clean(node):
    if isinstance(node, list):
        return [clean(x) for x in node]
    if not isinstance(node, dict):
        return node
    out = {k: clean(v) for k, v in node.items() if k not in DROP}
    out.pop("funcformat", None)  # extract(year FROM a) is the same as extract('year', a)
    if "typeName" in out and isinstance(out["typeName"], dict):
        kind = dict(out["typeName"])
        if kind["names"][0] == {"String": {"sval": "pg_catalog"}}:
            kind["names"] = kind["names"][1:]
        if "arrayBounds" in kind:  # Postgres ignores the bounds and their number
            kind["arrayBounds"] = True
        out["typeName"] = kind
    if "RangeFunction" in out:  # functions can always refer to their left neighbors
        out["RangeFunction"].pop("lateral", None)
    if out.get("limitOffset") == {"A_Const": {"isnull": True}}:
        del out["limitOffset"]
        if "limitCount" not in out:
            out["limitOption"] = "LIMIT_OPTION_DEFAULT"
    if "A_Const" in out and "fval" in out["A_Const"]:  # numbers
        out = {"A_Const": {"number": number(out["A_Const"]["fval"]["fval"])}}
    elif "A_Const" in out and "ival" in out["A_Const"]:
        out = {"A_Const": {"number": number(str(out["A_Const"]["ival"].get("ival", 0)))}}
    elif "BoolExpr" in out and out["BoolExpr"]["boolop"] != "NOT_EXPR":
        op = out["BoolExpr"]["boolop"]
        args = []
        for arg in out["BoolExpr"]["args"]:
            args += arg["BoolExpr"]["args"] if arg.get("BoolExpr", {}).get("boolop") == op else [arg]
        out = {"BoolExpr": {"boolop": op, "args": args}}
    elif out.get("A_Expr", {}).get("kind") == "AEXPR_IN" and out["A_Expr"]["name"][0]["String"]["sval"] == "<>":
        inner = {"A_Expr": {**out["A_Expr"], "name": [{"String": {"sval": "="}}]}}
        out = {"BoolExpr": {"boolop": "NOT_EXPR", "args": [inner]}}
    elif out.get("A_Expr", {}).get("kind") == "AEXPR_OP" and out["A_Expr"].get("name") == [{"String": {"sval": "-"}}] and "lexpr" not in out["A_Expr"] \
            and "number" in out["A_Expr"]["rexpr"].get("A_Const", {}):  # -3 is a constant, (-(3)) as well
        out = {"A_Const": {"number": number("-" + out["A_Expr"]["rexpr"]["A_Const"]["number"][1])}}
    elif out.get("defname") == "analyze":  # of EXPLAIN
        value = out.pop("arg", {"String": {"sval": "true"}})
        out["value"] = value.get("String", {}).get("sval") in ("true", "on") or value.get("Integer", {}).get("ival", 0) != 0
    elif "ExplainStmt" in out:
        options = [o for o in out["ExplainStmt"].get("options", []) if o["DefElem"].get("value", True)]
        out = {"ExplainStmt": {"query": out["ExplainStmt"]["query"], **({"options": options} if options else {})}}
    elif "limitOption" in out and out.get("limitCount") == {"A_Const": {"isnull": True}}:  # LIMIT ALL is no limit
        del out["limitCount"]
        if "limitOffset" not in out:
            out["limitOption"] = "LIMIT_OPTION_DEFAULT"
    return out


def number(text):
    text = text[2:] if text.startswith("--") else text
    if any(ch in text for ch in ".eE"):
        return ["decimal", repr(float(text)), len(text.replace(".", "").strip("-0")) if len(text) > 16 else 0]
    return ["int", text]


# -- which table provides a column


SCHEMA = {"r": ["a", "b"], "s": ["b", "c", "order"], "t": ["id", "a b"], "u": ["name", "limit_"], "movie_info": ["id", "Foo", "a"]}
OTHER_SCHEMA = {"r": ["b", "name"], "s": ["a"], "t": ["c", "limit_", "from"], "u": ["id"], "movie_info": ["b", "order"]}


def owners(text, schema=None):
    """The meaning of a text where each unqualified column lists the tables that provide it (None: the output of the query might be meant)."""
    tree = clean(json.loads(pglast.parser.parse_sql_json(text))["stmts"])
    for stmt in tree:
        body = stmt["stmt"]
        body = body["ExplainStmt"]["query"] if "ExplainStmt" in body else body
        if "SelectStmt" in body:
            Owners(schema or {}).select(body["SelectStmt"], {})
    return tree


class Owners:
    def __init__(self, schema):
        self.schema = schema

    def walk(self, node, scope, ctes, produced=()):
        if isinstance(node, list):
            for x in node:
                self.walk(x, scope, ctes, produced)
        elif isinstance(node, dict):
            for key, sub in node.items():
                if key == "ColumnRef":
                    if len(sub["fields"]) == 1 and "String" in sub["fields"][0]:
                        name = sub["fields"][0]["String"]["sval"]
                        sub["owners"] = [alias for alias, cols in scope if name in cols] + ([None] if name in produced else [])
                elif key == "SelectStmt":
                    self.select(sub, ctes)
                else:
                    self.walk(sub, scope, ctes, produced)

    def select(self, stmt, ctes):
        """Annotates a query, and provides the names of its columns."""
        ctes = dict(ctes)
        for cte in stmt.get("withClause", {}).get("ctes", []):
            cte = cte["CommonTableExpr"]
            cols = self.select(cte["ctequery"]["SelectStmt"], {**ctes, cte["ctename"]: []}) if "SelectStmt" in cte["ctequery"] else []
            ctes[cte["ctename"]] = [c["String"]["sval"] for c in cte.get("aliascolnames", [])] or cols
        if stmt["op"] != "SETOP_NONE":
            cols = self.select(stmt["larg"], ctes)
            self.select(stmt["rarg"], ctes)
            self.walk(stmt.get("sortClause", []), [], ctes)
            return cols
        if "valuesLists" in stmt:
            self.walk(stmt["valuesLists"], [], ctes)
            return []
        scope = []
        for entry in stmt.get("fromClause", []):
            self.source(entry, scope, ctes)
        self.walk(stmt.get("distinctClause", []), scope, ctes)
        self.walk(stmt.get("targetList", []), scope, ctes)
        targets = [t["ResTarget"] for t in stmt.get("targetList", [])]
        produced = [t["name"] for t in targets if "name" in t]
        for key in ("whereClause", "groupClause", "havingClause", "sortClause"):
            self.walk(stmt.get(key, []), scope, ctes, produced)
        cols = []
        for t in targets:
            fields = t["val"]["ColumnRef"]["fields"] if "ColumnRef" in t["val"] else []
            if "name" in t:
                cols.append(t["name"])
            elif fields and "A_Star" in fields[-1]:
                tab = fields[0]["String"]["sval"] if len(fields) > 1 else None
                cols += [c for alias, more in scope for c in more if tab is None or alias == tab]
            elif fields:
                cols.append(fields[-1]["String"]["sval"])
        return cols

    def source(self, entry, scope, ctes):
        (kind, body), = entry.items()
        alias = body["alias"]["aliasname"] if body.get("alias") else None
        if kind == "RangeVar":
            name = body["relname"]
            cols = ctes[name] if name in ctes and "schemaname" not in body else self.schema.get(name, [])
            scope.append((alias or name, cols))
        elif kind == "JoinExpr":
            start = len(scope)
            self.source(body["larg"], scope, ctes)
            self.source(body["rarg"], scope, ctes)
            self.walk(body.get("quals", []), scope[start:], ctes)
        elif kind == "RangeSubselect":
            cols = self.select(body["subquery"]["SelectStmt"], ctes)
            named = [c["String"]["sval"] for c in body.get("alias", {}).get("colnames", [])]
            scope.append((alias, named or cols))
        elif kind == "RangeFunction":
            self.walk(body["functions"], scope, ctes)
            scope.append((alias, [alias]))


def differs(want, got, path="", binding=True):
    """The first difference between an annotated statement and the meaning of its text, "" if there is none."""
    if isinstance(want, dict) and "owners" in want:
        had, has = [f["String"]["sval"] for f in want["fields"]], [f.get("String", {}).get("sval") for f in got.get("fields", [])]
        if has == had:
            return f"{path}: {had} is provided by {want['owners']}, but was not bound" if binding and want["owners"] and None not in want["owners"] else ""
        if len(has) == 2 and has[1:] == had and has[0] in want["owners"]:
            return ""
        return f"{path}: {had} is provided by {want['owners']}, but was bound to {has}"
    if isinstance(want, dict) and isinstance(got, dict):
        for key in [*want, *[k for k in got if k not in want]]:
            if key not in got:
                return f"{path}.{key}: lost {str(want[key])[:150]}"
            if key not in want:
                return f"{path}.{key}: added {str(got[key])[:150]}"
            diff = differs(want[key], got[key], f"{path}.{key}", binding)
            if diff:
                return diff
        return ""
    if isinstance(want, list) and isinstance(got, list):
        if len(want) != len(got):
            return f"{path}: {len(want)} parts became {len(got)}"
        return next((d for d in (differs(x, y, f"{path}[{i}]", binding) for i, (x, y) in enumerate(zip(want, got))) if d), "")
    return "" if want == got and type(want) is type(got) else f"{path}: {str(want)[:150]} became {str(got)[:150]}"


def relations(text):
    """The tables in the FROM clauses of a text that are no CTEs, as (name, alias, schema)."""
    found, ctes = set(), set()

    def walk(node):
        if isinstance(node, list):
            for x in node:
                walk(x)
        elif isinstance(node, dict):
            for key, sub in node.items():
                if key == "RangeVar":
                    found.add((sub["relname"], sub.get("alias", {}).get("aliasname", ""), sub.get("schemaname", "")))
                if key == "CommonTableExpr":
                    ctes.add(sub["ctename"])
                walk(sub)
    walk(meaning(text))
    return {r for r in found if r[0] not in ctes or r[2]}
