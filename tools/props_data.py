NOTE = ("Every listed contract is discharged for all inputs by z3 over verification conditions generated from /repo's current source; "
        "trusted: the VC generator's Python semantics, z3, real-number floats, opaque strings. ")

prop("C01", "Operator assignments store exactly what was assigned and combine faithfully",
     "An operator assignment behaves like the map that the history of its calls describes: a choice made for a table or for a set of tables is returned by "
     "lookups for exactly that set (and no choice is invented, lost or moved), a later choice replaces an earlier one, and global switches enable and disable "
     "exactly the operators they name. Merging two assignments lets the second one win wherever both decide and keeps everything else of both; merging with, "
     "cloning and filtering (global settings only, without worker hints) never change the assignments they start from and yield assignments that hold exactly the "
     "promised part. Two assignments are equal exactly if they make the same choices (scan, join and intermediate operators, worker counts, global switches), "
     "and equal assignments share their hash.",
     ["inputs", "histories"], "every assignment, every operator, every set of tables, every sequence of updates",
     "the tests build a handful of assignments; statements are over all maps and all update sequences",
     ["postbound/_hints.py", "postbound/util/dicts.py"],
     [("PhysicalOperatorAssignment setters, lookups, merge_with, clone, filters", "postbound/_hints.py"),
      ("ScanOperatorAssignment / JoinOperatorAssignment / DirectionalJoinOperatorAssignment", "postbound/_hints.py")],
     NOTE + "Iteration order, printing and the transfer of worker counts from plan parameters are bounded (runtime search).")

prop("C02", "Plan parameters are stored, merged and restricted without loss",
     "Plan parameters return exactly the cardinality, worker count, system setting and execution mode recorded last for a set of tables or a setting name, "
     "and an unset entry is reported as unset. Merging lets the second argument win where both decide, keeps every other entry of both (the execution mode "
     "included), and leaves both arguments unchanged.",
     ["inputs", "histories"], "every parameterization and every sequence of updates",
     "no test merges parameterizations with overlapping entries",
     ["postbound/_hints.py"], [("PlanParameterization", "postbound/_hints.py")], NOTE)

prop("C03", "Cardinalities behave like row counts that may be unknown or infinite",
     "Arithmetic and comparison of cardinalities agree with the numbers they hold: results are rounded to whole rows where the operation is defined, an "
     "operation with an unknown operand yields an unknown cardinality, infinite cardinalities are larger than every finite one, and unknown is never "
     "mistaken for a number. Equality never fails, is compatible with hashing and with plain numbers, and the predicates for validity, infinity and "
     "unknownness partition all cardinalities.",
     ["inputs"], "every pair of cardinalities and numbers, including nan, infinities and fractions",
     "tests sample a few sums; unknown and infinite operands in every operator position are not covered",
     ["postbound/_core.py"], [("Cardinality", "postbound/_core.py")], NOTE)

prop("C04", "Table and column references are values whose identity ignores only case",
     "Two table references are equal exactly if schema, name and alias agree up to letter case, two columns exactly if their names agree up to case and they "
     "are bound to equal tables, and equal references share their hash. Deriving a reference (changing or dropping an alias, making it virtual, binding, "
     "unbinding, updating) changes exactly the named part and keeps all others, including the schema; impossible references are rejected. The quoted text of a name "
     "denotes that name.",
     ["inputs"], "all names, aliases, schemas, flags",
     "tests use a few lower-case names without schema; equality and derivation must hold for all combinations of parts",
     ["postbound/_core.py"], [("TableReference", "postbound/_core.py"), ("ColumnReference, BoundColumnReference", "postbound/_core.py"),
                              ("quote", "postbound/_core.py")],
     NOTE + "Quoting (a regular expression), column ordering and copy/pickle protocols are bounded (runtime search).")

prop("C05", "Join trees encode exactly one join order and all their views agree",
     "A join tree is a base table or the join of two non-empty trees, and every observer agrees with that structure: its tables are exactly the tables of its leaves, "
     "its nodes, joins and leaves are enumerated completely and in order (one join less than leaves), depth, linearity and bushiness take all joins into account, "
     "looking up a set of tables finds the node over exactly these tables if and only if one exists. Building trees (scan, join, joining with a table or tree, "
     "changing an annotation) changes exactly the described part, keeps both inputs as children in the requested order, and logical trees stay logical trees. "
     "Trees are equal exactly if they describe the same join order, whatever their annotations, and equal trees share their hash.",
     ["inputs"], "every join tree of any size and shape",
     "tests build three-table trees; statements are over all shapes, proved by structural induction",
     ["postbound/_hints.py"], [("JoinTree", "postbound/_hints.py"), ("LogicalJoinTree", "postbound/_hints.py")], NOTE)

prop("C06", "All views of a query plan agree with its tree of operators",
     "A query plan is a tree of operators with scans over base tables, joins over two inputs and auxiliary nodes, possibly with subplans. Every observer agrees with "
     "that tree: each node is exactly one of scan, join or auxiliary; the tables, depth, base joins and scan branches are those of all nodes including subplans; looking up a "
     "set of tables finds the highest node over exactly these tables if and only if one exists; searching for nodes finds only matching nodes, and finds one if and "
     "only if some node of the plan or its subplans matches; linear, left-deep, right-deep, zig-zag and bushy shapes are decided by all joins; iteration visits each "
     "node exactly once; plans are equal exactly if they have the same operators over the same tables in the same order; cost and error metrics cover all nodes and are "
     "undefined exactly if a measurement is missing.",
     ["inputs"], "every query plan of any size and shape, every search predicate",
     "tests inspect a handful of plans of a live database; the statements are over all shapes, proved by structural induction",
     ["postbound/_qep.py"], [("QueryPlan", "postbound/_qep.py"), ("Subplan", "postbound/_qep.py")],
     NOTE + "Shapes, exhaustive iteration, metrics and hashes are bounded (runtime search); joins are assumed to have two inputs.")

prop("C07", "Transforming a query plan changes exactly the described part",
     "Deriving a plan from a query plan never changes the original, and the derived plan differs exactly in the described part: new estimates replace cardinality and cost of "
     "the root (keeping those not given; measurements are dropped unless they should be kept); swapping in actual cardinalities replaces, in all nodes including "
     "subplans, the estimated by the measured cardinality (unmeasured nodes keep their estimates if requested), re-estimates the cost if possible and drops measurements; scaling multiplies "
     "the requested kind of cardinality and keeps all other data, for one or all nodes; a parallel version differs in its number of workers; the canonical plan consists of exactly the "
     "scans and joins in the same order; clones are equal to the original in all data, and deep clones are independent of it.",
     ["inputs"], "every query plan of any size and shape, every estimate and factor",
     "tests hardly transform plans; statements are over all shapes, proved by structural induction",
     ["postbound/_qep.py"], [("QueryPlan.with_estimates, with_actual_card, scale_cardinality", "postbound/_qep.py"), ("QueryPlan.canonical, parallelize, clone", "postbound/_qep.py")],
     NOTE + "Estimates, measures and parameters are opaque for the proofs (their constructors are trusted to store their arguments; this and cloning are checked by the bounded runtime search).")

prop("C08", "Query plans are decomposed and assembled without loss",
     "The join tree extracted from a query plan joins the base tables in the order of the plan, ignoring auxiliary nodes, and carries the requested (estimated or actual) "
     "cardinality of each scan and join; the extracted operators are those of all scans, joins and intermediate operators, with the number of workers if requested; the extracted parameters "
     "hold each known cardinality (with the requested fallback) and number of workers under the tables of its node. Building a plan from a join tree, operators and parameters yields a plan "
     "with this join order, these operators (falling back to the defaults; an error if there is none), cardinalities and workers, and decomposing it again yields the join tree it was built from. "
     "Nested table sequences denote their join tree.",
     ["inputs"], "every query plan with regular inputs, every join tree, operator assignment and parameterization",
     "tests hardly decompose plans; statements are over all shapes, proved by structural induction, including the round trip",
     ["postbound/_hints.py", "postbound/opt/_helpers.py"], [("jointree_from_plan, operators_from_plan, parameters_from_plan", "postbound/_hints.py"),
      ("to_query_plan, explode_query_plan, jointree_from_sequence", "postbound/opt/_helpers.py")],
     NOTE + "Extraction of operators and parameters, and building plans from operator assignments, are bounded (runtime search).")

prop("C09", "Pre-checks reject what an optimizer cannot handle",
     "A query or database system passes a combination of pre-checks (compound check, merged checks) if and only if it passes each of the combined checks - for queries and for database "
     "systems, whatever checks are combined, also if checks are considered duplicates of each other - and the reported failures are those of the failing checks; a failed check always raises "
     "the error that belongs to its context. The individual checks decide exactly as documented: cross products (also with tables without predicates), virtual tables, equi-joins (with and without "
     "conjunctions and nesting), inner joins (also in subqueries of the FROM clause), subqueries, dependent subqueries, set operations, implicit FROM clauses and supported hints.",
     ["inputs"], "every combination of checks, every query and database system",
     "tests do not exercise the checks; statements hold for arbitrary checks and all table sources and predicates, proved by structural induction",
     ["postbound/validation.py", "postbound/qal/_qal.py"], [("PreCheckResult, CompoundCheck, merge_checks", "postbound/validation.py"), ("the concrete pre-checks", "postbound/validation.py")],
     NOTE + "Proofs are over assumed observers of queries (tables, predicates, subqueries); merge_checks, failure texts and the cross product, subquery and bound table observers are bounded (runtime search).")

prop("C10", "Pipelines run their stages in order, on supported input only",
     "An optimization pipeline optimizes a query if and only if it has been built for its current stages and database system and the query passes the pre-checks of all of its current "
     "stages (and the additional check of the user); otherwise the documented error is raised. Replacing a stage or the database system requires another build, which succeeds if and only if the "
     "database system passes all checks of the stages. The stages run in their fixed order, each with the original query and exactly the results of the previous stages; missing stages decide nothing; "
     "the results are turned into hints (or a plan) by the target database system. Incremental pipelines apply their steps one after the other. Estimators are prepared before and cleaned up after "
     "each query. Training (on databases, workloads, samples or feedback) reaches exactly the stages that need it and are not yet trained.",
     ["inputs", "history"], "every pipeline with arbitrary stages, pre-checks and database systems, every query",
     "tests run a few fixed pipelines on a live database; the statements are over arbitrary stages and any number of steps, proved against the contracts of the stages",
     ["postbound/_pipelines.py", "postbound/_stages.py"], [("the four optimization pipelines", "postbound/_pipelines.py"), ("as_complete_algorithm", "postbound/_stages.py")],
     NOTE + "Stages, checks and database systems are arbitrary but deterministic; the lifecycle of estimators, missing stages and histories of configuration steps are bounded (runtime search).")

prop("C11", "Predicates know what they join; queries decompose without loss",
     "For every predicate - base predicates on arbitrary expressions and arbitrarily nested AND/OR/NOT - the reported columns, tables, expressions and join partners are exactly those of its parts; "
     "a predicate is a join iff it compares columns of different tables and a filter otherwise; its join partners are normalized, contain every pair of different tables that is directly "
     "compared, and those reported for one table are exactly those which involve it. The predicates of a query decompose into filters and joins (each conjunct in exactly one of both), so that no predicate gets lost: "
     "filters_for / joins_for / joins_between of a table deliver all parts that concern it, the join graph connects tables iff a join does, equivalence classes contain only directly compared "
     "columns. Simplified views of predicates (simple filters, simple joins) hold the same column, operation and value as the original predicate.",
     ["inputs"], "every predicate over all expressions, and every set of predicates of a query",
     "tests use a handful of predicates of benchmark queries; statements are over all nestings, proved by structural induction",
     ["postbound/qal/_qal.py"], [("AbstractPredicate and its subclasses", "postbound/qal/_qal.py"), ("QueryPredicates, SimpleFilter, SimpleJoin", "postbound/qal/_qal.py"), ("SqlExpression and its subclasses", "postbound/qal/_qal.py")],
     NOTE + "Join graphs, equivalence classes, joins_between, simplified filters and the expressions of IN / compound predicates are bounded (runtime search).")
prop("C12", "Clauses can be exchanged without touching the rest of a query",
     "A query consists of exactly the clauses it was built from, and listing its clauses describes it completely: building a query from its clauses again, in any order, yields an equal query of the same type "
     "(implicit, explicit, mixed or a set operation). Adding, replacing or dropping clauses, dropping hints, changing the projection to * or COUNT(*), and adding EXPLAIN change only the clauses in question; "
     "every other clause of the new query is the same as before, and the original query is unchanged. Two clauses, or two queries, are equal if and only if they are of the same kind and say the same in "
     "each of their parts; equality is symmetric and equal ones have the same hash.",
     ["inputs"], "every query with every combination of clauses, and every list of clauses",
     "tests transform a few fixed queries and never compare each kind of clause in each of its parts",
     ["postbound/qal/_qal.py", "postbound/transform.py"], [("build_query", "postbound/qal/_qal.py"), ("SqlQuery, SetQuery and the clauses", "postbound/qal/_qal.py"),
      ("as_star_query, as_count_star_query, as_explain, drop_hints, add_clause, drop_clause, replace_clause", "postbound/transform.py")],
     NOTE + "Retained parts, equality and hashes of each clause and each part of a clause are proved, as are the transformations; set operations, replace_clause, equality of whole queries and of VALUES lists with "
     "column names, and the contents of the generated projections are bounded (runtime search).")

prop("C13", "Expressions and predicates are immutable values",
     "An expression or predicate provides exactly the parts it was built from, its children are exactly these parts, and its columns and tables are the union of those of its parts. Two of them are equal if and "
     "only if they are of the same kind and say the same in each part (values of IN count as a set); equality is symmetric and equal ones have the same hash. Expressions that make no sense are rejected when they "
     "are built: casts without type, DISTINCT or FILTER on functions that are no aggregates, CASE without cases, array accesses without an index or with both index and slice, empty IN lists, unary predicates with "
     "other operators, compounds of too few parts, negations of several. Shorthand constructors and as_expression/as_predicate build what they say. Visitors are called for the kind of the expression with all of "
     "their arguments, collectors find exactly the matching expressions, and neither the lists an expression was built from nor the collections it provides can be used to change it.",
     ["inputs"], "every expression and predicate of every kind, of any nesting and with any arguments",
     "tests build a few expressions by parsing and hardly compare them; the kinds and options of expressions are too many to sample",
     ["postbound/qal/_qal.py"], [("SqlExpression and its subclasses", "postbound/qal/_qal.py"), ("AbstractPredicate and its subclasses", "postbound/qal/_qal.py"),
      ("ExpressionCollector, as_expression, as_predicate", "postbound/qal/_qal.py")],
     NOTE + "Visitor dispatch, collectors, equality of nested expressions across kinds, and immutability are bounded (runtime search).")

prop("C14", "Estimators deliver their estimates for exactly the intermediates",
     "A cardinality estimator estimates each intermediate of a query exactly once: each of its base tables, and each set of its tables that is joined - or any set, if it allows cross products. The estimates "
     "and the parameters derived from them hold for each intermediate what the estimator calculates for it, and nothing else; for a given join order, exactly for its nodes. Precise cardinalities are what "
     "the database counts for the part of the query on these tables, and are counted once if and only if caching is requested. Distorted estimates deviate from the estimates they distort by exactly the requested "
     "factor, or randomly between none and this factor. Pre-computed cardinalities are found as they were saved; missing ones raise the documented error or are taken from the fallback, also after "
     "they have been saved and loaded. Native optimizers deliver the plan, join order, operators, estimates and parameters of the database for the query with the given join order and operators.",
     ["inputs", "history"], "every query, estimator, database system and set of tables",
     "tests need a live database for estimators; the statements are over arbitrary estimators, queries and databases, proved against their contracts",
     ["postbound/_stages.py", "postbound/opt/_cardinalities.py", "postbound/opt/native.py"],
     [("CardinalityEstimator", "postbound/_stages.py"), ("PreciseCardinalities, CardinalityDistortion, PreComputedCardinalities", "postbound/opt/_cardinalities.py"), ("the native stages", "postbound/opt/native.py")],
     NOTE + "Databases and estimators are arbitrary but deterministic; query fragments are the subject of C15; subsets, multiplicities, random distortions, the lifecycle and pre-computed cardinalities are bounded (runtime search).")

prop("C15", "Query fragments, flattening and predicate rewrites keep what they must keep",
     "Flattening a conjunction, making joins explicit through equivalence classes, turning explicit into implicit inner joins, and moving tables into a subquery keep the meaning of a query: a row "
     "satisfies the new WHERE condition exactly if it satisfies the old one. The fragment of a predicate for a set of tables is its largest part that needs no other table, and the fragment of a query "
     "consists of these tables, the fragments of its predicates, and the projections, groupings, orderings and CTEs that need no other tables - or does not exist, if the query lacks one of the tables. "
     "Removing or replacing a predicate affects every occurrence of it in the WHERE and HAVING conditions, and nothing else. Transformations that cannot keep the meaning are refused with the documented error.",
     ["inputs"], "every predicate tree, query and set of tables",
     "tests transform a handful of queries of fixed shape; that conditions keep their meaning is a statement about every nesting and every row",
     ["postbound/transform.py", "postbound/qal/_qal.py"],
     [("flatten_and_predicate, remove_predicate, _perform_predicate_replacement, _get_predicate_fragment", "postbound/transform.py"),
      ("extract_query_fragment, explicit_to_implicit, add_ec_predicates, move_into_subquery, replace_predicate, expand_to_query", "postbound/transform.py"), ("CompoundPredicate.create_and", "postbound/qal/_qal.py")],
     NOTE + "The functions over predicate trees are proved for every interpretation of the base predicates; the functions over whole queries are bounded (runtime search, meaning decided on sampled valuations).")

prop("C16", "Renaming columns or tables affects every reference to them, and nothing else",
     "Renaming columns according to a dictionary replaces each of these columns wherever a query mentions it - in all kinds of expressions, predicates, clauses, table sources, CTEs, nested and combined "
     "queries - by its target, simultaneously, and retains everything else: the kind of query, all other columns, operators, names, hints, limits, settings and options. Renaming tables does the same for "
     "tables and for the columns that belong to them (optionally prefixed by the name of the old table), also if tables swap their names. Merging tables leaves a single reference to the target in the FROM clause.",
     ["inputs"], "every expression, predicate, clause, query and dictionary of renamings",
     "tests rename one table in a few plain queries; a reference can occur in any argument of any kind of expression or clause, and each one can be missed or damaged on its own",
     ["postbound/transform.py", "postbound/qal/_qal.py"],
     [("rename_columns_in_expression, rename_columns_in_predicate, rename_columns_in_clause, rename_columns_in_query, _rename_columns_in_table_source", "postbound/transform.py"),
      ("rename_table, merge_tables, _TableReferenceRenamer", "postbound/transform.py"), ("expression, clause and query constructors and accessors", "postbound/qal/_qal.py")],
     NOTE + "Column renaming is proved as a homomorphism, one level at a time (each constructor is assumed to store its arguments, see C12 and C13); VALUES lists, expressions of three or more operands, and the renaming and merging of tables are bounded (runtime search against a deep structural oracle).")

prop("C17", "Hint blocks state exactly the decisions of the optimizer",
     "The hints generated for a database system add a hint block to the query and change nothing else (EXPLAIN and LIMIT may be written in the dialect of the system). The block nests the tables exactly like the "
     "join order, outer side first; states for each assigned scan, join and (if supported) intermediate operator this operator with exactly its tables, for each global operator setting its state, for each valid cardinality its "
     "value, and each system setting with its value - and nothing that was not decided; unknown and infinite cardinalities are not stated. Parallel workers are stated at most once, for a single decision. "
     "A whole plan is hinted like its join order, operators and parameters; requesting a plan along with individual decisions is refused on Postgres and DuckDB, and what a system cannot express raises the documented error.",
     ["inputs"], "every query, plan, join order, operator assignment and parameterization, for Postgres (pg_hint_plan, pg_lab), DuckDB and MySQL",
     "tests need a running database with hinting extensions; a lost, repeated or swapped hint silently changes the plan that is executed",
     ["postbound/postgres.py", "postbound/duckdb.py", "postbound/mysql.py"],
     [("PostgresHintService.generate_hints, _walk_join_order, _extract_plan_join_order", "postbound/postgres.py"), ("DuckDBHintService, HintParts", "postbound/duckdb.py"), ("MysqlHintService", "postbound/mysql.py")],
     NOTE + "Join orders, the choice of what is hinted and the merging of hint parts are proved; the text of whole hint blocks is bounded (runtime search, blocks are read back and compared to the decisions).")

prop("C18", "Parsing and formatting retain the meaning of SQL queries",
     "A query that is parsed from SQL text means exactly what the text means: its own text (and its formatted text, in every flavor, with or without inlined hints) has the parse tree that Postgres builds for the original "
     "text, up to notations that mean the same. Each name refers to the table that the scoping rules of SQL choose: aliases hide names, inner scopes hide outer ones, and an unqualified column is bound to the first table "
     "in scope that provides it according to the schema of the database at hand. The tables of the query are the relations of the text. Hint blocks, SET statements and EXPLAIN options are retained, and parsing the text of "
     "a query again yields the same text. What the representation of queries cannot express is rejected with an error, never silently dropped.",
     ["inputs", "history"], "every statement of the supported SQL, every database schema and every sequence of parsed queries",
     "tests parse a few dozen fixed queries; a lost clause, bracket or cast silently changes the query that all optimizers and benchmarks work on",
     ["postbound/parser.py", "postbound/qal/_qal.py", "postbound/qal/_formatter.py"],
     [("parse_query, QueryNamespace, SchemaCache", "postbound/parser.py"), ("__str__ of queries, clauses, predicates and expressions", "postbound/qal/_qal.py"), ("format_quick", "postbound/qal/_formatter.py")],
     NOTE + "The scopes of names (QueryNamespace) and the cache of schemas are proved; whole statements are bounded (runtime search over an own grammar, compared by means of the parser of Postgres).")

prop("C19", "Enumerated and sampled join orders and operators are exactly the valid ones",
     "For a query whose tables are connected by joins, the exhaustive enumeration of join orders provides every join tree of the chosen structure (bushy, left-deep, right-deep) that contains each table of the query once and "
     "has no cross product, each exactly once; the exhaustive enumeration of operators provides every assignment of usable operators to all scans and joins of the query exactly once, and the exhaustive enumeration of plans all of their "
     "combinations. Random generators and optimizers only provide such join orders, assignments and plans, reach each join order eventually, join the requested base table first and never repeat themselves if duplicates are to be "
     "eliminated. Usable operators are the requested ones (all, if none are requested) that the database system supports. Queries with cross products are rejected, also if a table is not mentioned by any predicate.",
     ["inputs"], "every query over base tables, tree structure, choice of operators and database system",
     "tests compare the number of plans of single queries or need a database; a missing, repeated or invalid candidate biases every experiment that relies on exhaustive or uniform plans",
     ["postbound/opt/enumeration.py", "postbound/opt/randomized.py", "postbound/util/nx.py"],
     [("ExhaustiveJoinOrderEnumerator, ExhaustiveOperatorEnumerator, ExhaustivePlanEnumerator", "postbound/opt/enumeration.py"),
      ("RandomJoinOrderGenerator, RandomOperatorGenerator, RandomPlanGenerator", "postbound/opt/randomized.py"), ("nx_frontier_walks, nx_random_walk", "postbound/util/nx.py")],
     NOTE + "The choice of usable operators and the combination of join trees are proved; the generators (graph contraction by networkx, itertools.product, random) are bounded: compared with brute force over queries of up to 5 tables.")

prop("C20", "The join graph offers exactly the joins that are possible next",
     "The join graph of a query contains its tables, an edge for each pair of tables that is joined by binary predicates (with implied equalities, also those pairs whose columns are equal by transitivity) annotated with all of these "
     "predicates, and the index of each join column according to the schema. Initially all joins are available, later exactly those between a joined and a free table, starting at the joined one. A join is a pk/fk join if for "
     "one of its pairs of columns both have a usable index, the one of the referenced table a primary key; it is n:m if this holds in neither direction. Searching pk/fk joins in depth provides each table once, after the table that "
     "references it and in the demanded order. Marking a table as joined changes the state of this table only and invalidates exactly the indexes that are no longer usable, no matter in which order its join partners are considered: "
     "of the joined columns of a referenced partner if the table references it, otherwise of the table, of all other joined tables and, for n:m joins, of the joined columns. Clones are independent; the components of the graph are its connected parts.",
     ["inputs", "history"], "every query with binary join predicates, every schema and every sequence in which tables are joined",
     "no test covers the join graph; UES and other heuristics choose joins by it, so that a wrong edge, state or index silently leads to other plans",
     ["postbound/opt/_joingraph.py", "postbound/util/nx.py"],
     [("JoinGraph", "postbound/opt/_joingraph.py"), ("JoinPath, IndexInfo", "postbound/opt/_joingraph.py"), ("nx_bfs_tree", "postbound/util/nx.py")],
     NOTE + "Join paths, index information and the choice of n:m joins are proved; the state of the graph (networkx) is bounded: compared with a model of query, schema and joined tables for queries of up to 5 tables.")

prop("C21", "Dynamic programming finds a cheapest plan of the operators that are allowed",
     "For each query whose tables are connected by joins, the dynamic programming enumerators provide a plan that scans each table of the query once (with all of its filters, by an index only if it covers a column that is required, "
     "index-only if it covers all of them) and joins them without cross products by all predicates between both sides, using only operators that are requested (all, if none are requested) and supported by the database. Estimates are those of "
     "the given models, which are prepared before and cleaned up afterwards. No other plan is cheaper - for the Postgres strategy including merge joins that exploit sort orders, explicit sorts, materialization and memoization as far as these "
     "are enabled; up to 1% per step are accepted for better sort orders. A path is only dropped in favor of another one that is kept and at least as good in cost and sort order. A relation is sorted by each member of the equivalence class of its sort key.",
     ["inputs"], "every select-project-join query, schema, choice of operators and (additive) cost model",
     "no test runs the enumerators (they need a database); an overlooked plan or a wrongly pruned path silently makes each experiment with an own cost model or estimator worse than it should be",
     ["postbound/opt/dynprog.py", "postbound/_qep.py"],
     [("DynamicProgrammingEnumerator, PostgresDynProg", "postbound/opt/dynprog.py"), ("standard_add_path, RelOptInfo", "postbound/opt/dynprog.py"), ("SortKey", "postbound/_qep.py")],
     NOTE + "Sort keys, sort orders, the choice of operators and the pruning of paths are proved; whole plans are bounded: compared with brute force for queries of up to 4 tables and additive costs.")

prop("C22", "Workloads keep each query under its label, whatever they are combined with",
     "A workload is a map from labels to queries: labels, queries, entries, head and lookups (by label or by query) always describe the same queries in the same order, which is the natural order of the labels unless the workload was shuffled. "
     "Selections (first, last, random, by label, prefix or predicate), relabelling, transformations, shuffling, sums, differences, intersections and unions provide exactly the queries they promise, under the promised labels, and never "
     "change the workloads they start from; on conflicts, the first workload has precedence. Readers provide one query per file, line or row under its label - with prefixes for subdirectories - and leave out broken files if this is requested. "
     "No query is lost or filed under the label of another one, even if a query occurs multiple times.",
     ["inputs"], "every workload, label, selection and directory of query files",
     "tests only load complete benchmarks if they are installed; a query under a wrong label silently corrupts all results that are recorded for the workload",
     ["postbound/workloads.py", "postbound/util/dicts.py"],
     [("Workload", "postbound/workloads.py"), ("read_workload, read_batch_workload, read_csv_workload, generate_workload", "postbound/workloads.py"), ("difference, intersection, merge, invert", "postbound/util/dicts.py")],
     "Proved for all dictionaries: difference, intersection, update, inversion and unique entries. Bounded (not proved): the methods of Workload (a subclass of UserDict, outside of the verifier's subset) and the readers (files, pandas), "
     "whose contracts are executed on generated workloads of at most 6 queries and compared with a dictionary; queries are parsed by the real parser.", level="exploration")
