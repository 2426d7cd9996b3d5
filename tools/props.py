"""The properties and, where a check exists, how it decides them."""
PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique, level, note, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=["postbound/" + f for f in files],
                      mech=[(n, "postbound/" + w) for n, w in mech], technique=technique, level=level, note=note, **kw))


P("P01", "Parsing a query and formatting it again preserves its meaning",
  "For every SQL query that is accepted, both its plain text form and its pretty-printed forms (standard and Postgres flavour) are valid SQL that means exactly what the input meant: same operations, grouping, clauses, constants, row limits and hint block. "
  "A construct that cannot be represented is rejected instead of being dropped or altered. Parsing the text form again yields a query that is equal to, and formats like, the first one.",
  ["inputs"], "all SQL texts of the supported grammar (expressions, predicates, joins, clauses, set operations, CTEs, nesting), all three output styles",
  "The tests compare a handful of benchmark queries (or need a database); a wrong bracket, a dropped modifier or a swapped clause in some construct combination is never sampled.",
  ["parser.py", "qal/_qal.py", "qal/_formatter.py"],
  [("parser from pglast AST", "parser.py"), ("bracket rules and text forms of all query elements", "qal/_qal.py"), ("pretty printer", "qal/_formatter.py:format_quick")],
  "exhaustive enumeration of bounded SQL grammars on the real parser and formatter, judged by PostgreSQL's own grammar as reference model",
  "exploration", "Complete within the stated grammars (depth 2 nesting of every expression/predicate form, all clause products); trusts pglast as reading of SQL.")

P("P02", "Column references are bound to the tables that SQL scoping rules select",
  "After parsing, every column reference belongs to exactly the table that PostgreSQL's scoping rules choose for it: qualified names by the innermost visible alias, unqualified names through the catalog, with CTEs shadowing base tables, subqueries seeing outer tables only where SQL lets them. "
  "A reference that no visible table can supply is reported as an error or left unbound, never bound to some other table.",
  ["inputs", "programs"], "all scope nests up to the bound (aliases re-used at several levels, CTE shadowing, lateral, correlated subqueries, set operations) and all catalogs over them",
  "Tests bind a few queries with one flat scope; shadowing and nesting combinations are combinatorial.",
  ["parser.py"], [("query namespaces", "parser.py:QueryNamespace"), ("column lookup", "parser.py:lookup_column")],
  "exhaustive enumeration of scope nests, compared against an independent resolver that follows SQL scoping rules",
  "exploration", "Complete for the stated scope shapes.")

P("P03", "Query introspection reports every table, column, predicate and subquery",
  "The tables, columns, predicates, subqueries, output columns and other components which a query (or any part of it) reports are exactly the ones that occur in it, no matter in which clause or nested construct they occur, and reporting them twice gives the same answer. "
  "Changing a returned collection does not change what the query reports later.",
  ["inputs"], "every expression/predicate/clause kind at every position in which SQL allows it",
  "Tests look at a few flat queries; a construct whose traversal forgets one of its operands is only visible for that construct at that position.",
  ["qal/_qal.py"], [("tables/columns/predicates/iterexpressions of all query elements", "qal/_qal.py")],
  "exhaustive enumeration of construct x position, compared against an independent walk over PostgreSQL's AST",
  "exploration", "Complete for the stated constructs and positions.")

P("P04", "Join and filter predicates are classified soundly and completely",
  "For every query, the predicates that are reported as filters of a table and as joins between tables together contain every conjunct of the query exactly once, and each is attributed to exactly the tables it mentions. "
  "Join lookups between two (sets of) tables and the join graph agree with this classification.",
  ["inputs"], "all predicate trees up to the bound over up to four tables, all pairs of table sets",
  "The tests use conjunctive equi-join benchmark queries only; disjunctions, negations and multi-table predicates are combinatorial.",
  ["qal/_qal.py", "opt/_joingraph.py"], [("predicate views", "qal/_qal.py:QueryPredicates"), ("join detection", "qal/_qal.py:AbstractPredicate.is_join")],
  "exhaustive enumeration of predicate trees, compared against a reference classification computed from the AST",
  "exploration", "Complete for the stated predicate trees.")

P("P05", "Equality of query elements, join trees and plans is a congruence with hashing",
  "Equality is reflexive, symmetric, transitive and consistent with inequality, two objects that compare equal have equal hashes, objects that are built again from the same input are equal, and objects that denote different queries, query elements, tables, columns, join trees or plans compare unequal (materialization of CTEs and letter case of identifiers are documented to be ignored). "
  "Objects built in a different order of equivalent unordered parts compare equal where the documentation says the order does not matter.",
  ["inputs"], "all pairs of objects of the bounded grammars of queries, expressions, predicates, clauses, join trees, plans, operators, parameters and cardinalities",
  "Tests compare few objects; the law is about all pairs.",
  ["qal/_qal.py", "_core.py", "_qep.py", "_hints.py"], [("__eq__/__hash__ of query elements", "qal/_qal.py"), ("plan equality", "_qep.py"), ("join tree and hint equality", "_hints.py")],
  "exhaustive pairwise comparison of all objects of bounded grammars on the real classes",
  "exploration", "Complete for all pairs within the stated object sets.")

P("P06", "Query transformations preserve the meaning they promise to preserve",
  "Rewriting a query (counting variant, star variant, EXPLAIN variant, explicit to implicit joins, moving to a subquery, flattening, predicate and clause addition/removal, renaming and replacing tables or columns, extracting a fragment, adding equivalence-class predicates) yields a query whose result is the one that the documentation of the rewrite promises, on every database. "
  "Parts of the query that the rewrite does not talk about are retained.",
  ["inputs", "programs"], "all queries of the bounded grammar x all rewrites x all databases with up to two rows per table over a small domain including NULL",
  "Tests check text of a few queries; semantic equivalence over all databases and all clause combinations is out of their reach.",
  ["transform.py"], [("query rewriting", "transform.py")],
  "exhaustive enumeration of queries, rewrites and small databases; results compared by executing both queries in an embedded database engine",
  "exploration", "Complete for the stated grammars and databases; trusts DuckDB/SQLite as executor.")

P("P07", "Join order enumeration is exhaustive, duplicate-free and valid",
  "The exhaustive enumerators produce exactly the valid join orders (bushy, or linear where requested; without cross products for connected queries), operator assignments and complete plans for a query: each one once, and nothing else.",
  ["inputs", "configurations"], "all join graphs with up to five tables (including disconnected ones), all tree shapes, all enabled operator sets",
  "Tests run one benchmark query and check membership; completeness and absence of duplicates over all graphs cannot be sampled.",
  ["opt/enumeration.py", "opt/_joingraph.py"], [("enumerators", "opt/enumeration.py"), ("join graph", "opt/_joingraph.py:JoinGraph")],
  "exhaustive exploration of all join graphs up to the bound; produced set compared with an independent brute-force enumeration",
  "model_checking", "Complete for all labelled graphs up to the bound.")

P("P08", "Dynamic programming finds a plan of minimal cost",
  "Given any cost model and cardinality estimator, the dynamic-programming optimizer returns a complete, valid plan for the query whose cost is minimal among all plans of its search space, and it says so when no plan exists.",
  ["inputs", "configurations"], "all join graphs up to four tables, all cost assignments from a small set that make any candidate the unique optimum, all enabled operator subsets and enumeration settings",
  "Tests cannot tell an optimal plan from a plausible one; the optimum depends on the interplay of all candidates.",
  ["opt/dynprog.py"], [("dynamic programming enumerator", "opt/dynprog.py:DynamicProgrammingEnumerator")],
  "exhaustive enumeration of graphs, operator sets, index sets and target plans with adversarial cost functions; the plan of the real enumerators is validated and its cost compared with the exact minimum of an explicitly defined search space",
  "model_checking", "Complete within bounds.")

P("P09", "Randomised generators produce only valid plans and can produce every valid plan",
  "For every sequence of random choices, the random join order, operator and plan generators (and the optimizers based on them) yield a valid result for the query without getting stuck, and for every valid result there is a sequence of choices that yields it.",
  ["schedules", "inputs"], "all outcomes of the random number source (explored as a choice tree) x all join graphs up to four tables x all tree shapes and operator restrictions",
  "Tests draw a few samples; the law is about all choice sequences and about reachability of all plans.",
  ["opt/randomized.py"], [("random generators", "opt/randomized.py")],
  "stateless model checking: the random source is replaced by a controlled scheduler and the tree of all choice sequences is explored",
  "model_checking", "Complete choice trees within bounds.")

P("P10", "Plans, join trees and hints convert into each other without loss",
  "Extracting join order, operators, parameters or cardinalities from a plan, rebuilding a plan from them, storing them as JSON and loading them again, and navigating or rewriting trees retains the structure, tables, operators, estimates and measurements of every node.",
  ["inputs", "histories"], "all plan and join tree shapes up to four tables with all node kinds, all assignments of optional node data, all sequences of edits up to the bound",
  "Tests use one or two trees; losing an attribute in one node kind or one tree position is never sampled.",
  ["_qep.py", "_hints.py", "_core.py", "opt/_helpers.py"], [("plan nodes", "_qep.py:QueryPlan"), ("join trees and hints", "_hints.py")],
  "exhaustive enumeration of trees and edit sequences on the real classes against a reference model of plain nested tuples/dicts",
  "model_checking", "Complete within bounds.")

P("P11", "Generated hints tell the database exactly the requested optimizer decisions",
  "The hints generated for a join order, operator assignment, parameters and cardinalities (or a complete plan) express all of these decisions and nothing else in the hint dialect of the target system, refer to tables by the names used in the query, and leave the query itself unchanged apart from the documented rewrites. "
  "Decisions that a system cannot express are reported instead of being dropped silently. "
  "Whichever way such a query is executed, timed, explained or analyzed, the system receives first all of its settings and then exactly this query with exactly these hints in its own dialect.",
  ["inputs", "configurations"], "all join trees up to four tables x operator/parameter/cardinality assignments x hint backends",
  "Tests compare a few hint strings or need a live server; the mapping must be right for every tree shape and operator.",
  ["postgres.py", "mysql.py", "duckdb.py"], [("Postgres hint generation", "postgres.py:PostgresHintService"), ("MySQL hints", "mysql.py"), ("DuckDB hints", "duckdb.py")],
  "exhaustive enumeration of optimizer decisions; the produced hint text is read back by an independent reader of the hint dialect, and (DuckDB) by the engine itself",
  "exploration", "Complete within bounds; hint dialect semantics taken from pg_hint_plan/pg_lab/MySQL documentation.")

P("P12", "Optimization pipelines apply exactly the stages that were configured",
  "For every order of configuring, re-configuring, building and using a pipeline, optimizing a query uses the most recently configured stages, in the documented order, each once, passes every stage the decisions of its predecessors, and the resulting hints contain exactly the stages' decisions. "
  "Using a pipeline that is not ready, or a query or database that a stage does not support, is reported and never yields a plan; failures in a stage leave the pipeline usable.",
  ["histories", "fault_sequences", "configurations"], "all sequences of pipeline operations up to the bound, with every stage failing or rejecting at every point",
  "Tests run one happy path per pipeline.",
  ["_pipelines.py", "_stages.py", "validation.py"], [("pipelines", "_pipelines.py"), ("pre-checks", "validation.py")],
  "explicit-state exploration of all operation sequences on the real pipelines in lock-step with a reference state machine",
  "model_checking", "Complete within the stated depth.")

P("P13", "Pre-checks accept a query exactly if their requirement is met",
  "Each pre-check passes a query or database system exactly when the requirement it stands for holds, an assembled check passes exactly when all of its parts pass, the reasons it reports are those of the failing parts, and asking never fails or alters the check.",
  ["inputs", "configurations"], "all queries of the bounded grammar x all checks and combinations of up to three checks",
  "Tests hardly touch pre-checks; the verdict must hold for every query.",
  ["validation.py"], [("optimization pre-checks", "validation.py")],
  "exhaustive enumeration of queries and check combinations against independently computed requirement values",
  "exploration", "Complete within bounds.")

P("P14", "Workloads behave like the mapping of labels to queries they were built from",
  "For every sequence of workload operations (filtering, slicing, set operations, shuffling, relabelling, access to their parts) the resulting workload has exactly the labelled queries that the operation's description yields, keeps its order, and leaves its source workloads unchanged. "
  "Reading a workload from a directory, a batch file or CSV retains every query under the label its description promises, unparseable files are treated as configured, and obtaining a predefined workload succeeds after any earlier attempt was interrupted.",
  ["histories", "inputs", "crash_points"], "all operation sequences up to the bound over all small workloads",
  "Tests check a few operations on JOB; sequences and corner cases (empty, shared labels, duplicate queries) are combinatorial.",
  ["workloads.py"], [("workload container", "workloads.py:Workload"), ("readers", "workloads.py:read_workload")],
  "explicit-state exploration of all operation sequences on the real container in lock-step with an ordered dictionary model",
  "model_checking", "Complete within the stated depth.")

P("P15", "Benchmark runs execute every query the requested number of times and record it",
  "Executing a workload runs each query the requested number of times in the requested order and records exactly one result row per execution with its label, repetition, result and error state, whatever queries fail, time out or are interrupted. "
  "Failures follow the configured policy (raise, log, ignore): a logged failure gets its own row with its status, an ignored one leaves none. With progressive output, the rows of all executions that ended before a run is aborted or interrupted are in the file, complete and unchanged; callbacks and online training see each recorded execution once, with its own result.",
  ["crash_points", "fault_sequences", "configurations"], "all combinations of options and all placements of failures and crashes up to the bound",
  "Tests run a happy path; placement of faults and crashes is combinatorial.",
  ["bench.py"], [("benchmark runner", "bench.py:execute_workload")],
  "exhaustive fault and crash-point enumeration on the real runner with a scripted database",
  "fault_enumeration", "Complete within bounds.")

P("P16", "Cardinalities obey arithmetic and ordering laws",
  "Cardinalities (valid, unknown and infinite) follow the arithmetic and order of the numbers they stand for, unknown values stay unknown, comparisons are consistent among each other and with equality and hashing, and conversions to numbers and JSON and back retain the value.",
  ["inputs"], "all pairs and triples of values from a set of boundary values, all operators with cardinalities and plain numbers on both sides",
  "Tests hardly touch the type; the laws are about all operand combinations.",
  ["_core.py"], [("cardinality type", "_core.py:Cardinality")],
  "exhaustive enumeration of operand triples against exact rational arithmetic",
  "exploration", "Complete over the boundary value set.")

P("P17", "Cardinality estimators report the right value for each intermediate",
  "A cardinality estimator that is backed by the database, by stored values, or by distorting another estimator reports for each intermediate of a query exactly the value its source defines, independent of the order in which estimates are requested and of what was asked or cached before. "
  "Missing values are treated as configured.",
  ["histories", "inputs", "fault_sequences"], "all request sequences up to the bound, all intermediates of small queries, all cache states including files left by a crash",
  "Tests make single requests.",
  ["opt/_cardinalities.py"], [("cardinality estimators", "opt/_cardinalities.py")],
  "explicit-state exploration of all request histories on the real estimators with an embedded database and a reference table of true values",
  "model_checking", "Complete within bounds.")

P("P18", "Relational algebra trees mean the same as their query",
  "Translating a query without explicit JOIN syntax into relational algebra yields a tree whose evaluation produces the result of the query on every database: filters, joins, cross products, correlated and uncorrelated subqueries (EXISTS, IN, scalar) in any combination of AND, OR and NOT, groupings with HAVING, orderings, derived tables, common table expressions (also several times and under aliases) and set operations. "
  "DISTINCT and LIMIT are documented to be left out. Every node knows its parent and its other consumers. Mutating a node copies the whole tree, changes exactly the requested attributes of that node, and leaves the original tree untouched.",
  ["inputs", "programs"], "all queries of the bounded grammar (up to three predicates, all clause combinations) x databases with duplicates, NULLs and empty tables; every mutation of every node of the resulting trees",
  "Tests only check that few queries translate without an exception; they never evaluate a tree.",
  ["relalg.py"], [("translation", "relalg.py:parse_relalg"), ("mutation", "relalg.py:RelNode.mutate")],
  "exhaustive enumeration of queries and databases; the algebra tree is evaluated by a reference interpreter and compared with an embedded database engine",
  "exploration", "Complete within bounds. SQLite evaluates the queries.")

P("P19", "Pessimistic join ordering: complete orders, valid bounds",
  "For every conjunctive equi-join query, the pessimistic (UES) algorithm ends with a join order that contains every table exactly once, joins only inputs that a predicate connects (cross products only between the components of the query), and carries a bound at every join; for two tables and for primary-key stars this bound is never smaller than the true result size on any database that matches the statistics. The join graph it works on reports at every point of a join sequence exactly the free tables, the available joins and their kinds (key/foreign key or n:m), and clones are independent.",
  ["inputs", "histories"], "all join graphs with all kinds of edges up to the bound x orderings of the statistics; all small databases; all sequences in which tables can be joined",
  "Tests need a live server and check neither bounds nor orders.",
  ["opt/ues.py", "opt/_joingraph.py"], [("pessimistic bounds and join ordering", "opt/ues.py:UESJoinOrderOptimizer"), ("join graph", "opt/_joingraph.py:JoinGraph")],
  "exhaustive enumeration of typed join graphs, statistics and small databases against brute-force result sizes; explicit-state exploration of join sequences against a reference model",
  "exploration", "Complete within bounds.")

P("P26", "Learned recommendations follow from the recorded costs",
  "After any sequence of observed plans, the operator recommendation (TONIC) for a query and join order names, for each join at which at least two operators were observed in the same context (same inputs joined in the same order, and, if requested, the same filters), the operator with the smallest accumulated discounted cost, and nothing else; operators without observations are reported as unknown; saving and loading a model changes nothing; exploration measures every permitted combination of operators once, at the true cardinalities.",
  ["histories", "inputs"], "all observation sequences up to the bound over queries, tree shapes, operators and plans with auxiliary nodes; all outcomes of the random choices of a limited exploration",
  "There are no tests of this module.",
  ["opt/tonic.py"], [("learned operator selection", "opt/tonic.py:TonicOperatorSelection")],
  "explicit-state exploration of observation histories on the real implementation in lock-step with a reference model; controlled random choices",
  "model_checking", "Complete within bounds.")

P("P20", "Cached and emulated database answers equal fresh answers",
  "Whatever queries were issued before, and whichever caching or emulation mode is active, the result of a query, the schema lookups and the emulated statistics equal what the database itself would answer for the current data; answers from the cache survive a restart or are recomputed, never corrupted.",
  ["histories", "crash_points", "configurations"], "all sequences of statements, cache toggles, resets and crashes up to the bound on an embedded database",
  "Tests need a live server and issue single queries.",
  ["db/_db.py", "duckdb.py"], [("query cache", "db/_db.py:Database"), ("statistics emulation", "db/_db.py:DatabaseStatistics"), ("DuckDB interface", "duckdb.py")],
  "explicit-state exploration of all operation sequences on the real interface with an embedded database, in lock-step with direct answers",
  "model_checking", "Complete within the stated depth.")

P("P21", "Database plans are imported faithfully",
  "Importing the plan that a database system reports yields a plan with the same tree, operators, tables, conditions (where the system reports them per node), estimates, measurements and worker counts, whatever node kinds it is composed of.",
  ["inputs"], "all plan trees up to the bound from all known node kinds and option fields",
  "Tests need a live server and inspect a few plans.",
  ["postgres.py", "duckdb.py", "mysql.py"], [("plan import", "postgres.py:PostgresExplainPlan"), ("plan import", "duckdb.py")],
  "exhaustive enumeration of plan documents, compared against an independent reading of the documents",
  "exploration", "Complete within bounds.")

P("P22", "Generated benchmark queries fulfil the request",
  "For every sequence of random choices, the random query generator only produces valid queries over the requested numbers of distinct, not ignored tables that are connected by foreign key joins, with the requested number of filters on permitted columns, each comparing its column with a value that occurs in it. For every sequence of random choices, template-based generation yields the template with each placeholder replaced by a properly escaped candidate value of its predicate that is consistent with the values it depends on, IN lists have the requested sizes, every candidate can be selected with the requested probability, and workloads contain the requested number of distinct queries under the documented labels (or fail with a sampling error).",
  ["schedules", "configurations"], "all outcomes of the random source x all generator settings on small schemas; templates for every documented feature",
  "Tests cannot sample all choices; there are no tests of these modules.",
  ["experiments/querygen.py", "experiments/ceb.py"], [("random query generation", "experiments/querygen.py"), ("template-based generation", "experiments/ceb.py")],
  "stateless model checking: the random sources (random, numpy) are controlled schedulers; the tree of choices of the real generators is explored, each result judged by an independent specification and an embedded engine",
  "model_checking", "Complete choice trees for templates; for random queries all sequences within a bound on deviations from the default choice.")

P("P23", "Training data never loses, mixes up or mislabels samples",
  "For every sequence of loading, conforming, merging, registering and retrieving training data, each dataset contains exactly the samples of its sources in their order, reports every value under the right feature and exactly the requested features in the requested order, and missing features are reported instead of being ignored. Operations alter neither their source datasets nor the data frames of the caller.",
  ["histories"], "all operation sequences up to the bound over datasets with renamed, swapped, shared, reordered and missing features",
  "There are no tests of this module; mix-ups only show for certain combinations of column names and orders.",
  ["train/_train.py"], [("training data", "train/_train.py")],
  "explicit-state exploration of all operation sequences on the real classes in lock-step with lists of dictionaries",
  "model_checking", "Complete within bounds.")

P("P24", "Utility containers and graph helpers implement their abstract data type",
  "Queues, immutable and dynamic dictionaries, collection helpers, graph walks and JSON conversion behave for every sequence of operations and every input like the mathematical objects they are documented to be.",
  ["histories", "inputs"], "all operation sequences up to the bound and all small inputs (all graphs up to four nodes)",
  "Tests sample few inputs.",
  ["util/collections.py", "util/dicts.py", "util/nx.py", "util/jsonize.py", "util/stats.py"], [("containers", "util/collections.py"), ("graph walks", "util/nx.py"), ("JSON", "util/jsonize.py")],
  "explicit-state exploration of all operation sequences and inputs up to the bound against reference models",
  "model_checking", "Complete within bounds.")

P("P25", "Query timeouts end a query and leave the system usable",
  "A query that is executed with a time limit either returns its result or reports that it timed out, never both and never hangs, whichever way the worker finishes, fails or is delayed, and later queries are not affected.",
  ["schedules", "fault_sequences"], "all interleavings of completion, failure, and expiry in the timeout machinery",
  "Tests need a live server and see one interleaving.",
  ["postgres.py", "duckdb.py"], [("timeout executor", "postgres.py:TimeoutQueryExecutor"), ("timeouts", "duckdb.py")],
  "exhaustive exploration of interleavings of the real executor with a scripted connection",
  "model_checking", "Complete within bounds.")

P("P27", "Queries built through constructors and factories are the queries they describe",
  "A query element, clause or query that is put together by calling constructors, factory methods or build_query denotes exactly what the arguments of these calls describe, for every combination and order of calls: the same operators, operands, modifiers and clauses, nothing dropped, swapped or regrouped. "
  "A query that is rebuilt from its own clauses (possibly leaving some out) is the same query (without them), and combinations that cannot be represented are rejected. Elements that are exported to JSON and loaded again are the same elements.",
  ["inputs", "configurations"], "all compositions of constructors and factories up to the stated depth, all pairs of clauses, all subsets of clauses, all argument styles of the factories",
  "The tests only build a few elements; dropped or swapped arguments of other factories and lost brackets of nested elements stay invisible.",
  ["qal/_qal.py", "parser.py"], [("constructors and factories", "qal/_qal.py:as_predicate"), ("query construction", "qal/_qal.py:build_query"), ("JSON loaders", "parser.py:load_predicate_json")],
  "exhaustive enumeration of compositions of real constructors, each compared with an independently written SQL description through PostgreSQL's own grammar",
  "exploration", "Complete within the stated depth (two levels of nesting).")

P("P28", "Analyses of plans and join trees report what they are defined to report",
  "The comparison of two query plans lists every difference of structure, join direction, operator, cardinality or cost exactly once and at the right node, and nothing for equal plans. "
  "Join depths, similarities and edit distances of join trees equal their definitions, the bound on the number of plans is never below the actual number, the cardinality of a star query that is computed by hand equals the number of its result rows, "
  "the true cost of a plan is the cost of exactly this plan with its actual cardinalities, and a side-by-side comparison of texts contains every line of both.",
  ["inputs"], "all pairs of join trees and plans up to the bound with every single (and every pair of) change(s), all small star schema instances",
  "There are no tests of this module.",
  ["opt/_analysis.py"], [("plan comparison", "opt/_analysis.py:compare_query_plans"), ("star queries", "opt/_analysis.py:star_query_cardinality")],
  "exhaustive enumeration of bounded trees, plans and data sets on the real functions against independent reference definitions and an embedded engine",
  "exploration", "Complete within bounds; the top-down similarity has no documented definition and is only required to be symmetric and maximal for equal trees.")

P("P29", "Native stages hand on exactly the decisions of the database",
  "The native stages ask the target database exactly for the decision they are responsible for (the given query, or precisely its part over the tables of an intermediate, with precisely the decisions or the plan that were given) and hand on the answer unchanged. "
  "The native cost of a plan is the cost that the database states for exactly this (sub-)plan, also for operators that cannot be at the top of a plan; if the database does not provide this plan, the cost is infinite or an error is raised, as configured. "
  "Empty stages make no decisions and loading pre-defined settings installs exactly their stages.",
  ["inputs", "fault_sequences", "configurations"], "all plans over connected parts of all small queries, all kinds of root operators, all ways in which the server can answer or fail, all histories of loading settings",
  "Tests need a live server; there is no test of these stages.",
  ["opt/native.py", "opt/noopt.py", "opt/presets.py", "_pipelines.py"], [("native costs", "opt/native.py:NativeCostModel"), ("native stages", "opt/native.py:NativePhysicalOperatorSelection"), ("presets", "opt/presets.py:fetch")],
  "exhaustive exploration of the real stages against a scripted database server with an independent definition of requests and answers",
  "model_checking", "Complete within bounds; the conformance of the scripted server with a live one is assumed.")

P("P30", "Settings, sessions and data shifts are exactly what was asked for",
  "For every sequence of operations, a server configuration (PostgresSetting, PostgresConfiguration) behaves like an ordered mapping from parameters to values whose text is the SQL that sets exactly them, and older configurations remain unchanged. "
  "Applying it changes exactly those of its settings that can be changed at runtime and warns about the others; reading the current configuration reports exactly the settings that influence performance. "
  "For every sequence of connecting, closing, losing and resetting connections, the database pool contains exactly the registered systems and each of them has a usable session with the requested details, from whichever source (argument, file of any format, environment) they come; an embedded DuckDB connection keeps committed data and drops pending changes whenever it is reset, closed or connected again, and stays usable after errors and timeouts. "
  "Infinite and too large dates survive the way to the client and back; warming up or cooling down addresses exactly the requested tables and indexes; data shifts remove exactly the requested rows.",
  ["inputs", "histories", "configurations"], "all sequences of operations on configurations, connections and marker tables, all subsets of settings, all sources of connection details, all data shifts on small tables",
  "These parts need a live server in the tests; their interplay over several operations is not tested at all.",
  ["postgres.py", "db/_db.py"], [("configurations", "postgres.py:PostgresConfiguration"), ("connections", "postgres.py:connect"), ("pool", "db/_db.py:DatabasePool"), ("data shifts", "postgres.py:WorkloadShifter")],
  "exhaustive exploration of operation sequences on the real classes in lockstep with reference models, against a scripted server (psycopg.connect is replaced) and an embedded engine for data shifts",
  "model_checking", "Complete within bounds; the settings of Postgres 16 are taken from its manual; YAML files are left out (no YAML parser is installed).")
P("P31", "Catalog lookups report the schema as it is declared",
  "On Postgres, MySQL and systems with standard-conforming catalogs, each lookup in the schema (tables, columns in their order, views, primary keys, secondary indexes, index names, indexed columns, foreign keys and their targets, the columns that are joinable through foreign keys, data types, nullability, the table that provides a column) "
  "reports exactly what has been declared for this table: tables of the same name in other schemas, compound indexes and keys, constraints of the same name, and previous requests do not change an answer, "
  "and row counts and numbers of distinct values that are stored in the catalogs are those of the requested table and column.",
  ["inputs", "configurations", "histories"], "every combination of keys, indexes, constraints and equally named tables in two schemas, asked on three kinds of systems",
  "The tests need a live server with one fixed schema for these lookups.",
  ["postgres.py", "mysql.py", "db/_db.py"], [("Postgres catalogs", "postgres.py:PostgresSchemaInterface"), ("MySQL catalogs", "mysql.py:MysqlSchemaInterface"), ("standard catalogs", "db/_db.py:DatabaseSchema"), ("MySQL statistics", "mysql.py:MysqlStatisticsInterface")],
  "exhaustive enumeration of declared schemas; the real catalog queries are executed on catalog tables with the content that the systems would show, every lookup is compared with the declaration",
  "model_checking", "Complete within bounds; the content of the catalog tables follows the manuals of Postgres and MySQL; the queries run on the embedded engine.")
P("P32", "References to tables and columns are consistent values",
  "References to tables and columns behave as immutable values: a reference that is derived from another one (other alias, no alias, virtual, updated, bound, unbound) differs in exactly what has been requested and leaves the original as it is; "
  "equality is that of normalized names, aliases and schemas, equal references have equal hashes, and the order is total, agrees with equality and sorts by identifier first, so that sorting does not depend on the order of the input. "
  "The SQL text of a reference denotes this reference again, whatever its name is (keywords and special characters included). "
  "References, operators, queries with everything in them, plans and join trees can be copied and pickled: the copy is equal with the same hash and text, and the parameters of deep copies of plans are independent of the original.",
  ["inputs", "configurations"], "every combination of names, aliases, schemas and kinds, every pair of references, every keyword and special character in every position",
  "The tests use a handful of lower-case names without schemas, and do not sort or copy references.",
  ["_core.py", "_qep.py"], [("table references", "_core.py:TableReference"), ("column references", "_core.py:ColumnReference"), ("quoting", "_core.py:quote"), ("copies of plans", "_qep.py:QueryPlan")],
  "exhaustive enumeration of references, of pairs of references, of names and of objects that contain references, against an independent definition on plain tuples",
  "model_checking", "Complete within the bounds of names, alphabets and lengths given by the check.")
P("P33", "Visitors and structural views cover every part",
  "Visitors of expressions, predicates, clauses and algebra trees reach exactly the method that belongs to the visited element, once, with the element itself and all additional arguments, and their result is returned; "
  "collectors find exactly the matching expressions, at every depth and with the requested behaviour after a match. "
  "The textual structures of queries and of plans contain every clause, predicate, expression, operator and subplan with the estimates, measurements and parameters that are stored for them, at the right depth. "
  "The parameters, estimates and measurements of plans are the same through attributes, items, lookups with defaults and membership tests, before and after updates; sort keys compare, merge and contain columns according to their equivalence classes.",
  ["inputs", "configurations"], "every kind of element below every other kind, with every list of arguments; every combination of plan parameters",
  "The tests use neither visitors nor textual structures.",
  ["qal/_qal.py", "relalg.py", "_qep.py"], [("visitors", "qal/_qal.py:SqlExpressionVisitor"), ("predicates", "qal/_qal.py:PredicateVisitor"), ("algebra", "relalg.py:RelNodeVisitor"), ("collector", "qal/_qal.py:ExpressionCollector"), ("structure of queries", "qal/_qal.py:_create_ast"), ("plans", "_qep.py:QueryPlan.inspect"), ("sort keys", "_qep.py:SortKey")],
  "exhaustive enumeration of queries, plans, parameters and sort keys; recording visitors and independent traversals decide each element",
  "model_checking", "Complete for the statements of the catalogue and the plans within the bounds of the check.")
P("P34", "External commands, data frames on disk and logs",
  "An external command is executed with exactly the given program and arguments in the requested directory, however the call is written; its standard output, its error output and its exit code are reported exactly, and the result is true if and only if the exit code is zero. "
  "The working directory of the caller is the same after the call, whether the command ends, fails, times out or cannot be executed at all. "
  "A data frame that is written to disk can be read again with its columns, rows and plain values (also texts next to missing values) unchanged and with the JSON representation of complex objects; missing directories are created and the frame of the caller is not modified. "
  "Loggers write each message with its prefix to exactly the requested device, and nothing if they are disabled; recorded output is the same on the screen and in the file.",
  ["inputs", "histories", "configurations"], "every form of a call with every list of arguments, directory and outcome; every history of calls with and without errors; every combination of column kinds and formats; every sequence of messages",
  "The tests do not execute commands, write data frames or check log output.",
  ["util/proc.py", "util/_df.py", "util/logging.py"], [("commands", "util/proc.py:run_cmd"), ("results of commands", "util/proc.py:ProcResult"), ("writing", "util/_df.py:write_df"), ("reading", "util/_df.py:read_df"), ("loggers", "util/logging.py:make_logger"), ("recording", "util/logging.py:tee_stdout")],
  "exhaustive enumeration of calls, of histories of calls with failures at every position, of data frames and of message sequences on the real code in a scratch directory, against expected results given by the check",
  "model_checking", "Complete within the bounds of the arguments, outcomes, columns and messages given by the check.")
P("P35", "Visualisations show exactly the structure they visualise",
  "The picture of a tree, join tree, query plan, algebra tree, join graph, graph or QEP synopsis contains exactly one node for each element and exactly the edges of the structure, in the order of the children, also if different elements are equal or have special characters in their names; "
  "each node is labelled with the operator, table, predicate, costs and annotation of its own element (joins, tables, targets of subplans, cardinalities, measurements); skipped intermediate operators are replaced by their inputs; joins point from the foreign key to the primary key and only those. "
  "Annotations of join graphs ask the database exactly for the table with its filters and show the answer. Grids have one cell for each label with exactly its samples. Drawing modifies neither the structure nor the generators of random numbers.",
  ["inputs", "configurations"], "every tree shape, plan, algebra tree, join graph and synopsis within the bounds, with every option and annotation",
  "The tests do not draw anything.",
  ["vis/optimizer.py", "vis/trees.py", "vis/graphs.py", "vis/tonic.py", "vis/plots.py", "vis/fdl.py"], [("trees", "vis/trees.py:plot_tree"), ("join trees", "vis/optimizer.py:plot_join_tree"), ("plans", "vis/optimizer.py:plot_query_plan"), ("algebra", "vis/optimizer.py:plot_relalg"), ("join graphs", "vis/optimizer.py:plot_join_graph"), ("synopses", "vis/tonic.py:plot_tonic_qeps"), ("grids", "vis/plots.py:make_grid_plot")],
  "exhaustive enumeration of structures and options; the DOT text of each picture is read by an independent reader and unfolded into a tree or graph that must be equal to the structure",
  "model_checking", "Complete within the bounds of shapes and tables given by the check.")
