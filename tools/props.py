"""Single source for properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC, TV = "model_checking", "translation_validation"
P = []


def prop(id, title, statement, over, text, why, files, mech, *, level=MC, technique=None, note="", claim=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level,
                  technique=technique, note=note, claim=claim, reason=reason))


SE = ("symbolic execution of the real Python code on z3-backed proxy values, path by path; z3 decides every assertion over all "
      "values of the path, counterexamples are replayed on plain values")
TVT = ("translation validation: the real code is executed on solver-enumerated query shapes; z3 decides, for all contents of "
       "bounded symbolic tables and all literal values, that input and output have the same SQL semantics")

prop("C01", "Cardinalities behave like rounded, extended numbers",
     "A cardinality built from any number holds that number rounded to the nearest integer, or is unknown exactly for NaN and "
     "infinite exactly for inf. Comparison (==, <, <=, >, >=), hashing and arithmetic (+, -, *, /, //, %, divmod) between "
     "cardinalities and between cardinalities and plain numbers agree with the same operation on the numbers they stand for; "
     "equal objects hash alike and unknown values are absorbing.",
     ["inputs"], "all non-negative ints and reals up to 1e6, inf and NaN, plain or wrapped, on either side of every operator",
     "the tests compare a handful of hand-picked cardinalities; agreement has to hold for every value and every mix of "
     "finite, infinite, unknown and plain operands",
     ["postbound/_core.py"], [("Cardinality", "postbound/_core.py")], technique=SE,
     note="exact real arithmetic instead of IEEE rounding; values up to 1e6; divisors from a fixed list; ** not covered")

prop("C02", "Rendered identifiers and literals read back as themselves",
     "Whatever name a table, alias, schema, column, projection or CTE has and whatever text a string literal holds, the SQL text "
     "produced for it lexes (by PostgreSQL's rules) as exactly one token that denotes exactly that name or text: identifiers are quoted "
     "whenever the bare word would be folded, rejected or read as a keyword, and embedded quotes are escaped.",
     ["inputs"], "every ASCII name of up to 5 characters, every word over [A-Za-z0-9_$] of up to 18, every PostgreSQL keyword at 8 positions",
     "tests use well-behaved lower-case names; the guarantee matters for the unusual ones",
     ["postbound/_core.py", "postbound/qal/_qal.py"], [("quote", "postbound/_core.py"), ("TableReference/ColumnReference rendering", "postbound/_core.py")],
     technique=SE + "; regular expressions and keyword sets become terms", note="ASCII plus six other characters; keyword positions are enumerated")

prop("C03", "Table and column references identify what they refer to",
     "Two table references are equal iff full name, alias and schema agree (ignoring case), two column references iff name and table agree; "
     "equal references hash alike, sorting is a total order that is consistent with equality, every derivation (new alias, schema, virtual "
     "flag, binding, unbinding, dropping the alias) changes exactly the part it names, and copies, pickles and JSON restore the same reference.",
     ["inputs"], "all ASCII names of up to 2 characters, with or without alias, schema and virtual flag",
     "tests use a few fixed references; sets and dictionaries of references rely on these laws for every pair and triple",
     ["postbound/_core.py", "postbound/parser.py"], [("TableReference", "postbound/_core.py"), ("ColumnReference", "postbound/_core.py")],
     technique=SE, note="names of 1-2 ASCII characters (two tables), one-letter names for triples; JSON text and pickles with enumerated names")

prop("C04", "Equality and hashing of query objects agree with their meaning",
     "Two expressions, predicates, clauses, table sources or queries compare equal exactly if all their parts are equal (IN lists as sets), the "
     "comparison is symmetric, equal objects have equal hashes, equal queries have the same meaning, and the same text always yields equal queries.",
     ["inputs"], "every node kind and clause place with arbitrary constants; every pair of queries of the grammar sections",
     "query objects are used as keys of caches, sets and dictionaries; tests compare a handful of queries",
     ["postbound/qal/_qal.py"], [("__eq__/__hash__ of the query algebra", "postbound/qal/_qal.py")],
     technique=SE + "; pairs of whole queries: translation validation against the SQL semantics", note="nesting depth 2 (3 in the thorough tier)")

prop("C05", "What a query reports about itself is what it says",
     "tables(), columns(), columns_of(), itercolumns(), subqueries(), bound/unbound tables, is_dependent(), is_scalar(), output columns and predicates() of a query, "
     "clause, table source, predicate or expression are exactly those of its SQL text: nothing nested (in CASE, windows, FILTER, DISTINCT ON, VALUES, joins, set "
     "queries, CTEs) is lost and nothing foreign appears, so the query's result depends only on the reported tables and columns; scalar queries yield at most one row "
     "of one column.",
     ["inputs"], "all query shapes of the grammar; all contents of bounded tables; all expression, predicate, source and clause kinds with a marked column in every position",
     "tests look at the tables and columns of a few flat queries; optimizers silently misbehave when a nested reference is missing",
     ["postbound/qal/_qal.py"], [("SqlQuery/SetQuery accessors, iterchildren/itercolumns of the algebra", "postbound/qal/_qal.py")], technique=SE +
     "; the footprint of a query is decided as a two-database non-interference query", note="2 rows per table; nesting depth 2 (3 in the thorough tier)")

prop("C06", "Parsing preserves the meaning of a query",
     "For every SELECT, VALUES or set query PostBOUND accepts, the query object returned by parse_query means the same as the SQL text: "
     "on every database content and for every literal value both yield the same multiset (or list, if ordered) of rows, with the same "
     "CTEs, hints, SET prefixes and EXPLAIN options; unsupported syntax is rejected rather than silently changed.",
     ["inputs"], "all shapes of the query grammar in vx/sqlgen.py; all contents of bounded tables and all literals",
     "the tests compare the text of a few benchmark queries; operator precedence, NULL logic, joins, grouping, windows, CTEs and set "
     "operations have far more combinations",
     ["postbound/parser.py", "postbound/qal/_qal.py"], [("parse_query", "postbound/parser.py")], level=TV, technique=TVT,
     note="2 rows per table (1 for set operations), one unrolling of recursive CTEs; shapes enumerated from a grammar with nesting depth 2-3")

prop("C07", "Rendering a query preserves its meaning",
     "str() of any query, clause, predicate or expression object, parsed or built in code, is valid SQL text whose meaning equals that of "
     "the object: brackets, operators, quantifiers, join trees, set operations, DISTINCT, ordering and limits survive, and parsing the "
     "text again yields an equivalent query.",
     ["inputs"], "all query shapes of the grammar plus expression and predicate trees of depth 2 built directly from the query classes",
     "operator precedence and nesting bugs only show for particular combinations of operators, sides and nesting",
     ["postbound/qal/_qal.py"], [("__str__ of the query algebra", "postbound/qal/_qal.py")], level=TV, technique=TVT,
     note="2 rows per table; trees of depth 2 (3 in the thorough tier)")

prop("C08", "The formatter preserves the meaning of a query",
     "format_quick(), in every flavor, with the hint block inlined or not and with or without trailing semicolon, returns SQL text that means the same as "
     "the query it was given and keeps its hints, SET prefixes and EXPLAIN; string literals are not touched by indentation.",
     ["inputs"], "all query shapes of the grammar, all formatter options",
     "tests format a few benchmark queries and look at the result's shape, not its meaning",
     ["postbound/qal/_formatter.py"], [("format_quick", "postbound/qal/_formatter.py")], level=TV, technique=TVT,
     note="2 rows per table; shapes enumerated from the grammar")

prop("C09", "Filters, joins and the join graph reflect the predicates of a query",
     "The filters and joins of a query together mean the same as its predicate (an OR over both contributes its filters to filters() and its joins to joins(), as "
     "documented); a predicate is a join iff it compares columns of different tables; join partners, filters_for(), joins_for(), joins_between() in all "
     "computations, joins_tables(), the join graph (with and without merged aliases) and the required tables are exactly those of the predicates, and "
     "simplified views describe the predicate they were made from.",
     ["inputs"], "all AND/OR/NOT trees of depth 2; all base predicates with up to 6 columns and every way in which their tables coincide; all rows and literals",
     "optimizers rely on these views for every query; tests look at a few conjunctions of simple equi joins",
     ["postbound/qal/_qal.py"], [("QueryPredicates", "postbound/qal/_qal.py"), ("AbstractPredicate.is_join/join_partners", "postbound/qal/_qal.py"),
      ("SimpleFilter/SimpleJoin", "postbound/qal/_qal.py")], technique=SE, note="trees of depth 2, conjunctions of 3 predicates over at most 5 columns (6 in the thorough tier)")


prop("C10", "Equivalence classes of equijoins are the transitive closure, and adding them keeps the query",
     "determine_join_equivalence_classes() yields exactly the classes of columns that are transitively connected by equality predicates between two plain columns "
     "of different tables (other predicates contribute nothing), generate_predicates_for_equivalence_classes() yields every pair of a class exactly once, and "
     "add_ec_predicates() returns a query with the same result, that keeps all other clauses and contains every equality that follows from the conjunctive equijoins and no other.",
     ["inputs"], "all ways in which the tables of up to 4 equalities coincide, mixed with other predicates; all conjunctions of up to 3 (4) of 14 predicates; all table contents and literals",
     "closure and equivalence have to hold for every combination of predicates; the tests contain a single chain of joins",
     ["postbound/qal/_qal.py", "postbound/transform.py"], [("determine_join_equivalence_classes", "postbound/qal/_qal.py"),
      ("add_ec_predicates", "postbound/transform.py")], technique=SE, note="up to 4 equalities; tables with one row")

prop("C11", "Query transformations change exactly what they are asked to change",
     "as_star_query, as_count_star_query, as_explain(_analyze), drop_hints, add_clause, drop_clause and replace_clause return the query in which exactly the requested "
     "clause is replaced, added or removed; flatten_and_predicate keeps the meaning and removes nested conjunctions; remove_predicate and replace_predicate affect exactly the given "
     "predicate; explicit_to_implicit keeps the meaning (or rejects the query); expand_to_query selects everything from the tables of the predicate. The original query is never modified.",
     ["inputs"], "every query of 15 (21) grammar sections, every clause; all predicate trees of depth 2; all table contents and literals",
     "an edit that loses a clause, hint or CTE only shows for queries that have this clause; the tests use few hand-written queries",
     ["postbound/transform.py"], [("add_clause/drop_clause/replace_clause", "postbound/transform.py"), ("explicit_to_implicit", "postbound/transform.py"),
      ("replace_predicate/remove_predicate", "postbound/transform.py")], level=TV, technique=TVT, note="queries of the grammar sections; tables with up to 2 rows")

prop("C12", "Renaming columns and tables is a substitution",
     "rename_columns_in_query, rename_table (with a pair or a dictionary, with and without column prefixes), merge_tables and replace_expressions apply the substitution in every place of the "
     "query - all clauses, joins, VALUES lists, CTEs, subqueries, set operations, window, FILTER, DISTINCT ON and array expressions - and nowhere else: the renamed query has the same result on "
     "the database in which the table or column is renamed in the same way. Hints, EXPLAIN and everything unrelated stay as they are.",
     ["inputs"], "every query of 15 (21) grammar sections; every table and every column of the query, all together and each on its own; all table contents and literals",
     "a forgotten node type silently leaves a dangling reference; the tests rename one column in simple queries",
     ["postbound/transform.py"], [("rename_columns_in_query", "postbound/transform.py"), ("_TableReferenceRenamer", "postbound/transform.py"),
      ("replace_expressions", "postbound/transform.py")], level=TV, technique=TVT, note="queries of the grammar sections; tables with one row; VALUES lists may be rejected for columns that change their table")

prop("C13", "Query fragments and subquery extraction",
     "extract_query_fragment() consists of exactly those parts of every clause (projection, DISTINCT ON, FROM in its original order, AND/OR/NOT trees of WHERE and HAVING, GROUP BY, ORDER BY, required CTEs, both sides "
     "of set operations) whose tables are a subset of the requested tables, with the requested projection, and is None iff there is no such part. move_into_subquery() moves exactly the given tables into a subquery and returns a query with the same result, "
     "or raises for the documented reasons.",
     ["inputs"], "all AND/OR/NOT trees of depth 2 over 7 predicates, all subsets of three tables, all projections and clauses; all table contents and literals",
     "fragments feed the cardinality estimation of every optimizer; the tests do not extract fragments of negations, set operations or grouped queries",
     ["postbound/transform.py"], [("extract_query_fragment", "postbound/transform.py"), ("move_into_subquery", "postbound/transform.py")], level=TV, technique=TVT,
     note="three tables with one row; predicate trees of depth 2 (1 for move_into_subquery in the quick tier)")

prop("C15", "Join trees describe exactly the join order they were built from",
     "A JoinTree/LogicalJoinTree built by scan, join, join_with, from nested table sequences, from JSON or from a query plan has exactly the given leaves, inputs, directions and annotations; "
     "tables, iteration, lookup, containment, depth, is_linear/is_bushy/is_base_join describe that structure (linear iff every join has a base table as input); trees are equal iff they have the same structure; "
     "join_with puts the partner on the requested side; update_annotation and join_with keep the type of the tree and never modify their inputs; trees survive a JSON round trip.",
     ["inputs"], "all binary trees of up to 5 (6) tables, all sets of tables that are looked up, all partners and directions; symbolic annotations",
     "join trees are the interface between optimizers and hints; tests build two or three trees by hand",
     ["postbound/_hints.py", "postbound/opt/_helpers.py"], [("JoinTree", "postbound/_hints.py"), ("LogicalJoinTree", "postbound/_hints.py"), ("read_jointree_json", "postbound/opt/_helpers.py")],
     note="up to 5 (6) tables")

prop("C16", "Operator assignments keep exactly what was assigned, and the last assignment wins",
     "After any history of add/set_scan_operator/set_join_operator/set_intermediate_operator/set/set_operator_enabled_globally/merge_with/integrate_workers_from/clone/global_settings_only, a PhysicalOperatorAssignment "
     "contains exactly the operators, directions, workers and global settings that the history implies (later assignments and merge partners win; overwrite_fine_grained_selection removes contradicting assignments). "
     "get, [], in, iteration, equality and hash agree with the content for tables and all iterables of tables; derived assignments are independent of their inputs; the JSON round trip yields an equal assignment.",
     ["inputs", "histories"], "all histories of 2 (3) operations over three tables, all pairs of assignments with up to 4 entries; symbolic workers and flags",
     "a lost or stale operator silently changes the plan a benchmark measures; tests never combine, overwrite or serialize assignments",
     ["postbound/_hints.py", "postbound/opt/_helpers.py"], [("PhysicalOperatorAssignment", "postbound/_hints.py"), ("read_operator_assignment_json", "postbound/opt/_helpers.py")], note="2 (3) operations on three tables")

prop("C17", "Plan parameters keep exactly what was set, and the last setting wins",
     "After any history of add_cardinality, set_workers, set_system_settings, merge_with and drop_workers a PlanParameterization holds exactly the cardinalities, workers, settings and the execution mode that the history implies, "
     "for arbitrary (also infinite and unknown) cardinalities; merging prefers the values of the argument and modifies neither input; drop_workers keeps everything else; the JSON round trip yields the same parameters.",
     ["inputs", "histories"], "all histories of 3 (4) operations; all numbers symbolic", "tests never merge or serialize parameters",
     ["postbound/_hints.py", "postbound/opt/_helpers.py"], [("PlanParameterization", "postbound/_hints.py"), ("read_plan_params_json", "postbound/opt/_helpers.py")], note="3 (4) operations on up to three tables")

prop("C18", "Query plans report their structure and their numbers faithfully, and derived plans change exactly one thing",
     "For every QueryPlan, the node kinds, inputs, tables, columns, depth, lookup, find_first_node/find_all_nodes, iteration, containment and shape checks (linear, bushy, left-deep, right-deep, zig-zag, base join, scan branch) agree with the tree of operators "
     "including auxiliary nodes and subplans; C_out, q-error and operator time follow their definitions and are NaN where numbers are missing; parallelize, with_estimates, with_actual_card, scale_cardinality, canonical and clone change exactly what they "
     "promise, keep all other metadata and never modify the plan; sort keys are compatible iff they have the same direction and a common member.",
     ["inputs"], "all plans over up to 4 (5) tables with optional auxiliary nodes and subplans; all cardinalities, costs and times symbolic; five patterns of unknown values",
     "tests look at the shape of a few plans without auxiliary nodes", ["postbound/_qep.py"], [("QueryPlan", "postbound/_qep.py"), ("SortKey", "postbound/_qep.py")], note="up to 4 (5) tables; numbers for plans of up to 2 (3) tables; exact arithmetic")


prop("C19", "Query plans convert to join trees, operators and parameters and back without loss",
     "For every QueryPlan over scans, joins and auxiliary nodes, explode_query_plan/jointree_from_plan/operators_from_plan/parameters_from_plan give exactly the join order, the operator of every scan, join and intermediate, the requested cardinality (estimated, actual, with fallback) and the workers of "
     "every intermediate, where tables that only occur in lookup keys and subplans do not belong to an intermediate; to_query_plan builds exactly the described plan (with default operators, intermediates, parameters and the applicable predicates of the query) and rejects missing operators; "
     "to_query_plan reverses explode_query_plan; update_plan changes exactly the given operators and parameters of a copy.",
     ["inputs"], "all plans of up to 3 (6 for round trips) tables with auxiliary nodes; all operators, fallbacks; symbolic cardinalities and workers; unknown numbers at any node",
     "tests convert a handful of plans returned by a server", ["postbound/_hints.py", "postbound/_qep.py", "postbound/opt/_helpers.py"], [("to_query_plan", "postbound/opt/_helpers.py"), ("operators_from_plan", "postbound/_hints.py")],
     note="up to 3 tables with auxiliary nodes, up to 5 (6) without; join predicates over more than two tables are outside")


prop("C20", "Query plans survive their JSON representation with all metadata",
     "For every QueryPlan, reading its JSON representation yields a plan with the same operators, node types, children, base tables (schema, alias, virtual), filter predicates, sort keys (members and direction), index, lookup key, workers, custom metadata, "
     "estimates and measures (including unknown and infinite ones) and subplan, at every node; missing parts of a document are unknown; operators are found by their names.",
     ["inputs"], "all operators x predicates, sort keys, lookup keys, tables and custom metadata at one node; all patterns of missing numbers, else symbolic; all plans of up to 3 (4) leaves with auxiliary nodes and subplans",
     "tests do not read plans from JSON", ["postbound/_qep.py", "postbound/opt/_helpers.py", "postbound/parser.py"], [("read_query_plan_json", "postbound/opt/_helpers.py"), ("QueryPlan.__json__", "postbound/_qep.py")],
     level=TV, technique=TVT, note="up to 3 (4) leaves; 14 kinds of predicates; custom metadata of JSON values")


prop("C21", "Postgres hint blocks encode exactly the given optimizer decisions",
     "For every combination of join order, operators (with workers, intermediates and switches) and plan parameters, or for an entire plan, the pg_hint_plan and pg_lab hint blocks are well-formed and enforce exactly these decisions: the join order with its directions, "
     "each operator for exactly its intermediate, each known cardinality for its intermediate, the switches, settings and modes, GEQO handling, and at most one parallel part (the first one, with its workers; for plans the part below the node with the workers); "
     "unsupported parts are reported and ignored; the query itself is unchanged, LIMIT and EXPLAIN are kept in Postgres syntax.",
     ["inputs"], "all join orders and plans of up to 3 (4) tables, all operators at one node, auxiliary nodes, workers at several nodes; symbolic cardinalities, workers and GEQO threshold",
     "tests need a Postgres server; an operator without its hint is only visible in the plan that the server happens to choose", ["postbound/postgres.py", "postbound/_hints.py"], [("_generate_pglab_hints", "postbound/postgres.py"), ("_generate_pghintplan_hints", "postbound/postgres.py"), ("_generate_pglab_plan", "postbound/postgres.py")],
     note="no server; up to 3 (4) tables; ordinary identifiers; index scans may be hinted as index-only scans")


prop("C22", "DuckDB hint blocks encode exactly the given optimizer decisions",
     "For every combination of join order, operators, switches and plan parameters, or for an entire plan, the quack_lab hint block is well-formed and enforces exactly these decisions (join orders of at least three tables, each operator and each known cardinality for its intermediate, the switches), settings become SET statements, "
     "and exactly the unsupported decisions are rejected; the query itself is unchanged.",
     ["inputs"], "all join orders and plans of up to 3 (4) tables, all operators at one node, switches, settings, unsupported parts; symbolic cardinalities and workers",
     "tests execute a few hinted queries", ["postbound/duckdb.py"], [("DuckDBHintService", "postbound/duckdb.py")], note="no engine; up to 3 (4) tables; ordinary identifiers")


prop("C23", "MySQL hint blocks and query texts encode exactly the given decisions and queries",
     "For every linear join order, operator assignment and settings, or entire linear plan, the MySQL hints enforce a sequence of tables that computes exactly the intermediates of the tree, each operator for its intermediate and all settings; bushy join orders are rejected. "
     "Query texts denote the query in MySQL syntax: string, number, NULL and boolean literals keep their values, casts keep their type, LIMIT and EXPLAIN use MySQL's syntax.",
     ["inputs"], "all join orders of up to 4 tables, all operators at one node, settings; all strings of up to 3 (4) characters; queries x literals x EXPLAIN x LIMIT x SQL modes",
     "the MySQL interface has no tests", ["postbound/mysql.py"], [("MysqlHintService", "postbound/mysql.py")], note="no server; up to 4 tables; strings of up to 3 (4) characters")



prop("C24", "The dynamic programming enumerators return valid plans and no cheaper plan exists",
     "For every query with inner equijoins, every cost model that sums up non-negative costs of the nodes and every set of allowed operators, the plan of DynamicProgrammingEnumerator is the cheapest one among all "
     "bushy, cross-product-free join orders, operators and access paths, and the plan of PostgresDynProg (including sorts, materialization, memoization, implied join predicates and index orders) is at most as expensive as all of these, "
     "up to the documented fuzz for sorted paths. Plans contain every table once, evaluate every filter at its scan and every join predicate at its join, use only allowed operators, indexes that exist on used columns (index-only scans only "
     "if no other column is needed), sorted inputs for merge joins, at most one parallel level with the estimated workers, and carry the estimator's cardinality and the cost model's cost at every node. The pruning of paths keeps, for each added path, one that is as cheap and as well sorted.",
     ["inputs"], "all costs of all nodes (symbolic) for nine join graphs of up to 4 tables x sets of operators x indexes",
     "the tests do not run the enumerators at all; optimality is a statement about all plans and all costs",
     ["postbound/opt/dynprog.py"], [("DynamicProgrammingEnumerator", "postbound/opt/dynprog.py"), ("PostgresDynProg", "postbound/opt/dynprog.py")], technique=SE,
     note="up to 4 tables; cost functions are additive; native Postgres costs (which need a server) are outside")

prop("C25", "Join graphs offer exactly the available joins and classify them soundly",
     "For every query, schema and order of joining tables, JoinGraph is consistent with the query: joined and free tables, available joins, join paths (from a joined to a free table), join predicates between tables, components and clones follow "
     "the predicates and the history of mark_joined. A primary key/foreign key join is one between an indexed column and a primary key of an unjoined table, everything else is an n:m join. "
     "Once tables are joined, a column only counts as a key of the intermediate result if no two rows of any database can share the value; joining via a primary key keeps the keys of the intermediate.",
     ["inputs", "histories"], "all primary/foreign key schemas for 14 join graphs of up to 4 tables x all join histories x all small databases (symbolic values)",
     "the tests only build join graphs of a few fixed queries and never relate the index structures to data",
     ["postbound/opt/_joingraph.py"], [("JoinGraph", "postbound/opt/_joingraph.py"), ("IndexInfo", "postbound/opt/_joingraph.py")], technique=SE,
     note="up to 4 tables with two rows; whether the key structure holds is decided by z3 over all values of the rows")
prop("C27", "UES computes complete join orders by its greedy rule and its upper bounds hold",
     "For every query (with primary keys, indexes, frequencies and estimates), UESJoinOrderOptimizer returns a join order that contains every table once, performs cross products only between unconnected parts (smaller parts first), "
     "starts with the table of the lowest bound, continues with the join of the lowest bound and annotates joins with these bounds. If the base table estimates and the most frequent values are upper bounds, then the bound of every join is not smaller than its actual size on any database. "
     "Base table estimators ask for the filters of exactly the table, total rows ignore filters, missing statistics are uniform, and operator selection disables nested loop joins.",
     ["inputs"], "arbitrary bounds per join predicate for 14 join graphs of up to 4 tables and all primary/foreign key schemas; all databases with up to 3 rows per table and matching statistics",
     "the tests need a database server for UES; bounds are statements about all databases",
     ["postbound/opt/ues.py"], [("UESJoinOrderOptimizer", "postbound/opt/ues.py"), ("UESBoundEstimator", "postbound/opt/ues.py"), ("MaxFrequencyStats", "postbound/opt/ues.py")], technique=SE,
     note="up to 4 tables; up to 3 rows per table for the soundness of bounds; databases are replaced by stubs")

prop("C26", "Exhaustive enumerators are complete and without repetition, random generators only produce valid results",
     "For every join graph, ExhaustiveJoinOrderEnumerator yields every cross-product-free join order of the requested shape (bushy, left-deep, right-deep) exactly once, ExhaustiveOperatorEnumerator every assignment of allowed and supported operators "
     "to scans and joins exactly once, and ExhaustivePlanEnumerator every combination, with the query's predicates. The random generators and optimizers produce, for every outcome of the random numbers, one of these; "
     "requested first tables are joined first and eliminated duplicates do not come back. Queries with cross products are rejected (also if a table is not part of any predicate). Graph walks visit every node once and stay connected.",
     ["inputs", "schedules"], "all join graphs of up to 4 tables (symbolic edges) x shapes x all subsets of supported operators (symbolic) x all draws of the random numbers (symbolic)",
     "the tests call none of the enumerators; random results cannot be compared with a fixed output",
     ["postbound/opt/enumeration.py", "postbound/opt/randomized.py", "postbound/util/nx.py"], [("ExhaustiveJoinOrderEnumerator", "postbound/opt/enumeration.py"), ("RandomJoinOrderGenerator", "postbound/opt/randomized.py"), ("nx_frontier_walks", "postbound/util/nx.py")], technique=SE,
     note="up to 4 tables; duplicates are followed for up to three results; uniformity of the random distribution is not claimed")


prop("C28", "TONIC recommends the cheapest operator that has been observed for a join path",
     "After any history of integrated plans, TONIC's recommendation for a join order assigns to each join (identified by its tables, as named in the query) the operator with the least accumulated cost (new cost plus gamma times the previous one) among "
     "those observed for the same join path, and nothing to joins with less than two known operators. Paths follow the deeper input (base joins are unordered, bushy joins refer to the tables of the shallower side, whose joins have paths of their own), "
     "do not depend on auxiliary plan nodes or table aliases, and depend on filters only if the model is filter-aware. Unknown costs are exactly the allowed operators without observation. Stored models behave like the original after loading and can be "
     "extended. Cost exploration covers all combinations of allowed and supported operators once (or a distinct subset of at most the requested size); a reset forgets everything.",
     ["inputs", "histories"], "all costs (symbolic) x histories of up to 2-4 plans x 13 join trees of up to 6 tables x operators x auxiliary nodes x filters and aliases x draws (symbolic)",
     "the tests do not touch TONIC; whether a recommendation is the minimum depends on the costs of the whole history",
     ["postbound/opt/tonic.py"], [("QEPsNode", "postbound/opt/tonic.py"), ("TonicOperatorSelection", "postbound/opt/tonic.py"), ("_load_qeps_from_json", "postbound/opt/tonic.py")], technique=SE,
     note="costs are exact real numbers; the database system is a stand-in; self joins within bushy subqueries are outside (QepsIdentifier cannot distinguish them)")


prop("C30", "Pipelines optimize exactly the supported queries, and hand the results of their stages over unchanged",
     "After any sequence of (re-)configurations, a pipeline optimizes a query if and only if it has been built for its current stages and database, and the pre-checks of all current stages accept both; otherwise it fails without calling any stage and reports what is not "
     "supported. The stages run once, in order, each with the results of the previous ones, and their combined result is enforced on the target database unchanged; missing stages leave their decisions to the database (or, for text book pipelines, to the native stage). Combined "
     "pre-checks accept exactly what all of their parts accept, and report all failures. The predefined pre-checks accept exactly the queries they describe. Training reaches exactly the stages that need it, once each. Stages that emulate or query the native optimizer "
     "return the corresponding part of the native plan for the decisions already taken, and native costs are those of the requested part of the query.",
     ["inputs", "histories"], "all sequences of 3-4 configuration steps x all (symbolic) answers of the pre-checks x 4 kinds of pipelines; 13 ways to combine pre-checks; 11 FROM clauses x 9 predicates x 6 conditions; all costs and cardinalities of native plans",
     "the tests do not build pipelines; which checks apply depends on the history of the configuration",
     ["postbound/_pipelines.py", "postbound/validation.py", "postbound/opt/native.py"], [("MultiStageOptimizationPipeline", "postbound/_pipelines.py"), ("CompoundCheck", "postbound/validation.py"), ("NativeCostModel", "postbound/opt/native.py")], technique=SE,
     note="stages and database systems are stand-ins with arbitrary answers; the join graph of queries with subqueries is outside (CrossProductPreCheck)")


prop("C29", "Cardinality estimators answer for exactly the requested intermediate, from the declared source",
     "The estimates for a query cover every intermediate result once (all tables sets for cross products, otherwise the connected ones), those for a join order exactly its nodes; unknown estimates are left out. Estimators that consult the database system (native, "
     "precise, live fallback, distorted) ask for the tables and predicates of the intermediate and nothing else: grouping, ordering, limits and aggregates of the query do not apply. Precise cardinalities are re-used only if the cache is enabled, and then for equal "
     "intermediates. Pre-computed cardinalities are those of the lookup table for the label and the tables; missing ones come from the default, the live system or raise an error as configured; storing live results keeps the table readable and complete. Distortion multiplies "
     "by the factor, or by any value between 1 and the factor.",
     ["inputs", "histories"], "all cardinalities (symbolic) x 5 join graphs of up to 4 tables x 8 kinds of queries x all intermediates x 5 estimators x all sequences of 4-5 requests, data shifts and resets x lookup tables of up to 4 entries with all options",
     "the tests do not touch the estimators; whether a cached or stored value is right depends on the history",
     ["postbound/_stages.py", "postbound/opt/_cardinalities.py", "postbound/opt/native.py"], [("CardinalityEstimator", "postbound/_stages.py"), ("PreciseCardinalities", "postbound/opt/_cardinalities.py"), ("PreComputedCardinalities", "postbound/opt/_cardinalities.py")], technique=SE,
     note="the database system is a stand-in with arbitrary cardinalities; entries of lookup tables are 0, 7, large or unknown; queries without subqueries")


prop("C32", "The benchmark executes every query exactly as often, and in the way, it is told to, and reports exactly what happened",
     "Executing a workload executes every (prepared) query, in the order of the workload, exactly per_query_repetitions * workload_repetitions times on the target database, after preparation, pre-warming and caching settings that were requested and with the timeout "
     "that was requested. Every execution is reported in one row with its actual query, label, repetition, time, result and status; after an error the configured behavior (raise, log, ignore) applies to exactly the failed execution. With an optimization pipeline, the "
     "queries are optimized and executed on the database of the pipeline, and training happens exactly when the pipeline needs it, with the data that is available. Progressive output and exports contain the same rows as the returned results, in every format, and "
     "survive multiple sessions. Loggers and sorting do not change what is reported.",
     ["inputs", "histories", "faults"], "up to 3 queries x 2 x 2 repetitions, all (symbolic) sequences of outcomes and all times; all combinations of preparation options; 3 output formats x all outcomes; 4 kinds of pipelines x training requirements",
     "the tests do not run the benchmark; what is reported depends on the history of failures, timeouts and repetitions",
     ["postbound/bench.py", "postbound/_pipelines.py"], [("execute_workload", "postbound/bench.py"), ("QueryPreparation", "postbound/bench.py"), ("prepare_export", "postbound/bench.py")], technique=SE,
     note="the database, clock and pipelines are stand-ins with arbitrary outcomes; timeouts report the timeout as their time; failures of the preparation, HDF files and parquet files with results of different types are outside")


prop("C36", "The plans of the database systems are imported exactly as the systems report them",
     "Importing the EXPLAIN output of Postgres, DuckDB and MySQL produces query plans that contain exactly the operators of the original plan, in the original structure, with the tables and aliases, conditions, estimated and actual cardinalities, costs, times, loops, "
     "workers and buffers that the system reported, in the units and with the meaning that the query plan documents. Nodes of a plan are equal exactly if they describe the same operation, and outer and inner children are found regardless of how often the same operation appears. "
     "Reports that are no plan are rejected.",
     ["inputs"], "17 shapes of Postgres plans with up to 6 nodes, all costs, cardinalities, times, blocks and 0, 1 or 3 workers; 6 shapes of DuckDB plans x 3 formats; MySQL plans with up to 3 tables x 5 access types x 4 join types",
     "the tests need live database servers; plans differ in structure and parallelism per query and server",
     ["postbound/postgres.py", "postbound/duckdb.py", "postbound/mysql.py"], [("PostgresExplainNode", "postbound/postgres.py"), ("PostgresExplainPlan", "postbound/postgres.py"), ("parse_duckdb_plan", "postbound/duckdb.py"), ("parse_mysql_explain_plan", "postbound/mysql.py")], technique=SE,
     note="plans are generated in the format of the systems, connections are stand-ins; at most one subplan per node, no estimates of subplans within parallel parts; derived tables and unions of MySQL are outside; DuckDB scans of self joins that DuckDB itself reports ambiguously may have no table")


prop("C34", "Queries are executed exactly as requested, and their results are what the database system returned",
     "Executing a query on Postgres, DuckDB or MySQL applies its preparatory statements and then executes exactly the query, once, in the syntax of the system and with its hints. Results are returned as-is or simplified exactly as documented. The query cache is used exactly if the call or, by default, "
     "the database asks for it; it only contains results of successful queries, and it survives sessions without changes. Timeouts abort exactly the queries that take too long, cancel them on the server and never hang, even if the worker dies; measured runtimes are those of the executed query. "
     "Errors are reported as the documented errors. EXPLAIN requests and estimates describe exactly the requested query. The database pool and parallel executor hand out exactly the registered connections and the results of exactly the queued queries.",
     ["inputs", "histories", "faults", "schedules"], "sequences of up to 3 operations per database; all durations and timeouts; 7 outcomes of timeout workers; all completion orders of up to 3 parallel queries; all combinations of caching and result modes",
     "the tests need live servers; the outcome depends on the cache history, the timing of the query and the point at which a worker fails",
     ["postbound/db/_db.py", "postbound/postgres.py", "postbound/duckdb.py", "postbound/mysql.py"], [("Database", "postbound/db/_db.py"), ("PostgresInterface", "postbound/postgres.py"), ("TimeoutQueryExecutor", "postbound/postgres.py"), ("DuckDBInterface", "postbound/duckdb.py"), ("MysqlInterface", "postbound/mysql.py")], technique=SE,
     note="servers, connections, processes, thread pools and clocks are stand-ins that follow the documentation of the drivers; a worker runs to its end before its messages are received (at the symbolic times at which they were sent); real signals, sockets and threads are outside")


prop("C37", "Postgres configurations, sessions and connections behave as requested",
     "A Postgres configuration is an ordered mapping of settings: loading, adding, updating, assigning and removing settings produces exactly the requested settings and never modifies the original configuration; its text consists of SET statements which assign exactly these values, whatever characters they contain; "
     "otherwise it behaves like its text and can be copied. Applying a configuration changes exactly the settings that can be changed at runtime, and skips the others with a warning; the current configuration contains all relevant settings and restores them. "
     "Operators are enabled and disabled as requested. Prewarming and cooling reaches exactly the requested tables and indexes. Connections use exactly the parameters of the first available source, whatever characters they contain, and malformed sources are rejected.",
     ["inputs", "histories"], "configurations with up to 2 initial settings and 2 operations, all integers and texts of 2 ASCII characters as values; 12 server settings; up to 3 tables with 1-3 indexes; 9 sources of connections",
     "the tests need a live Postgres server; values and sequences of operations differ per user",
     ["postbound/postgres.py"], [("PostgresSetting", "postbound/postgres.py"), ("PostgresConfiguration", "postbound/postgres.py"), ("PostgresInterface", "postbound/postgres.py"), ("connect", "postbound/postgres.py")], technique=SE,
     note="the server is a stand-in; YAML files (no parser installed), list-valued settings and settings of extensions are outside")


prop("C35", "Statistics describe the data",
     "Emulated statistics (number of rows, distinct values, minimum and maximum, most common values, histograms with balanced buckets) of each database system describe exactly the current contents of the requested table, whatever its schema, names and NULL values; results are reused if and only if caching was requested. "
     "Native statistics report exactly what the catalogs of the system contain for the requested table and column (with absolute and relative numbers of distinct values, unknown values for tables which have not been analyzed, and histograms which cover all rows), and are emulated only if this is allowed. "
     "Statistics of virtual tables and unbound columns are rejected. Most common values are sorted by their frequency and return exactly this frequency; histograms count the rows below and above a value exactly at the bounds of a bucket, and according to the requested strategy within a bucket.",
     ["inputs", "histories"], "columns with up to 3 rows of 4 different values or NULL, up to 3 histogram bins, 2 requests for caching; all values of the native statistics of two tables with the same name, 2 most common values, 3 histogram bounds; histograms of up to 3 buckets with all bounds, frequencies and requested values",
     "the tests need a live server with a specific database; the statistics depend on the data of the user",
     ["postbound/db/_db.py", "postbound/postgres.py", "postbound/mysql.py", "postbound/duckdb.py"], [("DatabaseStatistics", "postbound/db/_db.py"), ("Histogram", "postbound/db/_db.py"), ("MostCommonValues", "postbound/db/_db.py"), ("PostgresStatisticsInterface", "postbound/postgres.py"), ("MysqlStatisticsInterface", "postbound/mysql.py"), ("DuckDBStatistics", "postbound/duckdb.py")], technique=SE,
     note="queries of the statistics are evaluated by a small SQL engine over tables with symbolic values (vx/minisql.py); update_statistics and sampling are outside")


prop("C38", "The database schema is described correctly",
     "The schema interface of each database system describes exactly the catalogs of the requested schema, even if tables in different schemas share their names, have names which have to be quoted, or their entries are stored in an arbitrary order: "
     "tables, views, columns (in their order), data types and nullable columns, simple and compound primary keys, secondary and compound indexes (columns of compound keys and indexes are not indexed on their own), and foreign keys with the correct (qualified) referenced columns. "
     "Columns are looked up in the first matching candidate table. The schema graph, table and column summaries, and equivalence classes of joinable columns are consistent with this information. Unbound columns, virtual, and unknown tables are rejected. Results which the interface returned can be modified without any effect on later results.",
     ["inputs", "configurations"], "4 systems (Postgres, DuckDB, MySQL, generic information_schema); 3-5 tables of 1-4 columns in 2 schemas, all primary keys, one index and one unique constraint over up to 2 columns, up to 2 foreign keys per column; all attribute numbers",
     "the tests need a live server with a specific schema; the schema depends on the database of the user",
     ["postbound/db/_db.py", "postbound/postgres.py", "postbound/mysql.py", "postbound/duckdb.py"], [("DatabaseSchema", "postbound/db/_db.py"), ("PostgresSchemaInterface", "postbound/postgres.py"), ("MysqlSchemaInterface", "postbound/mysql.py"), ("DuckDBSchema", "postbound/duckdb.py")], technique=SE,
     note="catalog queries are evaluated by a small SQL engine (vx/minisql.py) over generated catalogs; compound foreign keys and constraint names which are shared by tables are outside")


prop("C31", "Workloads contain exactly the queries they were given, under the requested labels and in the requested order",
     "A workload which is created from a dictionary, a list or iterator of (possibly equal) queries, a directory (optionally with subdirectories), a batch file, or a CSV file contains exactly these queries: each one is available under its label, reads the same as it was stored, and is neither lost, duplicated, nor mixed up with another one; files which cannot be parsed raise, warn, or are left out, as requested. "
     "Labels, queries, entries, and iteration agree on one order, which is the natural order of the labels, unless the workload was shuffled. The operations (first, last, random selection, filters, prefixes, relabeling, mapping, addition, subtraction, intersection) provide exactly the queries that they are documented to provide, and leave their operands as they were. "
     "A predefined workload is downloaded once, and an attempt which failed at an arbitrary step never leads to an incomplete workload later on.",
     ["inputs", "faults"], "3 queries (4 in thorough mode) with all integer labels, all permutations of random orders, sequences of 3 operations; 6 query files in 4 directories with 8 kinds of contents; 3 lines or rows; 3 downloads with failures at all of 9 steps",
     "the tests do not create workloads",
     ["postbound/workloads.py"], [("Workload", "postbound/workloads.py"), ("read_workload", "postbound/workloads.py"), ("generate_workload", "postbound/workloads.py"), ("_fetch_workload", "postbound/workloads.py")], technique=SE,
     note="random orders and download failures are chosen by the solver; workloads are immutable, direct modifications of their items are outside")


prop("C33", "Training data provides exactly the requested features of exactly the available samples",
     "A training data set provides the features which its specification names, in the requested order and under their names, with the values of the columns they are mapped to, even if columns of the raw data have the names of other features or several features share a column. Specifications are satisfied iff no feature is missing; requests for missing features are rejected. "
     "Conforming, merging, and retrieval from a repository (first, all, merged) use exactly the data sets which satisfy the specification, contain each sample exactly once and nothing else than the requested features, and leave the original data sets as they were. "
     "Samples which are written to a file are read as they were written, including queries and missing texts, and data frames of the user are not modified.",
     ["inputs", "configurations"], "4 features in all orders, 4 ways to name the columns, up to 3 data sets with 2 samples, all integers as values; 4 file formats with 3 samples of 3 queries",
     "the tests do not use training data",
     ["postbound/train/_train.py", "postbound/util/_df.py"], [("TrainingSpec", "postbound/train/_train.py"), ("TrainingData", "postbound/train/_train.py"), ("TrainingDataRepository", "postbound/train/_train.py"), ("write_df", "postbound/util/_df.py")], technique=SE,
     note="values are symbolic integers which pandas moves as objects; the file harness uses concrete values")


prop("C39", "The analysis of join trees and query plans is correct",
     "The comparison of two query plans reports exactly their differences: other join orders, swapped joins, and other operators, estimates, measurements, or costs (which can be unknown) of the same intermediate, each with the states of both plans, and all of them can be displayed. "
     "The similarity of join trees is the share of their common intermediates, their distance is the edit distance of their join sequences, and the depth of a table is its position among the joins. The bound on the number of plans is an upper bound for each number of tables and operators. "
     "The cost of an executed plan is the cost of the plan with its actual cardinalities, and the cardinality of a star query is the number of its result tuples.",
     ["inputs", "configurations"], "all join trees over up to 5 tables (6 in thorough mode), all pairs of plans over 3 tables (4 in thorough mode) with all non-negative cardinalities and costs, up to 6 tables with 4 join and 3 scan operators, star schemas with 2 facts and 2 dimensions of 2 rows with all values",
     "the tests do not use the analysis functions",
     ["postbound/opt/_analysis.py", "postbound/util/stats.py"], [("compare_query_plans", "postbound/opt/_analysis.py"), ("join_depth", "postbound/opt/_analysis.py"), ("possible_plans_bound", "postbound/opt/_analysis.py"), ("star_query_cardinality", "postbound/opt/_analysis.py")], technique=SE,
     note="the top-down similarity, whose scores are not defined, is outside; both readings of the depth of joins between intermediates are accepted")


prop("C40", "Generated queries are exactly as requested",
     "Random queries contain between the minimum and the maximum number of different tables that are not ignored, are connected, join exactly the tables with foreign keys over one of these keys, and have between the minimum and the maximum number of filters on different columns of the requested kinds, each with a non-null value of its column. They are generated for all requests that can be satisfied. "
     "Queries of CEB templates are the template with all placeholders replaced by correctly escaped values of the provided candidates, with the requested number of values of IN predicates, which fit to the values that they depend on, and which are selected with equal probabilities or according to their weights. Workloads contain the requested number of different queries of each template, and are stored completely. Tasks of a dependency graph are provided after all their dependencies.",
     ["inputs", "configurations"], "schemas with up to 3 tables and columns with up to 4 values, templates with up to 3 predicates over 5 rows, up to 3 queries of 2 templates, all dependency graphs of up to 4 tasks, all outcomes of the random numbers (up to 40 draws, at most two comparison operators)",
     "the tests do not use the generators, and random numbers sample only some outcomes",
     ["postbound/experiments/querygen.py", "postbound/experiments/ceb.py", "postbound/util/misc.py"], [("generate_query", "postbound/experiments/querygen.py"), ("PredicateGenerator", "postbound/experiments/ceb.py"), ("QueryTemplate", "postbound/experiments/ceb.py"), ("DependencyGraph", "postbound/util/misc.py")], technique=SE,
     note="requests that only some selections of tables can satisfy, and schemas that are not connected, are outside; the rows of the databases are fixed, the draws are symbolic")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"],
                                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 run.py --selftest", "checks": [], "not_applicable": []}
    for p in P:
        if p["claim"]:
            m["checks"].append({"property": p["id"], "quick_cmd": f"python3 run.py {p['id']} --tier quick",
                                "thorough_cmd": f"python3 run.py {p['id']} --tier thorough",
                                "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)


if __name__ == "__main__":
    main()
