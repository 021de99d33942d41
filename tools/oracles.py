"""How each property is decided (oracle), and what was left outside."""
TV = "translation validation (section 1). "
HOW = {
 "C01": "the real `Cardinality` with a symbolic int / real / inf / nan inside, every operator executed in both orders; oracle: the same operation on the extended number, rounded half-even, written in z3 terms. "
        "`hash` is an uninterpreted function, so equal-implies-equal-hash is decided for every hash function.",
 "C02": "names and literals are strings of symbolic characters; the real quoting code (its regular expressions and keyword sets become terms, `vx/rx.py`) produces symbolic text; oracle: a lexer for PostgreSQL identifiers / "
        "string constants as z3 terms says that the text is one token denoting the name. Keyword positions are read by libpg_query.",
 "C03": "two and three references with symbolic names, aliases, schemas; oracle: equality of the tuples of lowered parts; laws (reflexive, symmetric, transitive, total order, hash) are asserted directly.",
 "C04": "objects built by the real constructors around symbolic constants at every place; oracle: equality of the list of parts; whole queries: the SQL semantics (equal objects must mean the same).",
 "C05": "the object's reports are compared with those computed from the IR that pglast gives for its text (scoping implemented independently); scalar-ness: z3 must show that the result has at most one row on every bounded database.",
 "C06": TV + "`parse_query(text)` is rendered by a direct object walker into the IR and compared with the IR of the text.",
 "C07": TV + "The object is walked into the IR; its `str()` is read by pglast; both must mean the same on all bounded databases.",
 "C08": TV + "`format_quick` text versus `str()` text.",
 "C09": "real `QueryPredicates` on predicate trees whose column-to-table assignment is solver-chosen; oracle: classification from the tables of each top-level conjunct, and z3 shows that the conjunction of the derived filters and joins has the truth value of the original for all rows.",
 "C10": "solver-chosen sets of comparisons; oracle: union-find over the conjuncts for the classes, and z3 shows that each generated predicate is implied and that all implied equalities are generated.",
 "C11": TV + "Every edit (add/drop/replace clause, predicate, projection …) is also performed on the IR; both must agree.",
 "C12": TV + "Renaming is a substitution on the IR, and the original query on the renamed database.",
 "C13": TV + "Fragments: reference selection of parts on the IR. `move_into_subquery`: same result on all bounded databases.",
 "C15": "all tree shapes up to the bound with symbolic annotations; oracle: a nested-tuple reference tree.",
 "C16": "all sequences of operations (add, set, merge, workers …) on a real assignment next to a reference dictionary; flags and worker numbers symbolic.",
 "C17": "as C16, for plan parameters; all numbers symbolic.",
 "C18": "all plan shapes up to the bound with symbolic cardinalities, costs, times; oracle: the reference plan of `vx/planref.py`.",
 "C19": "reference plan versus what the conversions give; cardinalities, workers symbolic (z3 decides which default / fallback applies).",
 "C20": "`to_json`/`read_query_plan_json` with numbers that pass the JSON text as tokens (`vx/jsonx.py`), so the round trip is decided for every number.",
 "C21": "the hint block is read back by `vx/hintref.py` (written from the documentation of pg_hint_plan / pg_lab) and compared with the decisions; numbers travel as tokens through the text; the query text is compared through pglast.",
 "C22": "as C21, for quack_lab.",
 "C23": "as C21, for MySQL's JOIN_ORDER / BNL / INDEX hints and SET statements; literals are read back by a lexer for MySQL strings with symbolic characters.",
 "C24": "the real enumerators run with a cost model that gives each node an arbitrary symbolic cost; oracle: an independent enumeration of all plans as sums of the same symbols; z3 shows on every path (each path is one outcome of the comparisons of costs) that the chosen sum is minimal. `min` is replaced by a fork over the position of the first minimum.",
 "C25": "the real JoinGraph is driven through every history of mark_joined for every kind of columns; oracle: the list of joins in the check (independent of the graph), and for keys a symbolic database: z3 decides for all values that no two rows of the intermediate share a value of a column that the graph reports as primary key.",
 "C27": "the real optimizer runs with an arbitrary symbolic bound per join predicate (`min` forks over the first minimum); greedy choices are compared with all alternatives. Soundness: the optimizer's bounds for fixed statistics against a symbolic database restricted to these statistics; z3 shows that the number of joined rows cannot exceed the bound.",
 "C26": 'the real generators run on join graphs whose edges are symbolic booleans, with supported operators as symbolic booleans and each call of `random.choice`/`random.random` as a symbolic number; oracle: independent recursive enumeration of trees and products.',
 "C28": 'the real model runs on histories of plans whose costs are symbolic real numbers; oracle: a dictionary from independently computed paths to accumulated costs; `recommendation <= every known operator` is decided for all costs.',
 "C30": 'the real pipelines are driven through all short configuration histories; every answer of a pre-check is a symbolic boolean that is drawn when it is needed; oracle: the current stages and database, kept by the harness.',
 "C29": 'the real estimators run against a database whose cardinalities are symbolic per query and state of the data; oracle: independently computed connected subsets, and the predicates whose tables are part of the intermediate.',
 "C32": 'the real benchmark drives stand-ins that log every call; every outcome and time is a symbolic value; oracle: the calls of the log and the rows they must produce, kept by the harness.',
 "C36": 'explain documents with symbolic numbers are generated together with their meaning (operators, tables, totals over loops and workers); the imported plan is compared with the meaning node by node.',
 "C34": 'the real database interfaces run on top of simulated servers that log every statement; all result values, durations and timeouts are symbolic; oracle: the statements, results, runtimes and cache contents that the harness derives from the history.',
 "C37": 'configurations are compared with a dictionary after every operation; the server stand-in parses and executes the SET statements on its (symbolic) settings, which are compared with the requested ones; connect strings are parsed by an independent reader.',
 "C35": 'the queries that the statistics send are executed by an independent SQL engine over tables with symbolic values, and the results are compared with statistics of the values that are computed by the check itself.',
 "C38": 'an abstract schema is translated to the catalogs of each system (validated against a real DuckDB), the catalog queries of the code are executed by an independent SQL engine, and the results are compared with the abstract schema.',
 "C31": 'a dictionary with an explicit order of its labels; natural order is computed by an independent comparison; file contents are compared with the query which is parsed from the same text.',
 "C33": 'a table of the values of each feature, from which the expected values of each request are taken independent of the names of columns.',
 "C39": 'trees are nested tuples from which all expected results are derived; the number of plans is computed recursively over subsets of tables; the result of star queries is counted over the rows.',
 "C40": 'the generated texts are parsed by pglast and compared with the schema and the rows; candidates are computed by a small SQL engine; the random numbers are symbolic draws of a stand-in, which also observes the offered weights.',
}
OUTSIDE = [
 "`with_clauses`/`accept_set_query=False` does not reject set queries in the parser: an existing test pins this, so it is not part of a property.",
 "`partner_annotation` of join trees: the documentation says it is ignored for trees, the code applies it; left outside C15.",
 "`QueryPlan.canonical` on auxiliary nodes with several inputs, subplans of auxiliary nodes: not promised, outside C18.",
 "pg_hint_plan: system settings are emitted as `SET LOCAL` in their own statement (has no effect with autocommit); cannot be shown without a server, outside C21. Row hints for single tables are unsupported by the extension itself. Identifiers that need quoting are not covered.",
 "Predicates over more than two tables are excluded from C19's applicable predicates.",
 "The MySQL and PostgreSQL servers are not available; everything behind a connection is replaced by stubs.",
]
