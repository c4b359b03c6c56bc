#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that statements stay easy to edit).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))

GEN="schema/generator.go"; PAR="schema/parser.go"
p("C01","MySQL: applying the plan yields exactly the desired schema",
  "For every MySQL database and every desired schema file in the supported subset (tables, columns with their order, type, sign, nullability, default, ON UPDATE, AUTO_INCREMENT, charset/collation, primary/unique/plain/fulltext keys, named single-column foreign keys, views, triggers), the statements mysqldef emits are all accepted by the server in the emitted order and leave the database with exactly the schema the file describes. This holds at every step of an arbitrary history of desired schemas applied one after another to the same database. Table options, comments and numeric scale are not tracked on existing tables.",
  ["inputs","histories"],"every pair (current database, desired file) and every sequence of desired files over the supported MySQL subset",
  "The MySQL integration tests need a live server and are not in the stable suite; even they sample about forty fixed before/after pairs, never combinations of changes in one run.",
  [GEN,PAR,"sqlparser/parser.y","adapter/mysql/mysql.go"],
  [("incremental diff of each desired table against the simulated current table",GEN+": generateDDLsForCreateTable"),("deferral of AUTO_INCREMENT until keys exist",GEN),("CHANGE COLUMN / FIRST / AFTER ordering",GEN)],
  ["statements printed/executed by mysqldef","SHOW CREATE TABLE after apply"])
p("C02","PostgreSQL: applying the plan yields exactly the desired schema",
  "For every PostgreSQL database and every desired schema file in the supported subset (schema-qualified tables, columns with type, nullability, default, identity and CHECK, primary keys, plain/unique/partial indexes, foreign keys declared in the table, policies, views), the statements psqldef emits are all accepted by the server in the emitted order and leave the database with exactly the schema the file describes. This holds at every step of an arbitrary history of desired schemas applied one after another to the same database.",
  ["inputs","histories"],"every pair (current database, desired file) and every sequence of desired files over the supported PostgreSQL subset",
  "The PostgreSQL integration tests need a live server and are not in the stable suite; they sample fixed before/after pairs with one change each.",
  [GEN,PAR,"sqlparser/parser.y","adapter/postgres/postgres.go"],
  [("per-attribute ALTER COLUMN generation",GEN+": generateDDLsForCreateTable"),("catalog dump back to DDL","adapter/postgres/postgres.go: DumpTableDDL")],
  ["statements printed/executed by psqldef","system catalogs after apply"])
p("C03","SQL Server: applying the plan yields exactly the desired schema",
  "For every SQL Server database and every desired schema file in the supported subset (tables, columns, IDENTITY, CHECK and named DEFAULT constraints, named primary keys, indexes with options and included columns, foreign keys, views, triggers), the statements mssqldef emits are all accepted by the server in the emitted order and leave the database with exactly the schema the file describes. This holds at every step of an arbitrary history of desired schemas applied one after another to the same database. Column type and nullability changes of existing columns are outside the supported subset.",
  ["inputs","histories"],"every pair (current database, desired file) and every sequence of desired files over the supported SQL Server subset",
  "The SQL Server integration tests need a live server and are not in the stable suite; they sample fixed before/after pairs with one change each.",
  [GEN,PAR,"sqlparser/parser.y","adapter/mssql/mssql.go"],
  [("constraint-wise ADD/DROP CONSTRAINT generation",GEN),("catalog dump back to DDL","adapter/mssql/mssql.go: buildDumpTableDDL")],
  ["statements printed/executed by mssqldef","sys.* catalogs after apply"])
p("C04","SQLite: applying the plan yields exactly the desired schema",
  "For every SQLite database and every desired schema file made of tables and views, running sqlite3def succeeds and leaves the database with exactly the tables, columns and views the file describes: missing ones created, missing columns added, obsolete tables, columns and views dropped, changed views redefined. This holds at every step of an arbitrary history of desired schemas applied to the same database file, and rows of tables and columns that remain are preserved.",
  ["inputs","histories"],"every pair (SQLite database file, desired file) and every sequence of desired files over tables, columns and views",
  "Ten stable tests sample single changes on one or two tables each; none checks combinations of changes, histories or data preservation.",
  [GEN,"adapter/sqlite3/sqlite3.go","adapter/database.go","sqldef.go","cmd/sqlite3def/sqlite3def.go"],
  [("CREATE/DROP TABLE, ADD/DROP COLUMN, DROP+CREATE VIEW",GEN),("sqlite_master dump","adapter/sqlite3/sqlite3.go")],
  ["sqlite_master and PRAGMA table_info after a run","exit status and stdout of sqlite3def"])
p("C05","Idempotence: a second run with the same file changes nothing",
  "After a desired schema file has been applied successfully to a database of any of the four dialects, running the tool again with the same file against the resulting database reports that nothing is modified and executes no statement. The same is true however the database reached that state, and for a database whose own export is used as the desired file.",
  ["inputs","histories"],"all databases and desired files in the supported subset of each dialect, after any history of earlier runs",
  "The tests repeat a handful of fixed files; most combinations of types, defaults, keys, quoting and server normalisations are never dumped and compared.",
  [GEN,PAR,"adapter/mysql/mysql.go","adapter/postgres/postgres.go","adapter/mssql/mssql.go","adapter/sqlite3/sqlite3.go"],
  [("equivalence tests between dumped and written definitions",GEN+": areSame*/haveSame*"),("type alias normalisation",GEN+": normalizeDataType")],
  ["'-- Nothing is modified --' on the second run","statements received by the server on the second run"])
p("C06","Equivalent spellings of a schema are the same schema",
  "Rewriting a desired schema file without changing its meaning never changes the resulting plan against a database that already matches it, namely an empty plan: keyword case, white space and comments, identifier quoting, documented type aliases (bool/boolean, int/integer, char/character, varchar/character varying), explicit versus implied NULL and DEFAULT NULL, inline versus table-level or separate-statement key declarations, order of policy roles, and order of independent statements. Against a database that differs, both spellings lead to the same final schema.",
  ["inputs"],"all schemas in the supported subset of each dialect and all pairs of spellings of each",
  "The tests fix one spelling per feature; the equivalences are relations between unboundedly many spellings.",
  [GEN,PAR,"sqlparser/token.go","sqlparser/parser.y"],
  [("dialect-aware tokenizer and quoting","sqlparser/token.go"),("comparison up to normalisation",GEN)],
  ["plan for each spelling"])
p("C07","What is kept is never touched: no needless or destructive statements",
  "A plan never drops, recreates or alters a table, column, index, constraint, policy, view or trigger whose definition is the same in the current database and in the desired schema, and never drops a table or column that the desired schema still contains, so existing data survives. The only exception is a SQL Server column whose IDENTITY property changes, which has to be re-created.",
  ["inputs","histories"],"all pairs of current and desired schemas in the supported subset of each dialect",
  "Tests compare whole outputs for a few hand-made pairs; the property is about every unrelated object in every pair.",
  [GEN,"adapter/database.go"],
  [("cleanup pass compares against desired tables by name",GEN+": generateDDLs"),("in-place ALTER/CHANGE rather than drop+add",GEN)],
  ["objects named by each emitted statement","row markers carried through the plan"])
p("C08","Obsolete objects are removed, completely and exactly once",
  "Every table, column, index, foreign key, policy and view that exists in the database but no longer in the desired schema is removed by the plan by exactly one statement (directly or together with its table), in an order the server accepts, and nothing else is removed for good. An empty desired file removes every table and view.",
  ["inputs","histories"],"all pairs of current and desired schemas in the supported subset of each dialect where desired omits some objects",
  "The tests drop one or two named objects at a time; interactions between several removals are not sampled.",
  [GEN],[("cleanup pass after the desired statements",GEN+": generateDDLs, generateDDLsForAbsent*")],
  ["DROP statements in the plan","schema after apply"])
p("C09","Every emitted statement is executable at its place in the plan",
  "Each statement of a plan is valid for the target dialect and its preconditions hold at the moment it runs: the objects it names exist (or do not yet exist, if it creates them), an AUTO_INCREMENT column always has a key, a foreign key is gone before the index or column it relies on, constraints are dropped before the column they guard, and referenced tables and columns exist. A run therefore never aborts half-way on a supported change.",
  ["inputs","histories"],"all pairs of current and desired schemas in the supported subset of MySQL, PostgreSQL and SQL Server",
  "Order constraints only show up when several changes meet in one plan, which the fixed tests hardly do, and the servers needed to notice are absent from the stable suite.",
  [GEN],[("fixed phase order inside a table and between tables",GEN)],
  ["acceptance of each statement by a server model that enforces the preconditions"])
p("C10","Export describes the live schema faithfully",
  "For every database in the supported subset of each dialect, --export prints DDL for exactly the tables, views and triggers present (nothing missing, nothing from system schemas, '-- No table exists --' when empty) and changes nothing. Applying that text to an empty database recreates the same schema, and applying it to the database it came from modifies nothing.",
  ["inputs"],"all databases in the supported subset of each dialect",
  "Export is tested on one or two tables per dialect, and for three dialects only with a live server.",
  ["adapter/database.go","adapter/mysql/mysql.go","adapter/postgres/postgres.go","adapter/mssql/mssql.go","adapter/sqlite3/sqlite3.go","sqldef.go"],
  [("catalog queries and DDL assembly","adapter/*/"),("concatenation of dumps","adapter/database.go: DumpDDLs")],
  ["stdout of --export","schema recreated from it"])
p("C11","Dry run shows exactly what apply would do and touches nothing",
  "With --dry-run the tool prints the same statements, in the same order, as a real run on the same database and file would execute, and neither --dry-run nor --export ever sends a statement that can modify the database. A real run executes each printed statement exactly once, in the printed order, and commits them.",
  ["inputs","configurations"],"all databases, desired files and flag combinations in the supported subset of each dialect",
  "One fixed two-column example per dialect compares dry-run and apply output; nobody observes what is sent to the server.",
  ["sqldef.go","adapter/database.go","cmd/mysqldef/mysqldef.go","cmd/psqldef/psqldef.go","cmd/mssqldef/mssqldef.go","cmd/sqlite3def/sqlite3def.go"],
  [("plan printing","sqldef.go: showDDLs"),("transactional execution","adapter/database.go: RunDDLs")],
  ["stdout of both runs","statement log of the database"])
p("C12","--skip-drop never destroys anything and still does the rest",
  "With --skip-drop no statement that drops a table, column, index, constraint, policy, view, trigger or column property is executed; each such statement is reported as skipped. All other statements of the plan are executed in their original order, and the objects that would have been dropped are still there afterwards.",
  ["inputs","configurations"],"all databases and desired files in the supported subset of each dialect, with and without --dry-run",
  "The tests skip one DROP TABLE.",
  ["sqldef.go","adapter/database.go"],
  [("textual DROP filter at execution and printing","adapter/database.go: RunDDLs; sqldef.go: showDDLs")],
  ["statement log of the database","stdout"])
p("C13","A failing statement aborts the run and leaves the database unchanged",
  "If any statement of a plan is rejected by the database, no later statement is executed, the transaction is rolled back (on a database with transactional DDL the schema is exactly as before the run), the error is reported and the exit status is non-zero. Errors while connecting to or reading the current schema likewise end the run with a non-zero status before anything is executed.",
  ["fault_sequences","inputs"],"every position of a failing statement in every plan, and every failing catalog query",
  "No test injects a failure into a run.",
  ["adapter/database.go","sqldef.go","adapter/mysql/mysql.go","adapter/postgres/postgres.go","adapter/mssql/mssql.go","adapter/sqlite3/sqlite3.go"],
  [("single transaction with rollback","adapter/database.go: RunDDLs"),("error propagation from catalog reads","adapter/*/")],
  ["statement log and rollback seen by the database","exit status","stderr"])
p("C14","An invalid desired schema is rejected as a whole, before any change",
  "If the desired file contains a syntax error, a statement that is not a supported declarative DDL (such as DROP, INSERT, SELECT, UPDATE), an index or policy on a table it does not declare, an object declared twice (index, policy, foreign key added by ALTER, view), or a foreign key without a constraint name on an existing table, the tool exits with a non-zero status and an error message and executes nothing. This holds wherever in the file the offending statement stands and whatever valid statements surround it.",
  ["inputs"],"all valid desired files with one defect injected at any place, in every dialect",
  "One syntax error per dialect is tested, as the only statement of the file.",
  [GEN,PAR,"sqldef.go","sqlparser/ast.go"],
  [("parse everything before generating; errors abort",PAR+": parseDDLs"),("double-definition and missing-table checks",GEN)],
  ["exit status","stderr","statement log of the database"])
p("C15","Any input is answered with a plan or an error, deterministically",
  "For arbitrary text as desired file or as current schema, in every dialect, planning terminates with either a list of statements or an error; it never crashes or hangs. The answer is a function of the inputs alone: repeating the call, also concurrently with other calls, gives the identical result.",
  ["inputs","schedules"],"all byte strings, in particular near-valid SQL, for both inputs in every dialect; all interleavings of concurrent calls",
  "Unit tests feed well-formed statements one at a time from one goroutine.",
  [PAR,GEN,"sqlparser/token.go","sqlparser/parser.y","sqlparser/ast.go"],
  [("tokenizer end-of-input handling","sqlparser/token.go"),("no package-level mutable state in planning",GEN)],
  ["return value / panic / exit of planning"])
p("C16","Connection settings reach the server exactly as given",
  "The user, password, host, port, socket and database given by command-line flags and environment variables are exactly the ones used to connect and log in, for any characters in user and password; the dialect's password variable overrides the flag, documented defaults apply when a flag is absent, and PGSSLMODE is honoured. Missing or surplus database arguments and unknown flags are refused without connecting.",
  ["configurations","inputs"],"all combinations of flags and environment variables, with arbitrary user names and passwords",
  "No stable test opens a network connection; special characters in credentials are untested.",
  ["cmd/mysqldef/mysqldef.go","cmd/psqldef/psqldef.go","cmd/mssqldef/mssqldef.go","cmd/sqlite3def/sqlite3def.go","adapter/mysql/mysql.go","adapter/postgres/postgres.go","adapter/mssql/mssql.go"],
  [("flag parsing and environment override","cmd/*/"),("DSN construction","adapter/*/: *BuildDSN")],
  ["login packet received by a listener on the configured address"])
p("C17","Names and literal values survive into the emitted statements unchanged",
  "Every table, column, index, constraint, policy and view name (including reserved words, mixed case, hyphens, dots and blanks when quoted) and every literal (default values of every kind, enum members, lengths, CHECK, partial-index and policy expressions) written in the desired schema appears with the same name, value and meaning in the statements generated for it. In particular a column added or changed by ALTER ends up with the same definition as when created from scratch.",
  ["inputs"],"all identifiers and literals expressible in each dialect's supported subset, in every position where a statement is generated from parts",
  "The tests use a few plain identifiers and small integers; regenerating text from a parse tree is correct or not per value.",
  [GEN,PAR,"sqlparser/token.go","sqlparser/ast.go"],
  [("definition rendering",GEN+": generateColumnDefinition, generateDefaultDefinition, generateAddIndex, escapeSQLName"),("literal and identifier scanning","sqlparser/token.go")],
  ["definition read back by the server model"])
p("C18","Formatting a parsed SQL statement and re-parsing it preserves its meaning",
  "For every SELECT, UNION, INSERT, REPLACE, UPDATE, DELETE and SET statement and expression the parser accepts, the formatted text parses again, formats to the same text, and has the same structure: operator precedence and associativity, operand order, literal values, identifiers, aliases and clauses are all preserved.",
  ["inputs","programs"],"all statements of the query grammar built from generated trees of bounded depth",
  "The table-driven parser tests list about a thousand fixed statements of shallow depth.",
  ["sqlparser/ast.go","sqlparser/parser.y","sqlparser/token.go","sqlparser/tracked_buffer.go"],
  [("Format methods","sqlparser/ast.go"),("grammar precedences","sqlparser/parser.y")],
  ["formatted text","evaluation of the original and of the formatted expression"])
p("C19","Extracting bind variables never changes what a query means",
  "Replacing the literals of a statement by bind variables and substituting the values back yields a statement equivalent to the original; generated names never collide with variables already present, literals share a variable only if type and value agree, and a redacted query contains none of the original string, floating-point and 64-bit integer literals while keeping its structure.",
  ["inputs"],"all generated queries with literals and existing bind variables, all prefixes",
  "The unit tests list about twenty fixed queries.",
  ["sqlparser/normalizer.go","sqlparser/redact_query.go","sqlparser/parsed_query.go","sqlparser/dependency/sqltypes/bind_variables.go"],
  [("literal collection and naming","sqlparser/normalizer.go"),("substitution","sqlparser/parsed_query.go")],
  ["normalised statement and bind variable map","substituted query text"])
p("C20","Statement splitting and comment stripping lose nothing",
  "Splitting a multi-statement text at its separators never cuts inside string literals, quoted identifiers or comments, and joining the pieces gives back the text; parsing statement by statement yields the same statements as parsing each piece alone. Separating leading and trailing comments from a query preserves the query and the comments.",
  ["inputs"],"all sequences of generated statements, comments, literals and separators",
  "The unit tests list a few dozen fixed texts.",
  ["sqlparser/ast.go","sqlparser/token.go","sqlparser/comments.go"],
  [("tokenizer-driven splitting","sqlparser/ast.go: SplitStatement*, ParseNext"),("margin comments","sqlparser/comments.go")],
  ["pieces returned"])
p("C21","Encoding values as SQL and decoding them is lossless",
  "Every value encoded as an SQL literal (strings with any bytes, numbers, bit strings, NULL, tuples) is read back by the tokenizer as the same value, and converting native values to typed values, bind variables or plan values and back preserves type and content, and their JSON form denotes the same number, string or null; values that do not fit their type are refused.",
  ["inputs"],"all byte strings and numbers for every SQL type",
  "The unit tests list fixed examples.",
  ["sqlparser/dependency/sqltypes/value.go","sqlparser/dependency/sqltypes/bind_variables.go","sqlparser/dependency/sqltypes/plan_value.go","sqlparser/encodable.go","sqlparser/token.go"],
  [("escape tables","sqlparser/dependency/sqltypes/value.go"),("string scanning","sqlparser/token.go")],
  ["decoded value"])
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
