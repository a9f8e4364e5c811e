#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def p(id, title, statement, over, text, why, files, mech, technique, note, observe=None, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, observe=observe or [], na=na))

HIST = "exhaustive enumeration of operation histories on the real code against a reference model"
INP = "exhaustive enumeration of bounded inputs on the real code against a reference model"
FAULT = "exhaustive fault-point enumeration on the real code"
TRUST = "Exhaustive within the bounds DESIGN.md states; trusts the reference model in /verif/mc and the Go toolchain."

p("C01", "Rollback leaves no trace",
  "After a storage transaction is rolled back, the store is exactly as it was when the transaction began: the same tables, the same definitions, and the same rows. This holds whatever the transaction did before, including creating and dropping tables, failed statements, and any mix of inserts, updates, and deletes, and the next transaction sees none of it.",
  ["histories"], "every history of committed work followed by a transaction which is rolled back, over small tables and every mix of operations up to the depth bound",
  "The tests roll back a few fixed scripts; whether any sequence of writes (tree node sharing, copy on write) leaks is a statement about all histories.",
  ["storage/basic/basic.go", "storage/basic/btree.go"], [("copy-on-write clone of the tree before the first write of a transaction", "storage/basic/basic.go forWrite"), ("a rolled back transaction discards its tree", "storage/basic/basic.go Rollback")],
  HIST, TRUST, ["storage.Table.Rows", "storage.Transaction.OpenTable"])
p("C02", "A committed table is exactly the ordered map its operations built",
  "Within a transaction every read reflects all earlier writes of the same transaction, and after a commit every later transaction sees exactly the committed state: each table is the ordered map from primary key to row which results from applying its inserts, updates, and deletes in order. Nothing is lost, duplicated, or resurrected, however the work is divided into transactions.",
  ["histories"], "every history of insert, update, delete, begin, commit, and rollback over small key and value domains up to the depth bound, and every way to divide it into transactions",
  "Tests replay a few scripts; the guarantee quantifies over all histories and all transaction boundaries.",
  ["storage/basic/basic.go", "storage/basic/btree.go", "encode/key.go"], [("commit publishes the transaction's tree", "storage/basic/basic.go Commit"), ("rows are items keyed by table and encoded key", "storage/basic/btree.go rowToItem")],
  HIST, TRUST, ["storage.Table.Rows"])
p("C03", "A scan returns exactly the rows asked for, in primary key order",
  "Scanning a table with any optional lower and upper bound row (both inclusive, compared by primary key), any column list, and any predicate on one column returns exactly the matching rows, each once, in primary key order, projected onto the columns. A predicate never matches NULL, and each predicate is only asked about values of its column.",
  ["inputs", "configurations"], "every subset of rows, key definition (ascending, descending, composite), bound pair, projection, and predicate in the domains",
  "Tests scan a few tables with a few bounds; off-by-one bounds, mixed directions, NULL keys, and neighbouring tables need the whole product.",
  ["storage/basic/basic.go", "storage/basic/btree.go", "encode/key.go"], [("range scan of the ordered tree from the lower bound until past the upper bound or the table", "storage/basic/basic.go Rows")],
  INP, TRUST, ["storage.Rows.Next"])
p("C04", "Primary keys are unique and a failed statement changes nothing",
  "No two rows of a table ever have the same primary key: an insert or update which would duplicate a key fails. A statement that fails for any reason (duplicate key, a value that does not fit, a bad row anywhere in a batch) leaves the table exactly as it was before the statement, and the transaction can continue.",
  ["histories", "inputs"], "every batch of rows (good, duplicate, NULL, out of range, too long, in every position) and every update, over every small starting table",
  "Tests insert one duplicate; a partial failure at each position of each batch from each state is not sampled.",
  ["storage/basic/basic.go"], [("existence check before insert and undo of the rows inserted by a failed statement", "storage/basic/basic.go Insert"), ("restore of the old row when a key update fails", "storage/basic/basic.go Update")],
  HIST, TRUST, ["storage.Table.Insert", "storage.RowRef.Update"])
p("C05", "Every stored row satisfies its column definitions",
  "After any insert or update that succeeds, every value in the table has exactly its column's type, is within its column's size, and is not NULL where NULL is not allowed; the stored value is the documented conversion of the value supplied. A value that cannot be converted, does not fit, or is a disallowed or omitted NULL makes the statement fail.",
  ["inputs"], "every pair of column definition and value from boundary domains, through insert (full and short rows) and update",
  "Tests check a few conversions of one type; the constraint is a product of types, sizes, nullability, values, and statement kinds.",
  ["storage/basic/basic.go", "types/value.go"], [("conversion of every row written", "types/value.go ConvertRow")],
  INP, TRUST, ["storage.Rows.Next"])
p("C06", "Cursors are snapshots and row memory is never shared with callers",
  "A cursor returns exactly the rows which matched when it was opened, whatever is later inserted, updated, or deleted in the same transaction, including through the cursor itself. Changing a row, value, or byte slice passed to or returned by the storage layer never changes what is stored or what any cursor returns, and the storage layer never changes what it was passed.",
  ["histories"], "every interleaving of two cursors' steps with writes over small tables, and every point at which a caller can overwrite memory it passed in or got back",
  "Tests use one cursor at a time and never overwrite memory; aliasing shows only in particular orders of operations.",
  ["storage/basic/basic.go"], [("the items are collected when the cursor is opened", "storage/basic/basic.go Rows"), ("rows are cloned on the way in and on the way out", "storage/basic/basic.go cloneRow")],
  HIST, TRUST, ["storage.Rows.Next"])
p("C07", "Transactions and cursors refuse misuse and always release the store",
  "Completing a transaction a second time fails; completing it while a cursor is open is refused; using a completed transaction or a closed cursor, asking for the current row before the first, or changing a row that has been deleted is refused (by an error or a panic) and has no effect on the stored data. A transaction that completes releases the store, so that another can begin, exactly once.",
  ["histories"], "every sequence of transaction and cursor calls, legal and illegal, up to the depth bound",
  "The tests cover a handful of misuses one by one; the state machine must hold for every call sequence.",
  ["storage/basic/basic.go"], [("count of open cursors and a cleared store mark a completed transaction", "storage/basic/basic.go Commit, Rollback"), ("closed cursors have a negative position", "storage/basic/basic.go rows")],
  HIST, TRUST, ["storage.Transaction.Commit", "storage.Transaction.Rollback", "storage.Rows.Close"])
p("C08", "Storage tables are isolated and their definitions are kept exactly",
  "Creating, filling, changing, and dropping one table never affects another, whatever their ids, and a table id can be used again after a drop and starts empty. Opening a table succeeds only if it exists with exactly the definition given, and reports that definition; creating an existing table or dropping a missing one is refused without effect.",
  ["histories"], "every history of create, drop, insert, delete, commit, and rollback over several table ids (adjacent and extreme) and definitions up to the depth bound",
  "Tests create and drop one table at a time; leaks between neighbours or reuse of an id need histories.",
  ["storage/basic/basic.go", "storage/basic/btree.go"], [("table id is the high part of every item's relation", "storage/basic/btree.go toRelationId"), ("definitions are stored as rows of a reserved relation", "storage/basic/basic.go setTableType")],
  HIST, TRUST, ["storage.Transaction.OpenTable", "storage.Table.ColumnTypes"])
p("C09", "Encoded keys order and separate rows as SQL does",
  "For every key definition and every two rows of a table, comparing the encoded keys as bytes gives the same result as comparing the key columns in turn with the SQL order, each reversed if descending, with NULL first in both directions. Keys are equal exactly if the rows have equal key values, and no key is a proper prefix of another key of the same table.",
  ["inputs", "configurations"], "every pair of rows over boundary domains of every type, both directions, and composite keys of up to three columns",
  "Tests compare a fixed increasing list per type; order and injectivity are statements about all pairs and all composites.",
  ["encode/key.go", "encode/encode.go"], [("tagged, order preserving, self delimiting encoding of each value", "encode/key.go MakeKey")],
  INP, TRUST, ["encode.MakeKey"])
p("C10", "Integer codecs are exact inverses and reject malformed input",
  "Decoding what was encoded, as a varint or a zigzag varint, followed by any other bytes, returns the same integer and exactly the bytes that follow; fixed width encodings are big endian and keep order. Decoding any truncated or oversized input fails rather than returning a wrong number, reading past the end, or panicking.",
  ["inputs"], "every integer near every power of two and every 20 bit integer, every byte string up to the length bound, and every truncation",
  "Tests round trip a few dozen numbers; round trip and rejection are statements about all integers and all byte strings.",
  ["encode/encode.go"], [("seven bits per byte, least significant first, up to 64 bits", "encode/encode.go EncodeVarint, DecodeVarint")],
  INP, TRUST, ["encode.DecodeVarint"])
p("C11", "Comparing values is a total order",
  "Comparing any two values gives a consistent total order: reflexive, antisymmetric, and transitive over NULL, booleans, numbers, strings, and bytes, in that order of kinds. Integers and floats compare by exact numeric value, NaN is equal to itself and less than every other number, and strings and bytes compare byte by byte.",
  ["inputs"], "every pair and every triple of values from a domain with the boundaries of every type",
  "Tests compare selected pairs; transitivity and exactness are statements about all pairs and triples.",
  ["types/value.go"], [("ranks of the kinds of values and a comparison within each kind", "types/value.go Compare")],
  INP, TRUST, ["types.Compare"])
p("C12", "Value conversion is exact, total, and range checked",
  "Converting a value to a type gives the documented result or fails: NULL stays NULL, a value of the type is unchanged, numbers convert to and from strings by their decimal form, floats truncate to integers, bytes convert to strings only if they are valid UTF-8, and booleans accept exactly the documented words. Converting to a column also fails if the result does not fit the column's size (characters for strings, bytes for bytes, width for integers) or is NULL where NULL is not allowed; it never panics, changes its argument, or gives a value of another type. Formatting a value or row always gives the text of exactly that value.",
  ["inputs"], "every pair of value and type or column definition in boundary domains, and every short string over an alphabet of digits, signs, spaces, and letters",
  "Tests try a table of examples; totality and range checks quantify over all values and sizes.",
  ["types/value.go", "types/column.go"], [("conversion by target type", "types/value.go CastValue"), ("size and NULL checks", "types/value.go ConvertValue")],
  INP, TRUST, ["types.CastValue", "types.ConvertValue", "types.ConvertRow"])
p("C13", "Identifiers are interned by their spelling",
  "Two names get the same identifier exactly if they have the same spelling: unquoted names ignore case and are keywords if a keyword has that spelling, quoted names are never keywords and keep their case, and both are limited to 128 bytes of whole characters. An identifier's text is its spelling, never changes, and gives the same identifier when quoted again, unless it is a keyword.",
  ["inputs", "histories"], "every pair of short strings over an alphabet of both cases, digits, and non-ASCII letters, quoted and unquoted, every keyword in several cases, lengths around the limit, in every order of creation",
  "Tests check a list of names; that distinct spellings never collide and equal ones always meet is over all pairs and orders of creation.",
  ["types/identifier.go"], [("tables from spelling to identifier and back, and a counter for new identifiers", "types/identifier.go ID, lookupID")],
  INP, TRUST, ["types.ID", "types.Identifier.String"])
p("C14", "Identifiers are safe to create and use concurrently",
  "When any number of threads create, look up, and format identifiers at the same time, every thread gets the same identifier for the same name and different identifiers for different names, and formatting always gives the right text. There are no data races and no deadlocks.",
  ["schedules"], "every interleaving (up to a preemption bound) of two and three threads creating, looking up, formatting, encoding, and decoding overlapping names",
  "The tests use identifiers from one thread; the failure needs a particular interleaving of a check and a create.",
  ["types/identifier.go"], [("read-write lock around the tables, and a second check under the write lock", "types/identifier.go ID")],
  "stateless model checking: exhaustive interleavings of the real code under a controlled scheduler, with a race detector pass",
  "Exhaustive for the drivers up to the preemption bound in DESIGN.md with sync replaced by a controlled scheduler at statement granularity; memory orderings below that are left to the race detector.", ["types.ID"])
p("C15", "Table definitions survive encoding unchanged",
  "Decoding an encoded table definition returns an identical definition: version, column names, types with size, fixedness, and nullability, key columns with direction, and indexes. In particular, every identifier decodes to the same identifier, whether it is a keyword, a quoted name spelled like one, or any other name; malformed encodings give an error and do not panic.",
  ["inputs", "configurations"], "every identifier known to the system and names spelled like them, every column type, every key over the bounded definitions, and every truncation and single byte change of an encoding",
  "Tests round trip a few identifiers and one definition; every name and every shape of a definition must survive.",
  ["engine/engine.go", "types/identifier.go", "storage/basic/basic.go"], [("identifiers are encoded as their text and whether they are keywords", "types/identifier.go GobEncode, GobDecode"), ("gob encoding of the definition", "engine/engine.go Encode, DecodeTableType")],
  INP, TRUST, ["engine.DecodeTableType"])
p("C16", "A new store is initialized to exactly the documented catalog",
  "Initializing an empty store creates the system and maho databases, the info and public schemas, and the system tables, each listed with its own definition and id, and nothing else, in one transaction. Everything listed can be opened and its stored rows agree with the listings, and the first table created later gets an id above every reserved one.",
  ["configurations"], "every listing, lookup, and definition in the catalog of an initialized store, through the engine and directly through the storage layer, and every storage call at which initialization can fail",
  "The test only checks that initialization returns no error.",
  ["engine/init.go", "engine/engine.go"], [("table of the system tables and their first rows", "engine/init.go initTables")],
  HIST, TRUST, ["engine.Init"])
p("C17", "The catalog of databases, schemas, and tables behaves as a tree of names",
  "Databases, schemas, and tables behave as a tree of unique names: creating fails if the parent is missing or the name exists, dropping fails if it is missing (unless told otherwise), dropping a database or schema removes everything in it, and listing and opening return exactly what exists with the definition it was created with. A failed operation changes nothing, and a rolled back transaction leaves the catalog as it was.",
  ["histories"], "every history of catalog operations over small sets of names (some with common prefixes), with commits and rollbacks, up to the depth bound",
  "Tests run scripts of single operations; orphans, prefix confusion, and leftovers after drops need histories.",
  ["engine/engine.go", "engine/typedtable.go"], [("catalog rows in system tables keyed by database, schema, and table", "engine/engine.go")],
  HIST, TRUST, ["engine.Transaction.ListSchemas", "engine.Transaction.ListTables", "engine.Transaction.OpenTable", "engine.Engine.ListDatabases"])
p("C18", "Table ids are unique, stable, and never reserved",
  "No two tables that have ever been committed have the same table id, even after drops, and no table has an id reserved for the system. A table keeps its id and definition for as long as it exists, however it is opened.",
  ["histories"], "every history of create, drop, commit, and rollback of tables up to the depth bound",
  "A test creates a few tables in a row; uniqueness must hold across rollbacks, drops, failures, and databases.",
  ["engine/engine.go", "engine/init.go"], [("a sequence row read and incremented in the creating transaction", "engine/engine.go nextTableId")],
  HIST, TRUST, ["engine.Table.TableId"])
p("C19", "Typed tables map structs to rows and back without loss",
  "For every supported struct type, the table definition follows the fields: column names, types, sizes, nullability, and key. Inserting, looking up, selecting, updating, and deleting through structs behaves exactly like the same operation on rows, every field value reads back equal (including NULL pointers and empty or missing bytes), and only the named columns of an update change. A struct with a field of any other type, or a tag which is not understood, is refused.",
  ["inputs", "histories"], "every field kind with boundary values, structs of up to hundreds of fields, every key shape, every bound pair and callback decision over small tables",
  "Tests use a few structs and values; the mapping must hold for every field kind, nullability, and value.",
  ["engine/typedinfo.go", "engine/typedtable.go"], [("reflection over the struct's fields and tags", "engine/typedinfo.go MakeTypedInfo"), ("conversion of fields to values and back", "engine/typedtable.go fieldToValue, RowToStruct")],
  INP, TRUST, ["engine.TypedTableSelect", "engine.TypedTableLookup"])
p("C20", "A session is a transaction state machine with autocommit",
  "Outside a transaction every statement is its own transaction: it is committed if it succeeds and rolled back if it fails. BEGIN opens a transaction which lasts until COMMIT or ROLLBACK; BEGIN inside one, COMMIT or ROLLBACK outside one, and creating or dropping a database inside one fail without effect, and a failed or unsupported statement never leaves a transaction open or the store locked.",
  ["histories", "fault_sequences"], "every sequence of statements up to the depth bound on a real engine against a model, and on a recording engine with a failure injected at every engine call",
  "Tests run a few scripts with a mock; the state machine must hold for every sequence and every failing call.",
  ["evaluate/session.go", "evaluate/evaluate.go"], [("the session's current transaction, or none", "evaluate/session.go Evaluate")],
  HIST + ", with exhaustive fault injection", TRUST, ["evaluate.Session.Evaluate"])
p("C21", "Names in statements resolve against the session's defaults",
  "In every statement that changes data or definitions (CREATE, ALTER, and DROP of tables, indexes, and schemas; COPY; INSERT, UPDATE, and DELETE), for the table or schema it is about, a name with its database given is used as is; a name without a database gets the session's database, and a table name without a schema either gets the session's schema. SET DATABASE, SET SCHEMA, and USE change the defaults for all later statements and nothing else, for this session only.",
  ["inputs", "histories"], "every statement kind with every form of name under every history of SET and USE in two sessions up to the depth bound",
  "Tests resolve a few names; each statement kind and each default history is a separate way to go wrong.",
  ["evaluate/session.go", "parser/sql/datadef.go", "parser/sql/query.go"], [("resolution of the names in each kind of statement before evaluation", "parser/sql Resolve; evaluate/session.go ResolveTable, ResolveSchema")],
  INP, TRUST, ["evaluate.Session.Evaluate"])
p("C22", "Concurrent transactions are serializable and never deadlock",
  "When sessions and transactions run on several threads, the outcome, including every value read, is the same as running the transactions one at a time in some order; no committed change is lost and no uncommitted change is seen. Every transaction gets to run once the others complete: there is no deadlock and no data race.",
  ["schedules"], "every interleaving (up to a preemption bound) of two and three threads of transactions on the same store, through the storage layer, the engine, and sessions",
  "No test runs transactions on more than one thread.",
  ["storage/basic/basic.go", "engine/engine.go", "evaluate/session.go"], [("one lock held from begin to commit or rollback", "storage/basic/basic.go Begin")],
  "stateless model checking: exhaustive interleavings of the real code under a controlled scheduler, with a race detector pass",
  "Exhaustive for the drivers up to the preemption bound in DESIGN.md with sync replaced by a controlled scheduler at statement granularity; memory orderings below that are left to the race detector.", ["storage.Store.Begin", "engine.Engine.Begin"])
p("C23", "The scanner divides text into the right tokens with the right values",
  "Scanning any text gives the tokens defined by the SQL lexical rules, each with its exact value: keywords and identifiers in any case, quoted identifiers, strings with doubled quotes, escapes, and continuation, bytes, integers over the whole 64 bit range, floats, operators of one and two characters, parameters, comments, and whitespace. A sign is part of a number only where an operand is expected, and a token's value never changes after it is returned.",
  ["inputs"], "every string up to the length bound over alphabets which exercise each lexical rule, and every sequence of tokens up to a length with every separator",
  "Tests scan lists of examples; maximal munch, comments, and continuation interact with whatever comes next.",
  ["parser/scanner/scanner.go", "parser/token/token.go"], [("a hand written scanner with one character of lookahead", "parser/scanner/scanner.go scan")],
  INP, TRUST, ["scanner.Scanner.Scan"])
p("C24", "Parsing any input terminates with statements or errors, never a crash",
  "For every input text, repeatedly parsing returns statements and errors and then end of file, in a number of calls bounded by the length of the input. It never panics, loops forever, or uses unbounded memory, and each call returns either an error or a statement (none only for an empty statement).",
  ["inputs"], "every sequence of tokens up to the length bound over the whole vocabulary, every short string over an alphabet of special characters, and every truncation and single token change of a set of statements",
  "Tests parse a list of good and bad statements; totality is about all inputs.",
  ["parser/parser.go", "parser/scanner/scanner.go"], [("panics carrying errors are recovered, and the rest of a bad statement is skipped", "parser/parser.go Parse")],
  INP, TRUST, ["parser.Parser.Parse"])
p("C25", "Expressions are grouped by operator precedence",
  "Every expression is parsed into the grouping given by the operators' precedence (concatenation, negation, multiplication, addition, bit operators, comparison, equality, NOT, AND, OR) with operators of the same precedence grouping from the left and parentheses respected. This also holds for IN, NOT IN, ANY, SOME, ALL, and IS NULL, and where the expression occurs makes no difference.",
  ["inputs"], "every expression over all operators up to the bound on the number of operators, with unary operators, parentheses, and subquery operators in every position",
  "Tests check about fifty expressions; grouping is decided by a rewriting step whose errors show for particular combinations.",
  ["parser/parser.go"], [("parse to the right and then rotate by precedence", "parser/parser.go adjustPrecedence")],
  INP, TRUST, ["parser.Parser.Parse", "parser.Parser.ParseExpr"])
p("C26", "A parsed statement says exactly what the text says",
  "For every statement in the documented grammar, the parsed statement contains exactly the names, options, flags, column types, sizes, constraints, actions, clauses, rows, and expressions in the text, in order, and nothing that is not in the text. Optional words that mean nothing and the case of keywords make no difference.",
  ["inputs", "programs"], "every derivation of the documented grammar of every kind of statement up to a bound on repetition, with every optional part present and absent",
  "Tests check examples of each statement; a clause dropped or swapped shows only for the right combination of options.",
  ["parser/parser.go", "parser/sql/datadef.go", "parser/sql/query.go"], [("recursive descent, one function for each statement", "parser/parser.go parseStmt")],
  INP, TRUST, ["parser.Parser.Parse"])
p("C27", "A stream of statements is parsed statement by statement",
  "A stream of statements separated by semicolons gives each statement in order, exactly as if it were parsed alone. A bad statement gives one error (and one for each further piece of it that is not a token) and does not affect any statement before it or any statement after its semicolon; an empty statement is reported as empty; the data of a COPY is left for its reader, character for character, and parsing resumes after it.",
  ["inputs", "histories"], "every sequence of good, bad, empty, and COPY statements up to the length bound, with every kind of separator",
  "Tests parse one statement at a time, and one or two streams; recovery depends on what precedes and follows.",
  ["parser/parser.go", "parser/scanner/scanner.go"], [("skip to the next semicolon after an error", "parser/parser.go Parse"), ("a reader of the rest of the input", "parser/scanner/scanner.go RuneReader")],
  INP, TRUST, ["parser.Parser.Parse"])
p("C28", "Printing a statement is total, deterministic, and parses back",
  "Every statement the parser returns can be printed without a panic, printing it again gives the same text, and printing does not change it. For statements whose printed form is SQL, parsing the printed text gives the same statement.",
  ["inputs", "programs"], "every statement enumerated from the grammar, printed, printed again, and, for the kinds where the form is SQL, parsed and printed again",
  "Tests print a few statements; a panic or an omitted clause shows only for the right combination of optional parts.",
  ["parser/sql/datadef.go", "parser/sql/query.go", "parser/sql/expr.go", "parser/sql/stmt.go"], [("a String method for each kind of statement, clause, and expression", "parser/sql")],
  INP, TRUST, ["sql.Stmt.String"])
p("C29", "Ill-formed definitions and statements are rejected",
  "The parser accepts exactly the statements of the documented grammar that break none of its rules. It rejects text that is not a statement of the grammar (a token missing, repeated, misplaced, or too many), and every statement that breaks a documented well-formedness rule: duplicate columns in a table, key, insert, copy, or using list; more than one primary key, duplicate constraint names or keys; repeated NOT NULL, DEFAULT, or ON actions; a constraint name without a constraint; unequal rows of VALUES; joins with a missing, double, or unexpected condition; out of range sizes. Everything the rules allow is accepted.",
  ["inputs"], "every combination, up to the bound, of columns, constraints, and clauses, each judged by the rules; every short sequence of tokens, and every change of one token of statements of every kind, judged by a recognizer of the grammar",
  "Tests try one example of each rule; whether a rule holds in every position and never rejects good input is over all combinations.",
  ["parser/parser.go"], [("checks while the definition is built", "parser/parser.go addKeyConstraint, addColumnConstraint, parseColumn, parseFromItem")],
  INP, TRUST, ["parser.Parser.Parse"])
p("C30", "An input error is reported, never mistaken for the end of the input",
  "If reading the input fails at any character, every statement that ended before that point is returned as usual, and then the error (not end of file, and not a statement made from part of the input) is returned, every time parsing is tried again. A reader that later succeeds does not cause a crash.",
  ["fault_sequences", "inputs"], "every position in every statement of a set covering every kind of token, with a persistent or a transient read error",
  "No test reads from a failing reader.",
  ["parser/scanner/scanner.go", "parser/parser.go"], [("a read error becomes an error token", "parser/scanner/scanner.go readRune")],
  FAULT, TRUST, ["parser.Parser.Parse"])
p("C31", "The console answers every statement in order and ends at end of input",
  "The console prints a prompt and then, for each statement of its input in order and without waiting for more input, the statement or one error, and ends normally at the end of the input. A bad statement does not end it or affect the statements that follow.",
  ["inputs", "histories"], "every sequence of good, bad, and empty statements up to the length bound, run through the built program",
  "There is no test of the program.",
  ["main.go", "parser/parser.go"], [("the read and print loop", "main.go main")],
  INP, TRUST, ["stdout of the maho program"])
p("C32", "Committed data survives a restart",
  "After a commit, the data is there when the program is stopped at any point and started again. Uncommitted data is not.",
  ["crash_points"], "every point at which the program can stop", "There is nothing to test: the only store keeps everything in memory.",
  ["storage/basic/basic.go"], [("none: the data directory is not used", "storage/basic/basic.go NewStore")], "", "", na="The only storage engine in this tree keeps its data in memory and does not use its data directory; there is no durable state, so there is no crash point to enumerate and nothing that promises durability.")
p("C33", "Every token and error is reported at its true line and column",
  "The position reported with each token is the line and column of its first character, counting lines from one and columns from one in characters, whatever whitespace, comments, multi-line strings, and earlier tokens precede it. The position named in a parse error is the position of the token that was not expected, and the line reported for COPY data is the line where the data starts.",
  ["inputs"], "every sequence of tokens, comments, and line breaks up to the length bound",
  "Tests check the positions of a few tokens; positions depend on everything read before.",
  ["parser/scanner/scanner.go", "parser/parser.go"], [("line and column counted as characters are read", "parser/scanner/scanner.go readRune")],
  INP, TRUST, ["scanner.ScanCtx.Position"])
p("C34", "A failing storage call fails the operation cleanly",
  "If any storage call made by a catalog operation (other than closing a cursor) fails, the operation returns an error and is not reported as a success or as something not being found, every cursor it opened is closed, and if it began a transaction then that is rolled back exactly once and never committed. After the failure the store is not locked, and an operation with its own transaction that failed has had no effect.",
  ["fault_sequences"], "every catalog operation, with a failure injected at each storage call it makes in turn",
  "No test injects a failure into the storage layer.",
  ["engine/engine.go", "engine/typedtable.go", "engine/init.go"], [("errors are returned and cursors closed by deferred calls", "engine/typedtable.go typedTableSelect"), ("rollback on error", "engine/engine.go withTransaction")],
  FAULT, TRUST, ["engine.Engine", "engine.Transaction"])
p("C35", "A definition statement changes the catalog exactly as it says",
  "Evaluating a definition statement (CREATE or DROP of a DATABASE, SCHEMA, or TABLE) from its text does exactly what the text says: CREATE TABLE adds one table with exactly the columns, column types, sizes, and NOT NULLs of the text, in order, and as its key the columns and directions of its PRIMARY KEY however that is written; CREATE of what exists fails (or does nothing with IF NOT EXISTS, leaving the definition as it was), DROP removes what it names and nothing else (and fails, or does nothing with IF EXISTS, if that is missing; a list of tables is dropped all or none). CREATE INDEX and DROP INDEX ask the engine for exactly the named index, key columns, and directions; an index which exists already or a key column which does not exist is refused without asking.",
  ["inputs", "histories"], "every definition statement of the generator, with what it names existing to every extent, alone and in transactions; every sequence of a set of definition statements up to the depth bound",
  "The tests evaluate no CREATE TABLE from text to catalog with keys; which columns end up in the key in which direction depends on the whole statement, and what is left alone on the rest of the catalog.",
  ["evaluate/evaluate.go", "evaluate/session.go", "engine/engine.go", "parser/parser.go"], [("key columns are looked up by name in the columns of the table", "evaluate/evaluate.go indexKeyToColumnKey"), ("existence is checked before anything is changed", "evaluate/evaluate.go EvaluateDropTable")],
  INP, TRUST, ["engine.Transaction.OpenTable", "engine.Engine.ListDatabases"])
p("C36", "What threads do not share, they do not affect",
  "Scanning, parsing, printing, converting, comparing, encoding, and decoding have no hidden state: whatever other threads are doing with parsers, statements, rows, and definitions of their own, each thread gets exactly what it gets alone. What is only read (a parsed statement being printed, a row being encoded or converted, a definition, a struct's description, a session's defaults) can be used by several threads at once. There are no data races and no deadlocks.",
  ["schedules"], "every interleaving (up to a preemption bound) of two and three threads, each parsing its own input (with every character read a scheduling point) or using one of the other functions",
  "No test does any of this on more than one thread; hidden state shows only if another thread runs in the middle.",
  ["parser/parser.go", "parser/scanner/scanner.go", "parser/sql/query.go", "types/value.go", "encode/key.go", "engine/typedinfo.go"], [("all state is in the parser and the scanner", "parser/parser.go Parser; parser/scanner/scanner.go Scanner"), ("package variables are never changed after initialization", "token.Format, types.ID tables aside")],
  "stateless model checking: exhaustive interleavings of the real code under a controlled scheduler, with a race detector pass",
  "Exhaustive for the drivers up to the preemption bound in DESIGN.md, preempting at every character read, every synchronization operation, and every statement of functions which use package variables; memory orderings below that are left to the race detector.", ["parser.Parser.Parse", "sql.Stmt.String"])

built = set(sys.argv[1].split(",")) if len(sys.argv) > 1 else None
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        o = dict(id=x["id"], title=x["title"], statement=x["statement"],
                 quantifier=dict(over=x["over"], text=x["text"]), why_tests_cant=x["why"],
                 anchors=dict(files=x["files"], mechanism=[dict(name=n, where=w) for n, w in x["mech"]],
                              observe_at=x["observe"], hook_needed=None))
        f.write(json.dumps(o) + "\n")
import glob, re
if built is None:
    built = set()
    for g in glob.glob(os.path.join(HERE, "mc", "*.go")) + glob.glob(os.path.join(HERE, "sched", "*.go")):
        built |= set(re.findall(r'checks\["(C\d\d)"\]', open(g).read()))
m = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[])
for x in P:
    if x["na"]:
        m["not_applicable"].append(dict(property=x["id"], reason=x["na"]))
    elif x["id"] in built:
        m["checks"].append(dict(property=x["id"], quick_cmd="./run.sh " + x["id"],
            thorough_cmd="VERIF_TIER=thorough ./run.sh " + x["id"], technique=x["technique"],
            level="model_checking", level_note=x["note"]))
    else:
        m["not_applicable"].append(dict(property=x["id"], reason="Decidable by bounded model checking; the check is not built yet."))
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties;", len(m["checks"]), "checks")
