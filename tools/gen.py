#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "recovery/ibdata/parse.go"
R = "recovery/redo/parse.go"
M = "recovery/redo/mlog.go"
U = "recovery/utils/utils.go"
F = "recovery/ibdata/format.go"
T = "recovery/ibdata/todo.go"
S = "recovery/ibdata/structure.go"
L = "recovery/logs/logs.go"
C = "cmd/db-recovery/command.go"
props = []

def p(id, title, statement, over, text, why, files, mech, technique, note, observe=("statements on standard output",)):
    props.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      technique=technique, note=note, observe=list(observe)))

TRUST = " Trusted: the reference writer of InnoDB 5.7 pages/logs in /verif/mc/innodb (written from the MySQL format, never from the tool), the SQL reader in /verif/mc/sqlp."

p("C01", "A dump prints exactly the live rows of the data file",
  "Printing a table's data file (any operation other than RecoveryData) gives exactly one statement for every live row of its clustered index, with the values of that row, and none for deleted rows (purged, or only delete-marked so far) or overwritten contents. This holds for pages that went through any history of inserts, deletes, purges, in-place updates and updates that move the row, in COMPACT and REDUNDANT format.",
  ["histories", "inputs"], "every history of row operations on a clustered leaf page (free space reuse included), every table",
  "the tests parse one or two absent sample files; none builds pages with a reuse history",
  [P, U], [("walk of the record list", P), ("page header fields", P)],
  "explicit-state model checking of page histories, every state replayed on the real parser",
  "All reachable page structures over 3 keys x 2 payload sizes up to depth 5 (quick) / 7 (thorough), both row formats; every state is an executed comparison of the real parser with the model." + TRUST)
p("C02", "Recovery prints exactly the deleted rows the page still holds",
  "With RecoveryData the tool prints exactly one replace statement for every deleted row of the table's clustered leaf pages - those on the free lists (PAGE_FREE) and those that are delete-marked but not purged yet - with the values the row had, and none for live rows. This holds for pages that went through any history of inserts, deletes, purges, in-place updates and updates that move the row, in COMPACT and REDUNDANT format.",
  ["histories", "inputs"], "every history of row operations on a clustered leaf page (free space reuse included), every table",
  "the tests never look at a free list; what is on it depends on the order of deletions and reuse",
  [P, U], [("walk of the free list", P)],
  "explicit-state model checking of page histories, every state replayed on the real parser",
  "As C01, for the free list." + TRUST)
p("C03", "COMPACT rows are read correctly for every layout, NULL pattern and length",
  "For a table in COMPACT row format, every row is printed with the right value in every column: whatever the number, order, kinds (fixed, variable, NULL, NOT NULL) of the columns, the character set of its CHAR, VARCHAR and TEXT columns, the pattern of NULLs, and the length of each variable-length value that is stored in the row. This holds for dump and for recovery.",
  ["inputs", "configurations"], "every table definition, NULL pattern and combination of stored lengths (in-row columns)",
  "layouts are a product of column count, kinds, NULLs and lengths; tests sample none",
  [P, U], [("NULL bitmap and length bytes of COMPACT records", P), ("fixed/variable column sizes", P)],
  "exhaustive bounded enumeration of layouts against a reference encoder, on the real parser",
  "All tables of up to 4 (5) columns over 6 kinds with every NULL pattern; bitmaps up to 12 nullable columns, sparse patterns up to 65; every length 0..700 and boundaries of 27 types; boundary length pairs; CHAR/VARCHAR/TEXT of every collation of 5.7. Off-page values are C21." + TRUST)
p("C04", "REDUNDANT rows are read correctly for every layout, NULL pattern and length",
  "For a table in REDUNDANT row format, every row is printed with the right value in every column: whatever the number, order, kinds (fixed, variable, NULL, NOT NULL) of the columns, the character set of its CHAR, VARCHAR and TEXT columns, the pattern of NULLs, and the length of each variable-length value that is stored in the row (records with one-byte and with two-byte field offsets). This holds for dump and for recovery.",
  ["inputs", "configurations"], "every table definition, NULL pattern and combination of stored lengths (in-row columns)",
  "layouts are a product of column count, kinds, NULLs and lengths; tests sample none",
  [P, U], [("field end offsets of REDUNDANT records", P)],
  "exhaustive bounded enumeration of layouts against a reference encoder, on the real parser",
  "As C03 in REDUNDANT format." + TRUST)
p("C05", "Integer, ENUM/SET, BIT and YEAR values are printed exactly",
  "Every value of TINYINT, SMALLINT, MEDIUMINT, INT and BIGINT (signed and unsigned), of ENUM and SET (their number, without quotes, as a quoted number may be the name of another member), of BIT columns of 1 to 8 bytes (as a bit literal) and of YEAR, including NULL, is printed as a literal that MySQL reads back as the same value.",
  ["inputs"], "every value of every integer-like type",
  "the domains have up to 2^64 values and the defects sit at sign bits and byte boundaries",
  [P, U, F], [("GetIntValue / GetUintValue", U), ("value conversion", P), ("literal formatting", F)],
  "exhaustive enumeration of value domains on the real parser against a reference encoder",
  "All values of 1- and 2-byte domains (3-byte in thorough), all powers of two and of ten +-1, sums of two powers, all byte patterns over boundary alphabets for the wider ones." + TRUST)
p("C06", "DATE, TIME, DATETIME, TIMESTAMP values are printed exactly",
  "Every value of DATE, TIME, DATETIME and TIMESTAMP, with 0 to 6 decimals of a second, of tables created by MySQL 5.6/5.7 or by earlier versions (whose TIME, DATETIME and TIMESTAMP are integers), including zero values, zero months and days, negative and large TIMEs and NULL, is printed as a literal that MySQL reads back as the same value (TIMESTAMP in the time zone of the process).",
  ["inputs"], "every value of every temporal type",
  "packed formats have many field boundaries; the tests cover none",
  [P, U, F], [("unpacking of temporal values", P)],
  "exhaustive enumeration of value domains on the real parser against a reference encoder",
  "DATE: all months and days of all (quick: boundary) years; TIME: both signs, all (boundary) hours, minutes, seconds; DATETIME and TIMESTAMP over boundary dates x times. fractions: every digit and byte boundary for 1..6 decimals; the integer formats of 5.5 over the same values; TZ=UTC." + TRUST)
p("C07", "Text, binary, LOB and float values survive the statement",
  "Every CHAR, VARCHAR, TEXT, BINARY, VARBINARY, BLOB value stored in the row is printed as a literal that MySQL reads back as the same bytes (only the padding of CHAR and BINARY is immaterial), whatever bytes it contains - quotes, backslashes, NULs, line ends, text that looks like NULL, a date or SQL - so that the output always parses into one statement per row. FLOAT and DOUBLE literals read back as the same number.",
  ["inputs"], "every byte string, every finite floating point number",
  "escaping is a property of all strings; tests contain none",
  [P, F, U], [("escaping and quoting", F), ("padding", P)],
  "exhaustive enumeration of short strings and byte pairs on the real parser, output re-read by a SQL lexer",
  "All strings of up to 3 bytes over a special alphabet, all bytes and byte pairs, 75 special words alone/embedded/paired, in 13 types; all float exponents with boundary mantissas." + TRUST)
p("C08", "Rows come out in declared column order for every key",
  "Whatever clusters the table - a PRIMARY KEY over any columns or first characters of columns in any order, the first UNIQUE NOT NULL key, or no key at all - and whatever secondary indexes it has, dump and recovery print the values of each row in the declared order of the table's columns, none missing and no hidden column among them.",
  ["configurations", "inputs"], "every key over every table shape",
  "the stored order is a function of the key definition; tests use one",
  [P, S], [("order of the clustered index fields", P)],
  "exhaustive enumeration of key definitions on the real parser against a reference encoder",
  "Every ordered key over tables of 1..4 (5) columns, keys by PRIMARY/UNIQUE/none, 0..2 secondary indexes, key column kinds. Tables of 20..1017 columns. Keys of the first characters of columns of 10 (16) string types, alone and composite, with virtual columns." + TRUST)
p("C09", "The data dictionary is read right however it is arranged",
  "The definition of every table in the system tablespace is found and is right however the dictionary rows are distributed over leaf pages and the pages are ordered in the file, whatever purged rows, delete-marked rows of renamed or dropped tables and indexes, tree nodes of any level, doublewrite copies, foreign and unused pages the file also holds. Only the exact (database, table) pair is used: an unknown table gives an error and no statement.",
  ["inputs", "configurations"], "every arrangement of the dictionary in the system tablespace",
  "a real system tablespace is one arrangement; tests have none",
  [P, S], [("reading SYS_TABLES, SYS_COLUMNS, SYS_INDEXES, SYS_FIELDS", P), ("table lookup", P)],
  "exhaustive enumeration of dictionary arrangements on the real parser against the definitions",
  "All cuts of each dictionary table into 2..3 leaves and all page orders, interleavings of all four, trees of three levels, purged and delete-marked rows, 1..60 tables, foreign pages, lookups. File-per-table tables; freed dictionary pages out of scope." + TRUST)
p("C10", "Only pages of the table's clustered index give rows, wherever they are",
  "Rows are printed from every clustered leaf page of the data file at whatever position, and from no other page: not from node pages, secondary index pages, LOB, allocation or unused pages, whatever they contain. This holds for dump and for recovery, for files of any number of pages.",
  ["inputs"], "every sequence of pages",
  "page mixes are unbounded; tests use one file",
  [P], [("page type and index id checks", P), ("page scan", P)],
  "exhaustive enumeration of page sequences on the real parser against the model",
  "Every sequence of 1..3 (4) pages over 14 kinds; rows at every position of files up to 40 pages." + TRUST)
p("C11", "A damaged page costs no rows of other pages and never crashes or hangs",
  "Whatever bytes a damaged data file or dictionary holds - overwritten bytes, wrong pointers, cyclic record lists, torn pages, a file cut anywhere - the tool ends without crash or hang, and for a damaged data file every row of the undamaged pages is still printed exactly as it is. Bytes that the rows do not depend on change nothing.",
  ["fault_sequences", "inputs"], "every single-byte, pointer, pointer-pair, torn-sector and truncation fault of a small tablespace",
  "the input of a recovery tool is damaged by definition; no test has a damaged file",
  [P, U], [("per-page recover", P), ("cycle detection of record lists", P)],
  "exhaustive fault enumeration on the real parser, containment compared with the model",
  "Faults enumerated on a 3-leaf tablespace and a small dictionary, see evidence; bytes that the rows do not depend on (31 regions of a page, all single bytes, pairs or triples of regions, the idle bytes of the dictionary): all rows exact; damaged page itself: any output that parses per statement is accepted." + TRUST)
p("C12", "A parser gives the same result whatever it read before",
  "Each dump, recovery or redo log reading gives exactly what a fresh parser gives, whatever files, tables, failures or damaged inputs the same parser or other parsers of the process handled before.",
  ["histories"], "every sequence of calls on long-lived parsers",
  "tests call each parser once",
  [P, R, U], [("shared parser state", P), ("shared parser state", R)],
  "exhaustive enumeration of call sequences on the real parsers against fresh-parser results",
  "All sequences of 1..3 (4) calls out of 15 dump-side and 6 redo-side calls, and of reads of changed dictionaries." + TRUST)
p("C13", "Each row update in the redo log gives its old values as one statement",
  "For every update undo record in the redo log the tool prints one update statement that sets exactly the updated columns to their values before the update, with the row's key columns and values, as literals that MySQL finds equal to them, (of a key over the first characters of a column: those) in its condition, for any table, key, NULLs, values, ids and lengths; statements come in log order. Insert and delete undo records, and updates of tables that are not in the dictionary, give none and disturb no other.",
  ["inputs", "configurations"], "every update undo record of every table",
  "the test parses one absent log file; the encodings have many boundaries",
  [R, M, F], [("undo record parsing", R), ("compressed numbers", U), ("statement printing", R)],
  "exhaustive enumeration of undo records on the real redo parser against a reference encoder",
  "All tables of 1..3 columns x keys x changed sets x NULLs, boundary values of all types, all boundaries of compressed ids, every length 0..600, all undo record kinds and flags. The condition of tables without any key is not checked." + TRUST)
p("C14", "Every redo log record is passed over by exactly its length",
  "Every type of redo log record of MySQL 5.7, with any parameters, alone or within a mini-transaction, is read to exactly its end, so that the updates that stand before, within and after it are all printed and nothing else is.",
  ["inputs", "histories"], "every sequence of redo records of all types",
  "one wrong length loses all later updates; the types and parameters were never sampled together",
  [R, M, U], [("per-type record parsers", M), ("record loop", R)],
  "exhaustive enumeration of record types, parameters and sequences on the real redo parser",
  "306 records (47 types x boundary parameters) alone, in every ordered pair, and every triple of types in a mini-transaction." + TRUST)
p("C15", "Updates are found wherever they lie in log blocks and log files",
  "An update is printed with its exact values wherever its record lies in the log: at any offset in a block, crossing one or many blocks or the end of a log file, as the last record of the log; log files given in order are read as one log, and bytes behind the end of the data in a block are never used.",
  ["inputs", "configurations"], "every offset, record size, number of blocks per file",
  "block boundaries are hit at 1 of 496 offsets; tests hit whatever one file has",
  [R], [("joining of block data", R)],
  "exhaustive enumeration of offsets, sizes and file splits on the real redo parser",
  "All 496 offsets x value sizes x 1..3 (7) blocks per file x stale bytes; each of 47 record types at every offset. Wrapped logs: C24." + TRUST)
p("C16", "The database and table filters select exactly what they name",
  "Redo recovery prints the updates of exactly the tables that the given database name and table name match exactly; an empty name matches all.",
  ["inputs", "configurations"], "every combination of filters and sequence of updates",
  "tests run one pair of names",
  [R, C], [("filter in the undo record parser", R)],
  "exhaustive enumeration of update sequences and filters on the real redo parser",
  "All sequences of 1..2 (4) updates over 6 tables x 8 database x 7 table filters." + TRUST)
p("C17", "A damaged or cut redo log costs no update before the damage",
  "Whatever bytes a damaged redo log holds - any byte changed, cut anywhere, impossible lengths - the tool ends without crash or hang, every update before the damage is printed exactly, and what is printed is always SQL; damage inside one undo record (its own length intact) costs no later update either.",
  ["fault_sequences", "inputs"], "every single-byte fault, cut and header value of small logs",
  "tests have no damaged log",
  [R, M, U], [("bounds of undo records", R), ("end-of-log handling", R)],
  "exhaustive fault enumeration on the real redo parser, containment compared with the model",
  "Every byte of undo records x all 256 values, cuts at every length, every header byte and all 65536 block lengths, every byte of a log of all record types x 9 values." + TRUST)

MN = "cmd/db-recovery/main.go"
p("C18", "The command line gives the recovery's result, or a status and a message",
  "However the options of the tool are ordered and written (long form with = or a blank, the global options before or after the subcommand), a successful run prints exactly the statements of the files and exits with status 0; a run that cannot do what was asked (a file that is missing, a directory, empty or no data file, an unknown table, missing or unknown options) exits with another status, says so, and prints no statement.",
  ["configurations", "inputs"], "every command line of the two subcommands",
  "no test runs the program; status and messages depend on option order and kind of failure",
  [C, MN, P, R], [("option parsing and exit status", C), ("failure reporting", P)],
  "exhaustive enumeration of command lines, each run on the built program, statements checked against the model",
  "All combinations of operation, log level, log path, flag order, flag spelling and place of the global options; a list of failing command lines of every kind. The program is built from /repo's tree and run." + TRUST)
p("C19", "The log level chooses messages and never changes the result",
  "A message of the log functions is in the log files of the given path exactly when the level set last admits it, for every sequence of level changes; a failed run leaves its error in the log files at every level from error on; and no level or log path changes the statements or the exit status of a run.",
  ["histories", "configurations"], "every level, log function and sequence of level changes",
  "tests call the log functions and check nothing",
  [L, C], [("level check of each log function", L), ("log set-up and flush", C)],
  "exhaustive enumeration of level sequences x log functions, and of runs x levels on the built program",
  "All level names in three spellings x 11 functions; all sequences of up to 3 (4) level changes; all runs x levels. Log functions are called after flag.Parse, as the tool does." + TRUST,
  observe=("log files in the log path", "statements on standard output", "exit status"))
p("C20", "What one read of a file returns does not matter",
  "The dictionary, data file and redo log give the same result when the operating system returns fewer bytes from a read than were asked for (as a pipe does), wherever the short reads happen.",
  ["fault_sequences"], "every split of the input into reads",
  "regular files never return short reads in a test",
  [U, P, R], [("reading of pages and blocks", U)],
  "exhaustive enumeration of short-read points through a FIFO on the real parsers",
  "One short read at each offset of a grid and next to every page and block boundary; even pieces of many sizes." + TRUST)

p("C21", "Values stored on other pages are read in full and stay apart from the rest",
  "A long TEXT, BLOB, VARCHAR or VARBINARY value, part or all of which is stored on LOB pages of the data file, is printed in full, whatever its length and wherever its pages lie in the file, in COMPACT, REDUNDANT and DYNAMIC row format; the row's other columns and the other rows are exact, also when LOB pages are damaged, missing or cyclic (then only what is printed for that value is undefined). An update in the redo log whose old values include such values gives a statement with its other columns, and no made-up value for these.",
  ["inputs", "configurations", "fault_sequences"], "every length, chain of LOB pages, combination of off-page columns and damage to the chain",
  "the tests have no table with long values; lengths around page multiples and page orders are unbounded",
  [P, U, M], [("fields flagged as external", P), ("field offsets", U), ("old values in undo records", M)],
  "exhaustive enumeration of lengths, page chains, column patterns and chain damage on the real parsers against a reference encoder",
  "Lengths around 1..3 (4) pages, chains of up to 4 (5) pages in every order, all 27 patterns of three columns for two rows, 8 kinds of chain damage with 24 values each, all patterns of 4 logged columns. Not for compressed pages (KEY_BLOCK_SIZE)." + TRUST)

p("C22", "Columns without a value of their own disturb no other column",
  "Tables whose columns are not all plain values, that is virtual generated columns (not in the row), the hidden FTS_DOC_ID column (in the row, but not in any statement), DECIMAL (printed without its scale), JSON and GEOMETRY (printed as bytes), are dumped, recovered and read from the redo log with every other column exact: a row's statement has DEFAULT or nothing for each virtual column and a value for each other visible column in declared order, an update sets the visible stored columns that changed and no other, and nothing but statements is printed.",
  ["inputs", "configurations"], "every arrangement of such columns, keys, row formats, values and undo records",
  "the tests have no such column; which columns come before and behind one, and which of them are NULL or changed, is unbounded",
  [P, F, M, U], [("virtual columns of the dictionary", P), ("values in statements", F), ("virtual columns in undo records", M), ("types", U)],
  "exhaustive enumeration of column arrangements, types, sizes and changed sets on the real parsers against a reference encoder",
  "Up to 3 (4) columns besides the key, 3 kinds of FTS_DOC_ID, all sizes of DECIMAL 1..30, 13 lengths of JSON and GEOMETRY, up to 3 (4) changed columns. The value of a DECIMAL is not checked (only NULL or not); STORED generated columns cannot be told from plain ones." + TRUST)

p("C23", "Names are found and printed as the server knows them",
  "A database, table or column with any name, also with backticks, spaces, dots, dashes, quotes, letters of other alphabets or things that look like codes, is found by its name for dump, recovery and as a filter of the redo log, and the statements name it in backticks so that a server understands them as that name; a table whose own name looks like the coded name of another is not taken for it.",
  ["inputs"], "all names of databases, tables, keys and columns",
  "the tests use plain names; the names are any strings",
  [P, F, M, U], [("database and table of a dictionary row", P), ("names in statements", F), ("filters", M), ("quotes and codes", U)],
  "exhaustive enumeration of names by character, place and role on the real parsers, statements read back by a SQL parser",
  "All ASCII characters and 9 others in 5 places and 5 roles, all pairs of 40 words; thorough: all strings of up to 5 out of 13 characters. Letters that the server codes with two letters or digits (accented European letters) are out of scope." + TRUST)

p("C24", "A log that wrapped or lost a block gives all updates that are still whole",
  "The log files are written in a circle. Whatever the log has overwritten of itself, wherever in the files its newest block lies and whatever its block numbers, all updates whose records are still there in full are printed, oldest first, and nothing else is printed from the remains of overwritten ones. A block that is empty or has an impossible data length costs only the updates whose records reach into it.",
  ["histories", "configurations", "fault_sequences"], "every length of the log against the size of the files, place of the newest block, record pattern, block numbers, lost block",
  "the tests have one log which never wrapped; a server's log has wrapped nearly always, at any offset",
  [R], [("order and joining of blocks", R), ("block header", R)],
  "exhaustive enumeration of circular log histories (every number of blocks written over a set of slots, every lost block) on the real redo parser against a model of the circle",
  "1..3 files of 1..4 (7) blocks, up to two times overwritten and ending in every slot with 3 (6) fill states, 5 record patterns (records of up to 16 blocks), 0..2 empty blocks behind the end, numbers from 17 and across 2^30; for up to 8 slots each slot lost in 5 ways. All log files must be given, in order." + TRUST)

exec(open(os.path.join(ROOT, "tools", "more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "more.py")) else None

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for q in props:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps({
            "id": q["id"], "title": q["title"], "statement": q["statement"],
            "quantifier": {"over": q["over"], "text": q["text"]},
            "why_tests_cant": q["why"],
            "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]],
                        "observe_at": q["observe"], "hook_needed": None},
        }) + "\n")
m = {"version": 1, "setup_cmd": "./run.sh build",
     "hooks": {"guard": "verif", "enable": "no hooks: the checks drive the unmodified code", "source_commits": []},
     "checks": [{"property": q["id"], "quick_cmd": "./run.sh check %s quick" % q["id"],
                 "thorough_cmd": "./run.sh check %s thorough" % q["id"],
                 "evidence_file": "evidence/%s.json" % q["id"],
                 "technique": q["technique"], "level": "model_checking", "level_note": q["note"]} for q in props],
     "not_applicable": [],
     "notes": "All checks are one Go program (/verif/mc) linked with /repo's packages; see DESIGN.md."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
