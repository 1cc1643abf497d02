#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (kept in one place so that they stay in step)."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
sys.dont_write_bytecode = True
E = "server/src/engine/"
H, I, S, C, F, CF, PR = "histories", "inputs", "schedules", "crash_points", "fault_sequences", "configurations", "programs"


def m(name, where):
    return {"name": name, "where": E + where if not where.startswith(("server", "cli")) else where}


P = []


def prop(id, title, statement, over, text, why, files, mech, observe=("query responses on the wire",), level_note="", na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[E + f if not f.startswith(("server", "harness", "cli")) else f for f in files],
                  mech=mech, observe=list(observe), level_note=level_note, na=na, state=state))


# ------------------------------------------------------------------ data
prop("D01", "Stored values come back exactly as written",
     "Whatever value an accepted INSERT or an assigning UPDATE stores in a column, every later SELECT of that column returns exactly that value, "
     "bit for bit, with the declared type of the column, until the row is changed or deleted. This holds for every scalar type over its full range, for null in "
     "nullable columns, and for lists of any length and nesting, whatever the other columns hold and whichever form of INSERT or SELECT is used.",
     [I, H], "every model definition, every value of each column type (including boundaries, empty, oversized and non-ASCII ones), every order of writes and reads",
     "The existing tests store a handful of small literals and compare in-process cells; the wire encoding of most types and the boundaries are not reached.",
     ["data/cell.rs", "data/lit.rs", "data/tag.rs", "core/dml/ins.rs", "core/dml/sel.rs", "core/query_meta.rs", "net/protocol/mod.rs", "ql/lex/mod.rs", "mem/numbuf.rs"],
     [m("typed cell storage and wire encoding", "data/cell.rs"), m("parameter decoding", "ql/lex/mod.rs"), m("response encoding", "core/dml/sel.rs")])
prop("D02", "Ill-typed and out-of-range writes are refused",
     "An INSERT or UPDATE that would leave a column holding a value outside of its declared type is refused with an error: another type class, an integer or float outside "
     "of the declared width, null in a column that is not nullable, a list whose depth or element type differs, a missing, unknown or surplus column. "
     "No later read ever returns a value that is outside of the declared type of its column.",
     [I, H], "every model definition and every single defect at every column and list position",
     "The unit tests probe one mismatch per type at one position and never mix defects with valid columns, positions or stored state.",
     ["core/model/mod.rs", "core/dml/ins.rs", "core/dml/upd.rs", "data/tag.rs"],
     [m("layer validation of each written value", "core/model/mod.rs"), m("UPDATE operator table", "core/dml/upd.rs")])
prop("D03", "A primary key identifies exactly one row",
     "Each model behaves as a map from primary key to row: an INSERT succeeds exactly when no row with an equal key is stored and is otherwise refused as a duplicate leaving the row unchanged, "
     "and SELECT, UPDATE and DELETE by key find the row exactly when it is stored. Keys are equal only when their type and payload are identical, so keys that merely look alike never alias one another.",
     [I, H], "every key type, every pair of near-equal keys, and every history of inserts, deletes and re-inserts of any length",
     "Tests insert a few distinct keys; aliasing, index growth, deletion and re-insertion over long histories need generated key pools.",
     ["core/index/key.rs", "core/index/mod.rs", "idx/mtchm/mod.rs", "idx/mtchm/patch.rs", "core/dml/ins.rs", "core/dml/del.rs"],
     [m("key equality and hashing", "core/index/key.rs"), m("concurrent trie index", "idx/mtchm/mod.rs")])
prop("D04", "UPDATE computes exactly or changes nothing",
     "An accepted UPDATE applies its assignments from left to right with exact integer arithmetic (division truncates toward zero), double precision float arithmetic, concatenation for "
     "strings and binaries and appending for lists. "
     "When any assignment cannot be applied (overflow, underflow, division by zero, a non-finite result, wrong operator or type, unknown column, the primary key, or a null operand) the statement is "
     "refused and no column of the row changes.",
     [I, H], "every column type, operator, operand, stored value and combination of assignments in one statement",
     "Tests cover one operator per type on small operands; overflow boundaries and partially applicable statements are not sampled.",
     ["core/dml/upd.rs", "ql/dml/upd.rs", "data/lit.rs"],
     [m("operator table and staged application", "core/dml/upd.rs")])
prop("D05", "SELECT ALL returns exactly the live rows",
     "SELECT ALL on a model returns each stored row exactly once, with the requested columns in the requested order, and never a deleted or refused row. With a limit it returns exactly "
     "min(limit, number of rows) distinct rows.",
     [I, H], "every history of inserts, updates and deletes (including growth to thousands of rows and shrinking), every limit and every projection",
     "One unit test selects a handful of rows; iteration over a concurrent trie of any shape and history is not covered.",
     ["core/dml/sel.rs", "idx/mtchm/iter.rs", "ql/dml/sel.rs"],
     [m("index iteration", "idx/mtchm/iter.rs"), m("row serialisation with limit", "core/dml/sel.rs")])
prop("D06", "Statements act only on the row their WHERE names",
     "SELECT, UPDATE and DELETE by WHERE read or change only the row whose primary key equals the given value; every other row of every model stays as it was. A WHERE that "
     "is anything but a single equality on the primary key with a value of the key's type class is refused and changes nothing.",
     [I, H], "every clause built from any column, operator, value class and number of conjuncts, in any order, over any stored rows",
     "Tests only use the one well-formed clause; refused forms and effects on bystander rows are not examined.",
     ["core/dml/mod.rs", "core/dml/upd.rs", "core/dml/del.rs", "core/dml/sel.rs", "ql/dml/mod.rs"],
     [m("clause resolution to the primary key", "core/dml/mod.rs")])
prop("D07", "A refused statement leaves no trace",
     "A statement that is answered with an error changes nothing: no row, model, space or column is created, changed or removed by any part of it, and what INSPECT and SELECT report before and after is identical. "
     "The same holds after the server has been shut down and started again.",
     [I, H], "every statement kind, every way of being refused, and every state it is refused in",
     "Unit tests check the error value but hardly ever the state left behind, and never after a restart.",
     ["core/dml/ins.rs", "core/dml/upd.rs", "core/model/alt.rs", "core/model/mod.rs", "core/space.rs", "core/exec.rs"],
     [m("validate-then-apply in ALTER MODEL", "core/model/alt.rs"), m("duplicate and existence checks before commit", "core/model/mod.rs"), m("insert preparation", "core/dml/ins.rs")])
prop("D08", "Insert-time functions give fresh, well-formed, typed values",
     "In an INSERT, @uuidstr() stores a canonical version-4 UUID string, @uuidbin() a 16-byte version-4 UUID and @timesec() the server's UNIX time in seconds at execution; every UUID produced differs from all others. "
     "The stored value is constant afterwards, and using a function where its type does not fit, with arguments, or with an unknown name is refused.",
     [I, H], "every position of each function in tuple and map inserts, any number of executions, over several connections",
     "Debug builds replace the functions by constants, so the existing tests cannot see them at all.",
     ["ql/dml/ins.rs", "data/uuid.rs", "core/dml/ins.rs"],
     [m("function table of INSERT", "ql/dml/ins.rs"), m("UUID generation", "data/uuid.rs")])
# ------------------------------------------------------------------ catalogue
prop("M01", "The catalogue follows the DDL that was accepted",
     "A space or model exists exactly from the CREATE that was accepted until the DROP that was accepted: creating an existing one, dropping one that is absent, dropping a non-empty one without ALLOW NOT EMPTY, and invalid definitions are refused, "
     "and the IF [NOT] EXISTS forms answer whether something was done instead of failing. INSPECT GLOBAL, SPACE and MODEL always report exactly the existing spaces, models, declarations and row counts, and whatever is created under a name that was "
     "used before starts out empty. ALTER SPACE merges the given properties into those of the space: a property that would change its type is refused (and then nothing changes), null removes one, everything else is kept.",
     [I, H], "every history of CREATE, ALTER and DROP statements mixed with row writes",
     "Tests run single DDL statements against a fresh catalogue; histories with re-used names and refused statements are not explored.",
     ["core/space.rs", "core/model/mod.rs", "core/mod.rs", "core/ddl_misc.rs", "ql/ddl/crt.rs", "ql/ddl/drop.rs"],
     [m("space create/alter/drop", "core/space.rs"), m("model create/drop", "core/model/mod.rs"), m("INSPECT", "core/ddl_misc.rs")])
prop("M02", "ALTER MODEL preserves rows and applies to all of them",
     "After ALTER MODEL ADD every row, old or new, has the added columns (null in the rows that existed before); after REMOVE no row has the removed ones and adding the name again never brings old data back; after UPDATE (a wider type of the same class or nullable) "
     "the column accepts the new range. All other columns of all rows keep their values and the order of columns is the declared one; an ALTER that names an existing column to add, an unknown column, the primary key, a narrower type or another class is refused.",
     [I, H], "every sequence of ALTER statements interleaved with reads and writes on populated models",
     "Existing tests alter empty models or check only the declaration, so rows written before an ALTER are never looked at.",
     ["core/model/alt.rs", "core/model/delta.rs", "core/index/row.rs", "core/dml/upd.rs", "core/dml/sel.rs"],
     [m("schema deltas resolved per row", "core/index/row.rs"), m("alter plan", "core/model/alt.rs")])
prop("M03", "USE selects the space of that session only",
     "After an accepted USE of a space, unqualified model names in DML and INSPECT of that session resolve in that space exactly as the qualified names do; USE null clears it, USE $current reports it, and a refused USE keeps it. "
     "Other sessions are never affected, and without a current space (never set, cleared, or the space was dropped) unqualified names are refused.",
     [H], "every interleaving of USE, DML and DDL over several sessions, including dropping and re-creating spaces that are current",
     "No existing test runs more than one session with different current spaces.",
     ["core/exec.rs", "net/protocol/mod.rs", "core/mod.rs"],
     [m("USE statement", "core/exec.rs"), m("per-connection state", "net/protocol/mod.rs"), m("name resolution", "core/mod.rs")])
# ------------------------------------------------------------------ access
prop("A01", "Only exact credentials open a session",
     "A connection is accepted exactly when its user exists and the password equals the user's current one byte for byte (passwords up to 72 bytes); every other login is refused with an error and closed. "
     "Until it was accepted a connection gets no query executed and no data, whatever it sends.",
     [I, H], "every user name and password (including near misses of valid ones), every byte sequence sent instead of or after a login",
     "Tests try one correct and one wrong password; near misses, prefixes and pre-authentication queries are not generated.",
     ["core/system_db.rs", "net/protocol/mod.rs", "net/protocol/handshake.rs"],
     [m("password verification", "core/system_db.rs"), m("handshake gate", "net/protocol/mod.rs")])
prop("A02", "Only root may change the catalogue or users",
     "A session of any user other than root is refused, with a permission error and without effect, every statement that creates, alters or drops a space, model or user, in whatever spelling. "
     "It may run all other statements with the same results as root, and nothing it can do makes it privileged.",
     [I, H], "every statement of every kind, well-formed or not, issued by non-root users in any state",
     "No existing test runs statements as a non-root user.",
     ["core/exec.rs", "core/dcl.rs"],
     [m("privilege gate before dispatch", "core/exec.rs"), m("user management", "core/dcl.rs")])
prop("A03", "User management takes effect at once and survives restarts",
     "An accepted CREATE, ALTER or DROP USER takes effect for every following login: exactly the users created and not dropped can log in, each only with its latest password, also after a restart. "
     "Creating an existing user, altering or dropping an unknown one, and altering or dropping root are refused without effect; INSPECT GLOBAL lists exactly the existing users.",
     [I, H], "every history of user statements, logins and restarts, over every user name and password",
     "Tests create one user in-process; sequences, password changes and restarts are not explored.",
     ["core/dcl.rs", "core/system_db.rs", "txn/gns/sysctl.rs", "ql/dcl.rs", "storage/v2/impls/gns_log.rs"],
     [m("user table", "core/system_db.rs"), m("user statements", "core/dcl.rs"), m("persisted user events", "txn/gns/sysctl.rs")],
     state=[{"name": "root", "meaning": "the built-in account; its password comes from the configuration", "where": E + "core/system_db.rs"}])
prop("A04", "Passwords are never disclosed",
     "No password that the server is given ever shows in what it writes: not in the database files, not in the log at any log level, not in any response. This holds for the passwords of accepted and refused user statements, "
     "of accepted, refused and malformed logins, and for the root password of an accepted configuration; and for the password itself as well as for encodings and plain (unsalted) digests of it. "
     "What is stored is a salted hash: two accounts with the same password, or an account before and after its password changed to that of another, never have equal stored hashes; and the hashes are in the database files only.",
     [I, H, CF], "every password, history of user statements, logins and restarts, and log level",
     "No test looks at what is logged or stored about a password.",
     ["core/dcl.rs", "core/system_db.rs", "net/mod.rs", "net/protocol/mod.rs", "net/protocol/handshake.rs", "storage/v2/impls/gns_log.rs", "storage/v2/mod.rs", "ql/dcl.rs", "config.rs"],
     [m("password hashing", "core/system_db.rs"), m("login", "net/protocol/mod.rs"), m("user statements", "core/dcl.rs")],
     observe=("database files", "server log", "query responses on the wire"))
# ------------------------------------------------------------------ network
prop("N01", "Hostile bytes never harm the server or other sessions",
     "Whatever bytes a client sends, before or after login, and however it disconnects, the server process keeps running, never panics, keeps serving new logins and answers other sessions correctly, and stored data does not change except by well-formed statements. "
     "What was held for such clients is released once they are gone.",
     [I, F], "every byte stream, split and disconnect point, on any number of connections, before and after authentication",
     "Protocol tests parse a few well-formed packets and their truncations; arbitrary bytes on live connections are not tried.",
     ["net/mod.rs", "net/protocol/mod.rs", "net/protocol/exchange.rs", "net/protocol/handshake.rs", "mem/scanner.rs", "ql/lex/mod.rs"],
     [m("buffered connection loop", "net/protocol/mod.rs"), m("query packet decoder", "net/protocol/exchange.rs"), m("scanner", "mem/scanner.rs")])
prop("N02", "Responses do not depend on how bytes are segmented",
     "The sequence of responses a client receives is a function of the concatenation of the bytes it sends: any split into segments, any delay between them and any number of queries sent ahead gives byte-identical answers in order. "
     "This includes the login, and queries sent together with it, and holds up to the first packet that breaks the framing.",
     [I, S], "every segmentation of every session byte stream, including pipelined queries and splits inside any field",
     "The decoder tests feed whole packets or one fixed split; live reassembly and pipelining are not explored.",
     ["net/protocol/mod.rs", "net/protocol/exchange.rs", "net/protocol/handshake.rs", "mem/scanner.rs"],
     [m("incremental handshake", "net/protocol/handshake.rs"), m("incremental exchange decoder", "net/protocol/exchange.rs"), m("connection loop", "net/protocol/mod.rs")])
prop("N03", "Every query gets exactly one well-formed response",
     "To each query packet, whatever its text and parameters, the server sends exactly one well-formed response (a value, row, rows, empty or error) and the session stays usable for the next query. "
     "No query text makes the server panic, close the session or stall.",
     [I, PR], "every query text and parameter list, grammatical or not",
     "Parser tests use valid statements and a few truncations; arbitrary near-valid statements are not generated.",
     ["ql/lex/mod.rs", "ql/ast/mod.rs", "ql/ast/traits.rs", "ql/ddl/syn.rs", "ql/dml/ins.rs", "core/exec.rs", "net/protocol/mod.rs"],
     [m("lexer", "ql/lex/mod.rs"), m("parser state", "ql/ast/mod.rs"), m("executor dispatch", "core/exec.rs")])
prop("N04", "Parameters are data and never change a statement",
     "The meaning of a query depends on its text and on the type and value of its parameters, consumed in order, one for each placeholder: no content of a string or binary parameter is ever interpreted as query text. "
     "A query with too few parameters, or an undecodable one, is refused without effect.",
     [I], "every parameter content (quotes, statement text, delimiters, NUL, invalid UTF-8, protocol headers) in every placeholder position of every statement",
     "Tests pass plain alphanumeric parameters.",
     ["ql/lex/mod.rs", "ql/lex/raw.rs", "ql/ast/mod.rs", "net/protocol/exchange.rs"],
     [m("secure lexer", "ql/lex/mod.rs"), m("placeholder binding", "ql/ast/mod.rs")])
prop("N05", "The handshake accepts exactly the supported protocol",
     "A login whose header carries the supported handshake version, protocol version, exchange mode, query mode and authentication mode with well-formed credentials is accepted; a header whose first unsupported field is any other value is refused with the code of that field, "
     "and malformed lengths with the code for a corrupted packet. A refused connection is closed by the server after exactly one 4-byte answer.",
     [I], "every value of each of the header bytes, alone and combined, and every malformed length field",
     "The handshake tests cover three rejections.",
     ["net/protocol/handshake.rs", "net/protocol/mod.rs"],
     [m("handshake decoder", "net/protocol/handshake.rs")], ("handshake responses on the wire",))
prop("N06", "Keyword case and white space do not change a statement",
     "Two query texts that differ only in the letter case of keywords and in the amount and kind of white space (space, tab, newline) between tokens have the same result and effect. "
     "Entity names are case sensitive and are never confused with one another.",
     [I, PR], "every statement kind and every re-spelling",
     "Lexer tests use one spelling per keyword.",
     ["ql/lex/mod.rs", "ql/lex/raw.rs", "ql/ast/mod.rs"],
     [m("keyword table", "ql/lex/raw.rs"), m("white space handling", "ql/lex/mod.rs")])
prop("N07", "TLS and plain endpoints behave alike",
     "Over a TLS endpoint every session gets the same responses as over a plain one and both see the same data; a client that speaks plain text, breaks the TLS handshake or disconnects in the middle of it never affects other sessions. "
     "No query is executed on the TLS endpoint without TLS.",
     [I, CF], "every session script over both endpoints at once, and every broken TLS start",
     "No existing test starts a TLS endpoint.",
     ["net/mod.rs", "config.rs", "net/protocol/mod.rs"],
     [m("TLS listener", "net/mod.rs")])
# ------------------------------------------------------------------ persistence
prop("P01", "A graceful restart preserves everything",
     "After a graceful shutdown (SIGTERM or SIGINT) the server exits with success and a later start shows exactly the spaces, models, declarations, rows and values (bit for bit) that were there before, "
     "however many times this is repeated and whatever mixture of accepted DDL and DML came before. What was dropped or deleted does not come back, and what was accepted is not lost.",
     [H], "every history of DDL, ALTER and DML split at arbitrary points by restarts",
     "Storage tests replay short hand-written event lists through a virtual file system; complete server histories with restarts are not run.",
     ["storage/v2/mod.rs", "storage/v2/impls/mdl_journal.rs", "storage/v2/impls/gns_log.rs", "storage/v2/raw/journal/raw/mod.rs", "storage/common_encoding/r1/obj.rs", "txn/gns/model.rs", "core/model/delta.rs"],
     [m("batch journal of each model", "storage/v2/impls/mdl_journal.rs"), m("catalogue log", "storage/v2/impls/gns_log.rs"), m("shutdown flush", "fractal/mgr.rs")])
prop("P02", "Corrupted files are detected",
     "When any bytes of a database file are altered while the server is down, the next start either refuses to run with an error or serves exactly the state before the alteration; it never serves different data, and never crashes abnormally or hangs. "
     "A refused start does no further damage: once the alteration is undone, the next start serves exactly the state before.",
     [F, H], "every single and multiple byte alteration at every offset of every file of a database produced by any history",
     "Journal tests corrupt a few fixed offsets of tiny journals held in memory.",
     ["storage/v2/raw/journal/raw/mod.rs", "storage/v2/impls/mdl_journal.rs", "storage/common/sdss/impls/sdss_r1/mod.rs", "storage/common/checksum.rs", "storage/common_encoding/r1/mod.rs"],
     [m("journal checksums and chained transaction ids", "storage/v2/raw/journal/raw/mod.rs"), m("batch checksums", "storage/v2/impls/mdl_journal.rs"), m("file headers", "storage/common/sdss/impls/sdss_r1/mod.rs")],
     ("exit status of the server", "query responses on the wire", "files of the data directory"))
prop("P03", "Truncated or extended files never yield invented data",
     "When one database file is cut short, extended, spliced with pieces of itself, replaced by an older copy of itself, or (a model's file) removed while the server is down, the next start either refuses with an error or serves a catalogue and, for each model, rows that the database held at the end of an earlier session; "
     "it never serves rows or values that were never stored, never mixes up columns, never crashes abnormally and never hangs. What such a server accepts afterwards is preserved as usual.",
     [F, H, C], "every truncation length, every appended tail, and every earlier snapshot of each file, for databases produced by any history",
     "Only clean journals are reopened by the tests.",
     ["storage/v2/raw/journal/raw/mod.rs", "storage/v2/impls/mdl_journal.rs", "storage/v2/impls/gns_log.rs", "storage/common/sdss/impls/sdss_r1/mod.rs"],
     [m("journal reader state machine and close event", "storage/v2/raw/journal/raw/mod.rs")],
     ("exit status of the server", "query responses on the wire"))
prop("P04", "DDL is on disk before it is acknowledged",
     "Whenever the answer to an accepted CREATE, ALTER or DROP of a space, model or user reaches the client, its record has already been written to the database files and synchronised, so that a state rebuilt from the files as they were at that instant contains the statement. "
     "A statement whose record could not be written is answered with an error.",
     [C, F, H], "every DDL statement in every history, and the file contents at every acknowledgement",
     "The existing tests cannot observe the order of file writes and responses.",
     ["txn/gns/mod.rs", "storage/v2/raw/journal/raw/mod.rs", "core/space.rs", "core/model/mod.rs", "core/model/alt.rs", "core/dcl.rs"],
     [m("commit before in-memory publication", "core/space.rs"), m("journal append with fsync", "storage/v2/raw/journal/raw/mod.rs")],
     ("system calls on database files relative to responses", "files of the data directory"))
prop("P05", "Row changes reach disk within the service window",
     "Every accepted INSERT, UPDATE and DELETE is written to the files of its model within a small multiple of the configured service window even when nothing else happens, and what is written reflects a state the rows really had. "
     "Under continuous load on many models no model is starved.",
     [S, H, CF], "every workload and service window setting",
     "The periodic task is disabled or unreachable in unit tests.",
     ["fractal/mgr.rs", "fractal/context.rs", "storage/v2/impls/mdl_journal.rs", "core/model/delta.rs"],
     [m("periodic delta flush", "fractal/mgr.rs"), m("delta queue", "core/model/delta.rs")],
     ("files of the data directory",))
prop("P06", "I/O errors never corrupt acknowledged data",
     "When writes, syncs, or file creation fail or are short at any point, statements that could not be recorded are answered with an error or retried, the server keeps serving or stops with an error, and no acknowledged data is lost once the faults are over and the server has been shut down gracefully. "
     "A later start shows exactly the acknowledged state.",
     [F, H], "every sequence of failing or short file operations during any history",
     "The existing tests inject no faults into a running server.",
     ["storage/v2/raw/journal/raw/mod.rs", "storage/v2/impls/mdl_journal.rs", "fractal/mgr.rs", "storage/common/interface/fs.rs", "core/space.rs", "core/model/mod.rs"],
     [m("journal heartbeat and rollback", "storage/v2/raw/journal/raw/mod.rs"), m("flush retry queue", "fractal/mgr.rs")],
     ("query responses on the wire", "state after restart"))
prop("P07", "At most one server uses a data directory",
     "While a server runs in a data directory, starting another one there fails with an error and leaves the running server and its files undisturbed; after the first has stopped, gracefully or by being killed, the lock no longer prevents a start.",
     [S, H], "every interleaving of starts, stops and kills of several servers in one directory",
     "No existing test runs two server processes.",
     ["server/src/util/os/flock.rs", "server/src/main.rs", "server/src/engine/mod.rs"],
     [m("process lock file", "server/src/util/os/flock.rs")],
     ("exit status of the server", "files of the data directory"))
prop("P08", "Databases of the previous format are migrated without loss",
     "Starting this version on a database in the storage format of 0.8.0-beta (whatever history of DDL, ALTER, DML, restarts and failed writes its files hold) converts it so that exactly its spaces, models with their declarations, rows and users with their passwords are there, "
     "keeps the original files as a backup, and the converted database takes further statements and restarts like any other.",
     [H], "every database of the previous format and every continuation after the upgrade",
     "An existing test could only sample an upgrade of fixed files; none reads them back after the conversion and further writes.",
     ["storage/v1/loader.rs", "storage/v2/mod.rs", "storage/v1/raw/batch_jrnl/restore.rs", "storage/v1/raw/journal/raw.rs", "storage/v1/raw/sysdb.rs"],
     [m("v1 loader and migration", "storage/v1/loader.rs"), m("v1 batch restore", "storage/v1/raw/batch_jrnl/restore.rs")],
     ("query responses on the wire", "files of the data directory"))
prop("P09", "Damaged databases of the previous format are not misread",
     "When a journal or data file of a database in the storage format of 0.8.0-beta is damaged or cut, starting this version refuses with an error, without crashing and without moving or changing the files, so that the repaired database can still be converted; or it serves exactly what was stored.",
     [F, H], "every damage of the bytes of such a database",
     "The existing tests read intact files only.",
     ["storage/v1/raw/batch_jrnl/restore.rs", "storage/v1/raw/journal/raw.rs", "storage/v1/raw/rw.rs", "storage/v2/mod.rs"],
     [m("v1 batch checksums", "storage/v1/raw/batch_jrnl/restore.rs"), m("v1 journal checksums", "storage/v1/raw/journal/raw.rs")],
     ("exit status of the server", "files of the data directory", "query responses on the wire"))
prop("P10", "Dropping removes files, and only those",
     "When a space or model is dropped its directory is removed, soon and at the latest by the next graceful shutdown, even if a removal fails at first; the directories of everything that was not dropped are never touched, "
     "whatever names are re-used, so that the data directory holds exactly one directory for each live space and model.",
     [H, F], "every history of DDL and rows, every re-use of names, failing removals, restarts at any point",
     "The existing tests do not look at the directory of a dropped object.",
     ["fractal/mgr.rs", "fractal/mod.rs", "core/space.rs", "core/model/mod.rs"],
     [m("background removal of directories", "fractal/mgr.rs"), m("posting of removals", "core/space.rs")],
     ("files of the data directory", "query responses on the wire"))
prop("P11", "The storage format does not change",
     "A database is portable between builds that declare the same storage version: every well-formed database in the format that this release line writes, whoever wrote it, is opened and holds exactly "
     "the spaces, properties, models, rows and users that its files record; and what the server writes (headers, session marks, identifiers, checksums, namespace events, batches, cells, the names of directories) is in that format, "
     "so that another build reads the same content from it.",
     [I, H], "every well-formed database (every kind of event, type, value, declaration history, number of sessions, batches that end early or record deletions out of order), and every history of statements",
     "A test writes and reads with the same build, so that a consistent change of writer and reader, or a well-formed input that this writer seldom produces, goes unnoticed; no file of an earlier build is among the tests.",
     ["storage/common_encoding/r1/obj.rs", "storage/common_encoding/r1/map.rs", "storage/common_encoding/r1/impls/gns/model.rs", "storage/common_encoding/r1/impls/gns/space.rs",
      "storage/v2/impls/mdl_journal.rs", "storage/v2/raw/journal/raw/mod.rs", "storage/v2/raw/spec.rs", "storage/common/versions/mod.rs", "data/uuid.rs", "data/tag.rs"],
     [m("encoding of objects and cells", "storage/common_encoding/r1/obj.rs"), m("journal events and session marks", "storage/v2/raw/journal/raw/mod.rs"), m("batches", "storage/v2/impls/mdl_journal.rs")],
     ("database files at rest", "responses on the wire", "whether the server starts"))
# ------------------------------------------------------------------ concurrency
prop("C01", "Operations on one row are linearizable",
     "When several sessions insert, read, update and delete the same rows at the same time, the responses are those of some sequential order of the statements that respects real time. "
     "In particular of concurrent inserts of one key exactly one wins, no read returns a value that was not written or a mixture of two rows, and a completed delete or update is seen by every later statement.",
     [S, H], "every interleaving of concurrent statements on a few contended rows",
     "The existing concurrency tests exercise the index alone with disjoint keys.",
     ["idx/mtchm/mod.rs", "core/index/row.rs", "core/index/mod.rs", "core/dml/ins.rs", "core/dml/upd.rs", "core/dml/del.rs", "core/dml/sel.rs"],
     [m("lock-free trie index", "idx/mtchm/mod.rs"), m("row lock", "core/index/row.rs")])
prop("C02", "No concurrent update is lost or half seen",
     "Concurrent read-modify-write updates (counters, appends, concatenations, several columns in one statement) all take effect: the final value is the combination of exactly the acknowledged updates, "
     "list elements and appended text of one session appear once and in its order, and no read shows some columns of an UPDATE without the others.",
     [S, H], "every interleaving of concurrent updates of the same rows with reads",
     "No existing test updates a row from two sessions.",
     ["core/dml/upd.rs", "core/index/row.rs", "core/dml/sel.rs"],
     [m("update under the row's write lock", "core/dml/upd.rs")])
prop("C03", "DDL is safe while other sessions use the model",
     "While sessions read and write a model, other sessions may alter, drop and re-create it or its space: every statement is answered according to a schema the model had during its execution, no row mixes columns of two schemas, the server never deadlocks or crashes, and afterwards every "
     "acknowledged row is there with the final schema. Statements on other models are unaffected.",
     [S, H], "every interleaving of ALTER, DROP and CREATE with DML from other sessions",
     "No existing test runs DDL concurrently with DML.",
     ["core/model/alt.rs", "core/exec.rs", "core/mod.rs", "core/model/delta.rs", "core/space.rs", "core/model/mod.rs"],
     [m("exclusive lock for ALTER", "core/model/alt.rs"), m("catalogue lock", "core/mod.rs"), m("blocking executor", "core/exec.rs")])
prop("C04", "Concurrent work survives a restart",
     "After any concurrent workload the state shown after a graceful restart equals the state just before the shutdown: the order in which concurrent changes of a row were applied is the order in which they are restored. "
     "No acknowledged change is lost and no deleted row comes back.",
     [S, H], "every interleaving of concurrent writes on contended rows, with flushes in between, followed by a restart",
     "No existing test combines concurrency with persistence.",
     ["core/dml/ins.rs", "core/dml/upd.rs", "core/dml/del.rs", "core/model/delta.rs", "storage/v2/impls/mdl_journal.rs"],
     [m("row versions and delta ordering", "core/model/delta.rs"), m("batch restore", "storage/v2/impls/mdl_journal.rs")])
prop("C05", "A scan shows the rows of one moment",
     "SELECT ALL that runs while other sessions insert and delete rows shows exactly the rows that existed at one moment between its start and its end: no row that was inserted later without an earlier one of the same or another session, "
     "no row that was deleted before that moment, none twice. Any two scans, of any sessions, are consistent with one order of moments, and a session always sees all of its own earlier statements.",
     [S, H], "every interleaving of inserts and deletes with scans, every size and shape of the index",
     "The existing tests scan a model that nobody else changes.",
     ["core/dml/sel.rs", "core/index/mod.rs", "core/dml/ins.rs", "core/dml/del.rs", "idx/mtchm/iter.rs"],
     [m("exclusive latch of scans", "core/index/mod.rs"), m("index iteration", "idx/mtchm/iter.rs")])
# ------------------------------------------------------------------ operation
prop("G01", "All ways of configuring the server agree",
     "A setting has the same effect whether it is given as a command line option, an environment variable or in the configuration file, and an absent setting has its documented default. "
     "Invalid, contradictory or incomplete settings, and mixing sources, are refused before the server touches the data directory or listens on a port; settings that only turn out to be unusable later (an unreadable certificate, a port that is in use) "
     "end the start with an error message and leave the database as it was.",
     [CF, I], "every combination of settings, valid and invalid, expressed through each of the three sources",
     "The configuration tests parse a few fixed inputs and do not observe the effect on a running server.",
     ["config.rs", "server/src/main.rs"],
     [m("configuration sources and validation", "config.rs")],
     ("exit status of the server", "listening sockets", "log output"))
prop("H01", "Faults stay where they are and the status report is truthful",
     "When the file of a model or of the catalogue can not be written, row changes on exactly that model (or DDL and user management) are refused without effect while every other statement keeps working, reads included; "
     "SYSCTL REPORT STATUS is bad in every session exactly while something is in that state, and it becomes good again, and the statements are accepted again, by itself once the file can be written or the faulty model was dropped.",
     [F, H], "every set of files that become unwritable and writable again, interleaved with statements and drops",
     "The existing tests fail single writes of a driver in isolation.",
     ["fractal/mgr.rs", "fractal/drivers.rs", "fractal/mod.rs", "core/mod.rs", "core/dcl.rs", "core/model/mod.rs", "core/space.rs"],
     [m("driver status and recovery", "fractal/mgr.rs"), m("fault counter", "fractal/mod.rs"), m("refusal of row changes", "core/mod.rs")])
prop("X01", "The shell runs what is typed",
     "A statement typed into skysh with literals has the effect of the parameterized statement with those values, for every value that can be written as a literal, and the response is shown completely: each row and value, in order, "
     "or the error code. A malformed literal or a senseless line is refused with a message and changes nothing, and no line ends the shell; USE changes the prompt exactly when it succeeded.",
     [I, H], "every statement with string, binary, integer, float, boolean and null literals in either quoting, and every senseless line",
     "The shell has no tests at all.",
     ["cli/src/query.rs", "cli/src/resp.rs", "cli/src/repl.rs"],
     [m("literals to parameters", "cli/src/query.rs"), m("printing of responses", "cli/src/resp.rs")],
     ("text printed by skysh", "query responses on the wire"))
prop("S01", "Memory is used safely and given back",
     "No sequence of statements, concurrency of sessions, hostile bytes, file faults, restarts, upgrades or damaged files makes the server touch memory that it does not own (after it was freed, outside of an object, or freed twice), "
     "and the memory of what was deleted, replaced or dropped is given back: at a graceful shutdown nothing is allocated that nothing refers to any more.",
     [I, S, H, F], "every history of statements, burst of concurrent sessions, sequence of hostile packets, fault and damaged file",
     "Tests run without a memory checker and without concurrency, and undefined behaviour mostly goes unnoticed; the engine has its own unsafe index, row, list and inline vector types.",
     ["idx/mtchm/imp.rs", "idx/mtchm/access.rs", "idx/stord/mod.rs", "idx/stord/iter.rs", "mem/fixed_vec.rs", "mem/vinline.rs", "mem/uarray.rs", "mem/unsafe_apis.rs", "core/model/mod.rs", "core/index/row.rs", "core/index/key.rs", "core/query_meta.rs", "data/cell.rs", "data/lit.rs", "sync/smart.rs", "sync/queue.rs", "storage/v2/impls/mdl_journal.rs"],
     [m("concurrent row index", "idx/mtchm/imp.rs"), m("ordered dictionary", "idx/stord/mod.rs"), m("stored values", "data/cell.rs"), m("key and field names of a model", "core/model/mod.rs"), m("queue of row changes", "sync/queue.rs")],
     ("reports of AddressSanitizer and its leak checker", "responses on the wire"))
prop("S02", "Memory and open files depend on what is stored, not on how much was done",
     "Work that leaves the database as it was can be repeated for ever: rows inserted, changed and deleted again, models, spaces and users created and dropped again, refused statements and sessions of every kind "
     "are answered each time like the first time, and the memory, open files and threads of the server stay bounded instead of growing with the number of repetitions.",
     [I, S, H], "every sequence of statements and sessions that restores the state of the database, repeated any number of times by any number of sessions",
     "A test executes each operation once or a few times, where what is kept needlessly can not be noticed.",
     ["idx/mtchm/imp.rs", "core/model/delta.rs", "core/model/mod.rs", "core/index/row.rs", "core/mod.rs", "core/space.rs", "fractal/mgr.rs", "fractal/drivers.rs", "sync/queue.rs", "mem/fixed_vec.rs", "net/mod.rs", "core/system_db.rs"],
     [m("queue of row changes and its flush", "core/model/delta.rs"), m("reclamation of removed rows", "idx/mtchm/imp.rs"), m("drivers of dropped models", "fractal/drivers.rs"), m("sessions", "net/mod.rs")],
     ("bytes allocated by the server (from its allocator), its descriptors and threads", "responses on the wire"))


def design(claimed, missing):
    with open(os.path.join(V, "tools", "design_head.md")) as f:
        out = [f.read()]
    times = {}
    tp = os.path.join(V, "tools", "times.json")
    if os.path.exists(tp):
        times = json.load(open(tp))
    out.append("\n## The properties and how each is decided\n\n"
               "Cost: seconds of the quick tier alone on 8 cores, as measured when this file was last generated.\n")
    for p in P:
        out.append(f"\n### {p['id']} — {p['title']}\n\n{p['statement']}\n\n* **Quantifies over**: {p['text']}.\n* **Why the tests cannot settle it**: {p['why']}\n")
        c = dict((q["id"], c) for q, c in claimed).get(p["id"])
        if c is None:
            out.append(f"* **Not applicable**: {p['na'] or 'no check yet'}.\n")
            continue
        out.append(f"* **Decided by**: {c.technique}.\n* **Cases and non-triviality**: {c.rule}.\n")
        if getattr(c, "oracle", ""):
            out.append(f"* **Oracle**: {c.oracle}.\n")
        cost = f"; about {times[p['id']]} s for quick" if p["id"] in times else ""
        out.append(f"* **Bounds**: {c.quick} cases quick, {c.thorough} thorough (or {c.cap['thorough']} s){cost}.\n")
        if c.assumptions:
            out.append(f"* **Assumes**: {'; '.join(c.assumptions)}.\n")
        out.append("* **Anchored at**: " + ", ".join(f"`{x}`" for x in p["files"]) + ".\n")
    out.append("\n## Planted bugs\n\nEach is stored under `seeded/<id>` (patch, demonstration, meta). `caught by` lists the checks that were run against it and reported a violation in the quick tier.\n\n"
               "| id | property | what it needs | caught by |\n|---|---|---|---|\n")
    cp = os.path.join(V, "tools", "caught.json")
    caught = json.load(open(cp)) if os.path.exists(cp) else {}
    sd = os.path.join(V, "seeded")
    for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, d, "meta.json")))
        out.append(f"| {d} | {m['property']} | {m['needs']} | {', '.join(caught.get(d, []))} |\n")
    tail = os.path.join(V, "tools", "design_tail.md")
    if os.path.exists(tail):
        out.append("\n" + open(tail).read())
    with open(os.path.join(V, "DESIGN.md"), "w") as f:
        f.write("".join(out))


def main():
    claimed, missing = [], []
    for p in P:
        try:
            mod = importlib.import_module(p["id"].lower())
            claimed.append((p, mod.CHECK))
        except ModuleNotFoundError:
            missing.append(p)
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            a = {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": None}
            for x in p["files"]:
                assert os.path.exists(os.path.join("/repo", x)), x
            if p["state"]:
                a["state"] = p["state"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    man = {"version": 1, "setup_cmd": "python3 lib/build.py",
           "checks": [{"property": p["id"], "quick_cmd": f"python3 run.py {p['id']} --tier quick",
                       "thorough_cmd": f"python3 run.py {p['id']} --tier thorough", "technique": c.technique, "level": c.level,
                       "level_note": "Searches generated cases against a real skyd built from the current tree; shows absence of violations only for the cases run. "
                                     + ("Trusts: " + "; ".join(c.assumptions) if c.assumptions else "Trusts the Python reference model and wire client.")}
                      for p, c in claimed],
           "not_applicable": [{"property": p["id"], "reason": p["na"] or "the check for this property has not been built yet"} for p in missing]}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    design(claimed, missing)
    print("claimed:", " ".join(p["id"] for p, _ in claimed))
    print("not claimed:", " ".join(p["id"] for p in missing))


main()
