#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so that the wording is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=""):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = list(observe)
    if hook: a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

S = "server/src/engine/"
p("C01", "Rows read back are exactly what the accepted statements wrote",
  "For any sequence of INSERT, UPDATE, DELETE, SELECT and SELECT ALL statements on a model of any declared shape, every response is the one a plain in-memory map from primary key to typed row would give: reads return the last accepted value of every field with its declared type and field order, missing keys give the row-not-found error, duplicate inserts give the duplicate error, and arithmetic/append assignments compute the documented result. This holds for every data type, nullable or not, nested lists, every kind of primary key, and arbitrary binary and string contents.",
  ["programs", "inputs"], "all statement sequences over all model shapes, primary-key types and field values",
  "The unit tests run each statement once on hand-picked one- or two-field models with friendly values; equivalence with a map over long mixed statement sequences, boundary values and every type is a property of all programs.",
  [S+"core/dml/ins.rs", S+"core/dml/upd.rs", S+"core/dml/del.rs", S+"core/dml/sel.rs", S+"core/index/key.rs", S+"core/index/row.rs", S+"core/model/mod.rs", S+"data/cell.rs", S+"idx/mtchm/mod.rs", S+"idx/stord/mod.rs"],
  [("insert", "core/dml/ins.rs prepare_insert/insert"), ("update operator table", "core/dml/upd.rs"), ("select/select all", "core/dml/sel.rs"), ("primary key equality and hashing", "core/index/key.rs"), ("primary index trie", "idx/mtchm")],
  observe=["client responses on the wire"])
p("C02", "A rejected statement changes nothing and stored values always fit their type",
  "A DML statement that is answered with an error leaves every row exactly as it was, whichever of its parts was rejected and in whichever order its assignments appear. A statement that would put a value outside the declared type (range of the integer or float width, element type of a list, null in a non-nullable field, wrong kind) or divide an integer by zero or overflow is answered with an error, so no stored value is ever outside its field's declared type, now or after a restart.",
  ["programs", "inputs"], "all statements, in particular multi-assignment updates whose k-th assignment fails, and all boundary values of every type",
  "Tests check a single failing assignment and look at the error; they never re-read the row after a partially applied multi-assignment update, nor sweep boundary values of every width and operator.",
  [S+"core/dml/upd.rs", S+"core/dml/ins.rs", S+"core/model/mod.rs", S+"data/tag.rs"],
  [("rollback of a failing update", "core/dml/upd.rs update()"), ("field validation", "core/model/mod.rs Field::vt_data_fpath"), ("range check", "data/tag.rs UIntSpec/SIntSpec/FloatSpec::check")],
  observe=["client responses", "rows re-read after each rejected statement", "rows after restart"])
p("C03", "Concurrent statements on rows are linearizable",
  "When many clients insert, update, delete and read rows of one model at the same time, there is a single order of all statements, consistent with their real-time order, in which every response is correct: no acknowledged update is lost, a read never observes part of a multi-field update or an older value after a newer one was returned, and exactly one of several competing inserts or deletes of a key succeeds.",
  ["schedules", "histories"], "all interleavings of concurrent statements from any number of connections",
  "The tests for the index and for deltas are single-threaded or use one fixed schedule per operation; a linearizability violation needs a particular interleaving on a contended key.",
  [S+"core/dml/upd.rs", S+"core/dml/del.rs", S+"core/dml/ins.rs", S+"idx/mtchm/mod.rs", S+"core/index/mod.rs", S+"core/index/row.rs"],
  [("row write lock", "core/dml/upd.rs"), ("lock-free index insert/remove", "idx/mtchm/mod.rs"), ("index latch", "core/index/mod.rs")],
  observe=["client-side call/return history per key"])
p("C04", "SELECT ALL returns every stable row exactly once, intact, within its limit",
  "A SELECT ALL running while other clients insert, update and delete returns each row at most once, returns every row that exists throughout the statement (unless the limit cuts it short), never returns a row that did not exist at some moment of the statement, never returns a half-updated row, and returns exactly min(limit, rows) rows when nothing changes.",
  ["schedules", "histories", "inputs"], "all sets of keys (including colliding hash prefixes), all limits and all interleavings with writers",
  "The tests scan small quiescent tables; what a scan may miss or repeat depends on the shape of the index and on concurrent structural changes.",
  [S+"core/dml/sel.rs", S+"idx/mtchm/iter.rs", S+"idx/mtchm/mod.rs", S+"core/index/mod.rs"],
  [("row iterator", "core/dml/sel.rs RowIteratorAll"), ("trie iteration", "idx/mtchm/iter.rs"), ("exclusive latch during scans", "core/index/mod.rs")],
  observe=["SELECT ALL responses against a client-side interval history"])
p("S01", "ALTER MODEL changes exactly the declared fields and keeps every other value",
  "After any sequence of ALTER MODEL ADD, REMOVE and UPDATE, interleaved with reads, writes and restarts, existing rows keep the value of every field that was not removed, added fields read as null until assigned, removed fields are unknown, a re-added field never shows old data, and widened fields accept the full new range. An ALTER that is refused (primary key, unknown or duplicate field, narrowing, incompatible type) changes nothing.",
  ["programs", "histories"], "all sequences of schema changes over all field types, interleaved with DML on old and new rows and with restarts",
  "Tests alter models that hold no rows and inspect the in-memory schema; lazily migrated rows and their persistence are only visible through DML before and after, over sequences of alterations.",
  [S+"core/model/alt.rs", S+"core/model/delta.rs", S+"core/index/row.rs", S+"core/dml/upd.rs", S+"core/dml/sel.rs", S+"storage/v2/impls/mdl_journal.rs"],
  [("alter plan", "core/model/alt.rs AlterPlan::fdeltas"), ("schema delta resolution", "core/index/row.rs resolve_schema_deltas_and_freeze_if"), ("restore with an older schema", "storage/v2/impls/mdl_journal.rs")],
  observe=["client responses before and after ALTER and restart"])
p("S02", "Concurrent DDL and DML never block forever, crash or mix entities",
  "While some clients create, alter, drop and truncate spaces and models and others run DML on the same names, every statement completes with a success or an ordinary error, no connection is dropped, nothing deadlocks, and no row is ever observed in a model incarnation it was not inserted into. Afterwards the catalogue and rows are exactly those implied by the acknowledged statements, also after a restart.",
  ["schedules", "histories"], "all interleavings of DDL and DML statements over shared names",
  "Tests issue DDL from a single thread; lock-order inversions and use of a dropped or altered model need concurrent statements at particular points.",
  [S+"core/mod.rs", S+"core/space.rs", S+"core/model/mod.rs", S+"core/model/alt.rs", S+"core/exec.rs", S+"fractal/mgr.rs", S+"fractal/drivers.rs"],
  [("namespace locks", "core/mod.rs GlobalNS"), ("DDL execution", "core/space.rs, core/model/mod.rs"), ("background batch writer and driver purge", "fractal/mgr.rs, fractal/drivers.rs")],
  observe=["client histories with incarnation-unique values", "bounded-progress watchdog"])
p("S03", "The catalogue behaves as the DDL statements define it",
  "CREATE, ALTER and DROP of spaces and models, with and without IF [NOT] EXISTS, ALLOW NOT EMPTY and properties, succeed or fail exactly as defined (already exists, not found, not empty, properties that do not fit), a failing one changes nothing, the env dictionary of a space is exactly what CREATE and the accepted patches made it, and names in different spaces never interfere. INSPECT GLOBAL, INSPECT SPACE and INSPECT MODEL always report precisely the current catalogue as well-formed output, USE resolves unqualified names to the chosen space for that connection only, and all of it is the same after a restart.",
  ["programs", "histories"], "all sequences of DDL, USE and INSPECT statements over colliding names, from several connections",
  "Tests check one statement at a time on a fresh namespace; catalogue equivalence is a property of whole histories and of what is reported about them.",
  [S+"core/space.rs", S+"core/model/mod.rs", S+"core/ddl_misc.rs", S+"core/exec.rs", S+"ql/ddl", S+"storage/v2/impls/gns_log.rs"],
  [("space and model DDL", "core/space.rs, core/model/mod.rs"), ("inspect", "core/ddl_misc.rs"), ("current space", "core/exec.rs USE")],
  observe=["client responses and INSPECT output"])
p("D01", "A graceful restart preserves the whole database",
  "After any history of accepted statements, stopping the server with a termination signal and starting it again gives exactly the same spaces, models, fields, rows, values and users, any number of times, also when models were dropped, re-created, truncated or altered and however many statements one run held. The restarted server accepts further writes whose effects are again preserved.",
  ["histories", "programs"], "all histories of DDL and DML on all types, split by restarts at all points",
  "The storage tests write a few hand-made rows with the in-memory driver and read them once; round trips over mixed histories, all types, sizes and repeated restarts are not sampled.",
  [S+"storage/v2", S+"storage/common_encoding/r1", S+"fractal/mgr.rs", S+"core/model/delta.rs", S+"storage/common/sdss"],
  [("global namespace log", "storage/v2/impls/gns_log.rs"), ("model batch journal", "storage/v2/impls/mdl_journal.rs"), ("shutdown flush", "fractal/mgr.rs"), ("row encoding", "storage/common_encoding/r1")],
  observe=["full dump over the wire before stop and after start"])
p("D02", "No acknowledged write is lost or reordered by a restart after concurrency",
  "When any number of clients write the same rows concurrently, and the server is shut down with a termination signal at any moment, the state after restart contains every acknowledged write, contains nothing that no client wrote or that was overwritten or deleted by a later acknowledged statement, and equals the state that a read would have returned just before the shutdown.",
  ["schedules", "histories"], "all interleavings of concurrent writers, background flushes and the shutdown",
  "Needs a particular ordering between the in-memory change, the recording of the change and the background batch; no test runs concurrent writers and then reloads from disk.",
  [S+"core/model/delta.rs", S+"core/dml/upd.rs", S+"core/dml/del.rs", S+"storage/v2/impls/mdl_journal.rs", S+"fractal/mgr.rs", S+"sync/queue.rs"],
  [("delta queue and versions", "core/model/delta.rs"), ("batch writer", "storage/v2/impls/mdl_journal.rs"), ("shutdown drain", "fractal/mgr.rs"), ("queue", "sync/queue.rs")],
  observe=["per-key client histories against the state read after restart"])
p("D03", "Acknowledged DDL survives a crash and an interrupted log is never misread",
  "Every acknowledged CREATE, ALTER or DROP of a space, model or user is on stable storage before its response is sent, in the order acknowledged, so that after the process is killed at any moment the intact part of the log holds exactly a prefix of the accepted history that includes all acknowledged ones. A server started on the killed directory either refuses to start with an error or serves exactly that history; it never silently serves anything else.",
  ["crash_points", "histories"], "all kill points during all DDL histories",
  "Tests never kill a server and never compare the on-disk log with acknowledged operations.",
  [S+"storage/v2/raw/journal/raw/mod.rs", S+"storage/v2/impls/gns_log.rs", S+"txn/gns", S+"storage/common/interface/fs.rs", S+"fractal/mod.rs"],
  [("commit of an event", "storage/v2/raw/journal/raw/mod.rs RawJournalWriter::commit_event"), ("flush and sync", "storage/common/sdss/impls/sdss_r1/rw.rs"), ("commit-then-apply", "core/space.rs, core/model/mod.rs")],
  observe=["log bytes after SIGKILL", "write/fsync order recorded by a preloaded shim", "restart outcome"])
p("D04", "Row changes reach stable storage within the service window or a full cache",
  "With the server running normally, every acknowledged row change is written and synced to its model's journal within the configured reliability service window (plus the time of one flush), whatever other models do, and at once when the number of pending changes passes the cache limit. What reaches the journal for each row is its last acknowledged state, each batch complete and verifiable.",
  ["histories", "configurations", "crash_points"], "all write rates, numbers of models and service windows, and the server killed any time after the window",
  "Tests call the flush directly; whether the background tasks really run, cover every model and sync is only visible on a live server over time.",
  [S+"fractal/mgr.rs", S+"fractal/mod.rs", S+"storage/v2/impls/mdl_journal.rs", S+"config.rs"],
  [("service window task", "fractal/mgr.rs general_executor"), ("cache-full request", "fractal/mod.rs request_batch_resolve_if_cache_full"), ("batch commit", "storage/v2/impls/mdl_journal.rs")],
  observe=["journal bytes decoded by an independent reader", "rows after kill, well-formed close and restart"])
p("D05", "Damaged database files are detected, never silently accepted",
  "If any byte of a stored database file is altered, or a file is truncated (other than back to an earlier cleanly closed state of itself), extended, duplicated or swapped with another model's, then starting the server either fails with an error naming the problem or serves exactly the original data. It never serves different data, hangs, exhausts memory or crashes on a signal.",
  ["inputs", "fault_sequences"], "all single- and multi-byte changes, truncation points and substitutions of all database files",
  "Tests corrupt a handful of offsets of a toy journal; the claim is about every byte of every real file kind.",
  [S+"storage/v2/raw/journal", S+"storage/common/sdss/impls/sdss_r1", S+"storage/common/checksum.rs", S+"storage/v2/impls", S+"storage/common_encoding/r1"],
  [("header check", "storage/common/sdss/impls/sdss_r1"), ("event checksums and chaining", "storage/v2/raw/journal/raw/mod.rs"), ("batch checksums", "storage/v2/raw/journal/mod.rs"), ("object decoding", "storage/common_encoding/r1")],
  observe=["exit status, error text and full dump after start on damaged copies"])
p("D06", "Storage I/O failures never corrupt data or lose acknowledged writes",
  "If a write, sync or file creation fails, is cut short, is interrupted or runs out of space at any point, statements that could not be made durable are answered with an error and have no effect, the server keeps running, and once the failure ends new statements succeed. After a graceful restart the database holds exactly the acknowledged statements.",
  ["fault_sequences", "crash_points"], "all system-call failure points (error, short write, ENOSPC) during DDL, background flush and shutdown",
  "Tests inject faults only into an in-memory file and only into the journal writer in isolation.",
  [S+"storage/common/interface/fs.rs", S+"storage/v2/raw/journal/raw/mod.rs", S+"storage/v2/raw/journal/mod.rs", S+"fractal/mgr.rs", S+"core/space.rs", S+"core/model/mod.rs"],
  [("writes and partial-write accounting", "storage/common/interface/fs.rs fwrite_all_count"), ("rollback of a failed event", "storage/v2/raw/journal/raw/mod.rs lwt_heartbeat"), ("re-queue of failed batches", "fractal/mgr.rs")],
  observe=["responses, in-memory state, restart state under an LD_PRELOAD fault shim"])
p("A01", "Only authenticated users get answers, only root administers",
  "A connection whose handshake does not carry an existing user's exact current password never gets a statement executed or a query response, whatever bytes follow the handshake and in whichever fragments. A user other than root can run DML, USE and INSPECT but every CREATE, ALTER or DROP and every SYSCTL user-administration statement of theirs is refused with a permission error and has no effect, and at every moment the current credentials are the only ones accepted.",
  ["inputs", "histories", "configurations"], "all handshake bytes, user names and passwords, and all statements per role",
  "Tests check one good and one bad password; the claim covers every malformed or near-miss credential and every administrative statement form.",
  [S+"net/protocol/mod.rs", S+"net/protocol/handshake.rs", S+"fractal/sys_store.rs", S+"core/dcl.rs", S+"core/system_db.rs", S+"core/exec.rs"],
  [("handshake and authentication", "net/protocol/mod.rs do_handshake"), ("password verification", "core/system_db.rs verify_user"), ("root gate", "core/dcl.rs, core/exec.rs")],
  observe=["wire responses", "effects visible to root"])
p("A02", "User accounts and passwords follow SYSCTL exactly and survive restarts",
  "SYSCTL CREATE USER, ALTER USER and DROP USER take effect exactly once acknowledged, fail with an error and no effect when the user exists, is missing, is root or the options are malformed, for every user name and password. The resulting accounts, including the configured root password, are the same after any restart, and no password is ever written to disk in clear.",
  ["programs", "histories", "inputs"], "all sequences of user-administration statements with all names and passwords, and restarts",
  "Tests create one user and check one login; they never mix operations, restarts and unusual passwords.",
  [S+"core/dcl.rs", S+"core/system_db.rs", S+"ql/dcl.rs", S+"storage/v2/impls/gns_log.rs", S+"txn/gns/sysctl.rs"],
  [("user statements", "core/dcl.rs"), ("credential store", "core/system_db.rs"), ("persistence", "txn/gns/sysctl.rs")],
  observe=["login attempts, responses and data files"])
p("N01", "No client input can crash the server or disturb other clients",
  "Whatever bytes a client sends, before or after authentication, in any fragmentation, and however it disconnects, the server process stays alive, answers or closes only that connection, keeps serving every other connection with correct results and accepts new ones, does not allocate memory out of proportion to what was sent, and never executes half of a malformed request.",
  ["inputs", "fault_sequences"], "all byte streams, fragmentations and disconnect points",
  "Protocol tests decode well-formed packets and a few truncations; robustness is about all byte strings, including lengths that overflow.",
  [S+"net/mod.rs", S+"net/protocol/mod.rs", S+"net/protocol/exchange.rs", S+"net/protocol/handshake.rs", S+"mem/scanner.rs"],
  [("packet state machine", "net/protocol/exchange.rs"), ("handshake state machine", "net/protocol/handshake.rs"), ("connection loop", "net/mod.rs, net/protocol/mod.rs")],
  observe=["process liveness, panic log, canary connection, RSS"])
p("N02", "Each request gets exactly one well-formed response, however it is split",
  "For every sequence of valid requests, however its bytes are fragmented or coalesced, a connection returns exactly one well-formed response per request, in request order, and the same bytes as when the requests are sent one at a time; handshake fragments behave alike. Every value accepted as a parameter comes back byte-exact in later responses, and many connections used at once never receive each other's responses.",
  ["inputs", "schedules"], "all request sequences, all fragmentations and coalescings, all parameter values, all numbers of connections",
  "Protocol tests feed whole packets, or split one packet at each byte; pipelining, coalescing and concurrency on live sockets are not covered.",
  [S+"net/protocol/exchange.rs", S+"net/protocol/mod.rs", S+"net/protocol/handshake.rs", S+"core/dml/sel.rs", S+"ql/lex"],
  [("resumable packet decoding", "net/protocol/exchange.rs"), ("response encoding", "net/protocol/mod.rs, core/dml/sel.rs"), ("parameter decoding", "ql/lex")],
  observe=["response byte streams"])
p("Q01", "Any BlueQL text with any parameters is parsed safely and never misread",
  "Any query text, valid, damaged or nested to any depth, with any number and type of parameters, is answered with a result or an error on the same connection: the server never panics, hangs, overflows its stack or reads outside the query. Text that is not a valid statement has no effect, parameters are only ever data (no content of a parameter changes which statement runs), and a statement's meaning does not depend on whitespace or on keyword case beyond what the language allows.",
  ["inputs", "programs"], "all token sequences, nesting depths and parameter lists",
  "Parser tests cover accepted statements and a few rejections; the claim is about every input.",
  [S+"ql/lex", S+"ql/ast/mod.rs", S+"ql/dml", S+"ql/ddl", S+"ql/dcl.rs", S+"core/exec.rs"],
  [("lexer", "ql/lex"), ("parser state", "ql/ast/mod.rs"), ("statement parsers", "ql/dml, ql/ddl, ql/dcl.rs"), ("dispatch", "core/exec.rs")],
  observe=["responses, panic log, catalogue and rows before/after"])
p("M01", "No statement stream causes memory errors, panics or leaks in the server",
  "Under any mix of concurrent DDL, DML, scans, restarts and disconnects the server never reads or writes memory outside a live object, never frees twice, never uses an uninitialised or mistyped value and never panics, and memory of deleted rows, dropped models and closed connections is given back, so that a workload that keeps the data size constant keeps the memory use bounded.",
  ["schedules", "programs", "inputs"], "all workloads over the code that manages memory by hand (cells, rows, index nodes, queues, field names)",
  "Unit tests run without sanitizers, mostly on one thread; a use-after-free or a leak is silent in them.",
  [S+"data/cell.rs", S+"data/lit.rs", S+"core/index/key.rs", S+"core/index/row.rs", S+"idx/mtchm", S+"idx/stord", S+"sync/smart.rs", S+"sync/queue.rs", S+"mem"],
  [("manual cells", "data/cell.rs, core/index/key.rs"), ("reference counts", "sync/smart.rs"), ("epoch-reclaimed trie and queue", "idx/mtchm, sync/queue.rs"), ("raw field names", "mem/rawslice.rs, core/model/mod.rs")],
  observe=["AddressSanitizer reports, panic log, RSS of a live server"])
p("M02", "The shared index and queue are free of data races and undefined behaviour",
  "The concurrent primary index, the change queue and the reference-counted row handles behave as an atomic map, a FIFO queue and shared owners when used from several threads at once: no interleaving produces undefined behaviour, a data race, a lost, duplicated or torn element, or an object freed early or never.",
  ["schedules", "programs"], "all interleavings and key distributions, including keys whose hashes collide in every level of the trie",
  "The unit tests for the index and queue check small fixed schedules and cannot see races or invalid pointer use; only an interpreter that tracks provenance, initialisation and happens-before can.",
  [S+"idx/mtchm", S+"sync/queue.rs", S+"sync/smart.rs", S+"sync/atm.rs", S+"core/index/key.rs", S+"data/cell.rs", S+"data/lit.rs", S+"mem"],
  [("index", "idx/mtchm/mod.rs"), ("queue", "sync/queue.rs"), ("EArc / RawRC", "sync/smart.rs")],
  hook="cfg(skyd_verif): include an external in-process harness module")
p("R01", "One server per directory, clean shutdown, orderly startup",
  "While a server runs in a data directory a second one started there refuses to run and touches nothing. A termination signal always makes the server stop accepting work, finish what was accepted, flush and exit with status zero in bounded time, leaving the directory ready for the next start; a start that fails exits non-zero with an error and leaves the stored data as it was.",
  ["schedules", "histories", "fault_sequences", "configurations"], "all moments of signals and competing starts, all loads at shutdown and all failing configurations",
  "No test starts the binary; signal handling, the directory lock and shutdown order exist only in the running process.",
  ["server/src/main.rs", "server/src/util/os.rs", S+"mod.rs", S+"fractal/mgr.rs", S+"net/mod.rs"],
  [("pid file lock", "util/os.rs FileLock"), ("termination", "util/os.rs TerminationSignal, engine/mod.rs start"), ("drain", "net/mod.rs terminate, fractal/mgr.rs")],
  observe=["exit codes, directory contents, responses around the signal"])
p("K01", "Configuration means the same from every source and invalid ones are refused",
  "The same settings given on the command line, in environment variables or in a configuration file produce a server that behaves identically, defaults fill only what is not given, and mixing sources, unknown options, missing or too short root passwords, bad ports, zero windows, or unusable TLS material stop the start with an error and no side effect on stored data (where nothing is stored yet, an empty database may be left, which a corrected start uses). TLS and plain endpoints serve the same data and results.",
  ["configurations", "inputs"], "all combinations of options, sources and invalid values",
  "Tests parse argument vectors in isolation; they never run the resulting server nor compare sources.",
  [S+"config.rs", "libsky/src", "server/src/main.rs", S+"net/mod.rs"],
  [("sources and merge", "engine/config.rs check_configuration"), ("validation", "engine/config.rs"), ("TLS endpoint", "net/mod.rs init_tls")],
  observe=["exit status, reachable endpoints, behaviour of the started server"])
p("V01", "Data written by the previous storage format is upgraded without loss",
  "A data directory written by the version-1 storage engine is upgraded at start to the current format with every space, model, row and user preserved, the original files kept as a backup, what is changed after the upgrade survives further restarts like any other change, and an upgrade that is refused (damaged files), fails or is interrupted never serves a partial or empty database and leaves the original data complete: in place, or in the backup from where they can be put back.",
  ["histories", "crash_points", "fault_sequences"], "all version-1 databases, all interruption points of the upgrade and all truncations or checksummed damages of its files",
  "Tests only check parsing of in-memory version-1 structures; whole-directory upgrades are not exercised.",
  [S+"storage/v1", S+"storage/mod.rs", S+"storage/v2/mod.rs"],
  [("upgrade", "storage/mod.rs load, storage/v2/mod.rs recreate"), ("v1 readers", "storage/v1")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
