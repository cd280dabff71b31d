CLAIMS.update({
 "C02": ("runtime monitoring: rejected statements re-read against a reference model",
         "exploration", "Every (type, operator, boundary) combination plus random reject-heavy streams against a real server, rows re-read after each rejection and after restarts. Statistical over streams; the boundary sweep is exhaustive over the listed boundary values."),
 "C03": ("runtime monitoring: offline linearizability checking of recorded concurrent histories",
         "exploration", "Client-side call/return histories of pipelined connections; every per-key history is searched for a linearization. Schedules are sampled (thread squeezing, pipelining)."),
 "S01": ("runtime monitoring: online model oracle over ALTER MODEL and DML histories with restarts",
         "exploration", "Random ALTER/DML/INSPECT/restart histories compared online with a schema-and-rows model."),
 "S03": ("runtime monitoring: online catalogue model over DDL/INSPECT/USE sessions with restarts",
         "exploration", "Random DDL sessions over several connections compared with a catalogue model."),
 "D01": ("runtime monitoring: state dumps before a graceful stop and after start compared, and with the model",
         "exploration", "Random DDL/DML/user histories over repeated restarts; full wire dumps compared."),
 "Q01": ("runtime monitoring: independent BlueQL recogniser and twin-layout oracle over mutated statements, plus raw and oversized inputs with canary queries",
         "exploration", "Token-level mutants of statements judged by an independent recogniser on a live server; refused ones must leave a full dump unchanged, valid ones must behave the same in any layout. Statistical."),
 "N01": ("runtime monitoring: hostile byte streams judged by an independent packet decoder, canary clients, panic and memory monitors",
         "exploration", "Mutated handshakes and frames, stalled, flooding and vanishing clients over TCP and TLS, a descriptor-starved server. Statistical over byte streams."),
 "N02": ("runtime monitoring: byte-exact comparison of fragmented, coalesced and concurrent streams with one-at-a-time answers; value echo",
         "exploration", "Random request sequences replayed in several fragmentations; exhaustive two-way splits of single requests; typed values up to 3 MB echoed. Statistical."),
 "D03": ("runtime monitoring: write/sync traces and independently decoded logs of killed servers compared with acknowledged DDL histories",
         "exploration", "The real server is killed inside its own I/O (interposed write/sync/truncate calls) under DDL and user statements; the intact prefix of the log, decoded independently, must hold every acknowledged statement, each synced before its response; torn tails and interrupted logs are given back to the server, which must refuse or serve exactly a prefix. Kill points and histories are sampled; loss of unsynced page cache is modelled by the sync trace, not by a real power cut."),
 "D04": ("runtime monitoring: sync-time trace of decoded journal batches against per-change deadlines",
         "exploration", "Every acknowledged change must be in a journal batch synced within window + measured slack, or after at most the cache limit of further changes, while other models come and go; batches are decoded and matched with the statements. Schedules are sampled; 3 s scheduling slack."),
 "D06": ("runtime monitoring: I/O fault injection (interposed syscalls) with an online model oracle and post-restart dumps",
         "exploration", "ENOSPC, EIO, EINTR, short writes, failing syncs/creates/truncates injected at sampled points of DDL, DML flushes, restarts and shutdowns; statements must be answered truthfully, the server must recover once the faults end, and the restarted database must equal the acknowledged history."),
})
CLAIMS.update({
 "C04": ("runtime monitoring: recorded scans judged against the recorded timeline of every key",
         "exploration", "Scans with several limits and column orders run against writers that own their keys; every returned row, every missing row and every duplicate is judged against the interval history of its key. Interleavings are sampled (server threads free or squeezed onto one or two cores)."),
 "S02": ("runtime monitoring: linearizability checking of concurrent DDL/DML histories, progress watchdog, panic monitor, restart comparison",
         "exploration", "Conflicting DDL and DML from concurrent connections on few names; every space's history must linearize, every statement must be answered, shutdown in the midst must end with exit 0, and the restarted catalogue must be the last state. Interleavings are sampled."),
 "D02": ("runtime monitoring: linearizability checking of concurrent histories across a graceful shutdown and restart",
         "exploration", "Concurrent writers on few and on many keys are cut off by SIGTERM at random moments; the state after the restart is appended as one last reader to the recorded history, which must still linearize, and long ordered statement streams must survive as a prefix. Schedules are sampled."),
 "A01": ("runtime monitoring: hostile handshakes and every administrative statement per role, effects observed as root",
         "exploration", "Near-miss credentials, malformed and truncated handshakes followed by statements that would leave a mark, every statement kind as root and as ordinary user, catalogue and accounts compared afterwards. Statistical over credentials and byte streams."),
 "A02": ("runtime monitoring: account model over SYSCTL histories with logins and restarts, clear-text search in the files",
         "exploration", "Random SYSCTL CREATE/ALTER/DROP USER histories (also racing) against an account model; logins with current, former, foreign and altered passwords, restarts with a changed root password, every file searched for passwords. Statistical."),
})
CLAIMS.update({
 "R01": ("runtime monitoring: process, file and lock monitors around racing starts, signals at sampled moments and failing starts",
         "exploration", "Second and racing starts in one directory (also handing over while the previous server exits, with interposed delays around the PID file lock), termination signals before, during and after startup and under load, and starts that fail for every listed reason; exit codes, bounded exit time, byte-identical stored data, and a working next start are observed. Moments are sampled."),
 "K01": ("runtime monitoring: the same settings given from every source, behaviour of the running servers compared; refused starts observed",
         "exploration", "Random settings from the command line, environment and file start real servers whose endpoints, password, flush period (from the sync trace) are compared; invalid, mixed, duplicate and unknown settings must be refused without changing stored data; twin TLS/plain sessions compare results. Statistical over settings."),
})
CLAIMS.update({
 "D05": ("runtime monitoring: structure-aware damage of real database files, outcome of the start judged against the original dump",
         "exploration", "Closed databases with rich histories are damaged (structural fields, bytes, ranges, cuts, extensions, whole events duplicated, removed, reordered, renumbered, files swapped); every start runs under an address space limit and must refuse with an error, or serve a dump equal to the original. Damages are sampled (about a thousand per quick run)."),
 "V01": ("runtime monitoring: version 1 directories written by an independent encoder, upgraded by the real server; dumps compared with the writer's state, I/O faults, kills and damages",
         "exploration", "Random version 1 histories (ALTERs, several lifetimes, recovered records, skewed batches) are upgraded, dumped, used and restarted; upgrades that are interrupted, fail or meet damaged files must keep the originals complete and serve everything or nothing. The writer was made from the format's readers (no released version 1 server is available here)."),
 "M01": ("runtime monitoring: AddressSanitizer build of the server under concurrent workloads, live-heap monitor (malloc interposition) over repeated cycles, panic monitor",
         "exploration", "Concurrent DDL, DML, scans, hostile requests, disconnects and restarts against an instrumented server; every cycle returns to the same data and the live heap after it must not grow with the number of cycles. Schedules and programs are sampled."),
 "M02": ("runtime monitoring: Miri (aliasing, initialisation, data races, leaks) and AddressSanitizer on the real index, queue, handles and codecs with history oracles",
         "exploration", "An in-process harness (guarded hook) runs concurrent rounds with many scheduler seeds; recorded histories are checked against an atomic map and FIFO queue, and Miri judges every access. Interleavings are sampled; small round sizes under Miri."),
})

HOOKS = dict(guard="cfg(skyd_verif)",
             enable="RUSTFLAGS has --cfg skyd_verif and SKYD_VERIF_HARNESS names the harness file (vlib/build.py: the asan, plain and miri builds). The test build then includes the harness as engine::skyd_verif, and the server keeps the system allocator, so that sanitizers and the heap monitor see every allocation.",
             source_commits=["27d28ef"])
