#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
R="grayc/src/runtime/"; S="grayc/src/stdlib/"

p("C01","Channels are linearizable bounded FIFO queues",
 "Every value a program sends into a channel is received at most once, in the order the sends took effect, and never lost, duplicated, invented or reordered, whatever mix of blocking and non-blocking sends and receives any number of threads perform. At most `capacity` values are ever buffered; a non-blocking send is refused only when the channel is full or closed and a non-blocking receive only when it is empty. After a close, sends have no effect, values already buffered are still delivered in order, and only then do receives report emptiness (0 / false).",
 ["schedules","histories"],"all interleavings of any number of sender, receiver and closer threads, including spurious wakeups, for every capacity and operation mix",
 "The existing channel tests are single-threaded send-then-receive calls; no test has two threads contending for a channel, so no interleaving is exercised.",
 [S+"channels.c",S+"channels.h","grayc/src/codegen/codegen.c"],
 [("ring buffer under one mutex with two condition variables",S+"channels.c gray_channels_send/receive/try_send/try_receive/close")],
 [("buffer/head/tail/count/closed","queue contents and close flag",S+"channels.c GrayChannelInternal")],
 ["return values of channels.send/receive/try_send/try_receive/close"])
p("C02","Blocked channel users always make progress",
 "A thread blocked in a channel receive resumes once a value is available or the channel is closed, and a thread blocked in a channel send resumes once there is room or the channel is closed, no matter how wakeups and thread switches fall. A program whose sends and receives balance, or that closes its channels, therefore never hangs.",
 ["schedules","histories"],"all schedules of blocked senders/receivers against the sends, receives and closes that should release them",
 "No test blocks a thread on a channel; a lost wakeup needs a particular interleaving and would show as a rare hang.",
 [S+"channels.c"],[("condition signalling on every state change, broadcast on close",S+"channels.c")],
 None,["termination of the program"])
p("C03","Mutexes exclude, try_lock never lies, and lockers progress",
 "Between a successful `lock`/`try_lock` and the matching `unlock` no other thread acquires the same mutex, so counters and structures updated under it are never torn or lost. `try_lock` returns at once, succeeds only by really acquiring a free mutex and fails only while another holder exists. Every thread waiting in `lock` acquires the mutex once its holders release it, and distinct mutexes are independent.",
 ["schedules","histories"],"all interleavings of lock, try_lock, unlock by any number of threads over several mutexes",
 "sync tests lock and unlock from one thread; contention, hand-over and failed try_lock under a racing holder are not exercised.",
 [S+"sync.c",S+"sync.h","grayc/src/codegen/codegen.c"],[("thin wrapper over a process mutex",S+"sync.c")],None,
 ["return of sync.lock/try_lock/unlock", "shared variables updated under the lock"])
p("C04","Atomic operations are indivisible and sequentially consistent",
 "Each `atomic` operation on a shared integer takes effect at a single instant between its call and return, returns what that instant implies (add, sub, exchange, and, or, xor return the previous value; cas reports exactly whether it replaced), and all threads agree on one order of these operations. No concurrent update is lost or applied twice.",
 ["schedules","histories"],"all interleavings at memory-access granularity (including store buffering) of atomic operations by several threads on several cells",
 "atomic tests call each operation from one thread; dropping a lock prefix or a fence keeps every one of them green.",
 [R+"arch/x86_64/atomic.s",R+"atomic.h",S+"atomic.c",S+"atomic_mod.h"],[("lock-prefixed instructions and mfence",R+"arch/x86_64/atomic.s")],None,
 ["return values of atomic.*"])
p("C05","Spinlocks exclude and hand over",
 "Between `spin_lock` (or a true `spin_trylock`) and `spin_unlock` no other thread holds the same spinlock, everything written under the lock is visible to the next holder, `spin_trylock` never blocks and is false only while the lock is held, and a waiting thread acquires the lock once it is released.",
 ["schedules","histories"],"all interleavings at memory-access granularity of several threads using several spinlocks",
 "Spinlock tests are single-threaded.",
 [R+"arch/x86_64/atomic.s",S+"atomic.c"],[("test-and-test-and-set with xchg, mfence on unlock",R+"arch/x86_64/atomic.s gray_spin_*")],None,
 ["shared variables updated under the lock"])
p("C06","A spawned thread runs its function once and join waits for it",
 "Each successful spawn runs the given function exactly once, in its own thread, with exactly the argument given; `join` returns only after that function has finished and its effects are visible to the joiner; `is_alive` is true from spawn until the body has returned and false afterwards; `thread_count` is the number of spawned threads still live. When the system refuses to create a thread the program stops with a clear error rather than hanging, crashing or using a thread that does not exist.",
 ["schedules","fault_sequences","histories"],"all interleavings of spawn, join, detach, is_alive, thread_count and thread bodies, with thread creation and memory allocation failing at arbitrary points",
 "Tests spawn one or two threads whose timing is left to sleeps; creation failure and query/exit races are never exercised.",
 [S+"threads.c",S+"threads.h","grayc/src/codegen/codegen.c"],[("per-thread state block with atomic alive/detached flags, live counter",S+"threads.c")],None,
 ["threads.* results","program exit status and stderr"])
p("C07","Detaching and finishing threads never corrupts or leaks memory",
 "Whatever the relative timing of a thread's exit and the `detach` or `join` of its handle, every piece of memory the thread machinery uses is released exactly once, nothing is touched after release, no thread is left un-reaped, and repeated spawn/finish cycles do not grow the program's memory.",
 ["schedules"],"all interleavings of detach/join with thread completion",
 "The race window is a few instructions wide; no test detaches a thread concurrently with its exit and none looks at memory.",
 [S+"threads.c",R+"runtime.c"],[("alive/detached hand-shake decides who frees the state",S+"threads.c thread_entry/gray_threads_detach")],None,
 ["simulated heap: use-after-free, double free, leaks"])
p("C08","Threads do not disturb each other's language-level values",
 "A thread that touches no shared variable computes exactly the same results whatever other threads do at the same time: strings, arrays, maps, structs, `new` objects, interpolation, time and date formatting, JSON, regular expressions, encodings and other library calls in one thread never alter, expose or free another thread's data. All language features, including `new`, work in spawned threads as they do in the main thread.",
 ["schedules","programs"],"all interleavings of threads running independent computations over the language and standard library",
 "Existing thread tests run empty or one-assignment thread bodies, so nothing ever allocates or calls the library from two threads at once.",
 [R+"runtime.c",R+"runtime.h",S+"threads.c",S+"time.c",S+"strings.c",S+"json.c",S+"regex.c",S+"io.c"],
 [("thread-local default and heap arenas",R+"runtime.c"),("per-thread arena creation",S+"threads.c thread_entry")],None,["values printed by each thread"])
p("C09","The recursion guard judges each thread by its own depth",
 "A thread whose call depth exceeds the documented limit stops the program with the stack-overflow panic, and no program in which every thread stays below the limit is ever stopped by it, however many threads run, call and return concurrently and for however long.",
 ["schedules","programs"],"all interleavings of calls and returns in several threads",
 "Recursion tests are single-threaded; an accounting error between threads needs interleaved increments or several deep threads.",
 [R+"runtime.c",R+"runtime.h","grayc/src/codegen/codegen.c"],[("call depth counter on function entry/exit",R+"runtime.c gray_enter_func/gray_exit_func")],
 [("gray_call_depth","current call depth",R+"runtime.c")],["panic P0003 / normal completion"])
p("C10","Running out of memory stops a program cleanly",
 "If the system refuses a memory allocation at any point, the program either carries on correctly or stops with an out-of-memory diagnostic and a non-zero exit status. It never crashes, corrupts data, hangs, or prints wrong results.",
 ["fault_sequences","crash_points"],"every allocation made by the runtime and standard library failing in turn, and random sets of failures",
 "No test can make an allocation fail.",
 [R+"runtime.c",R+"array.c",R+"map.c",S+"strings.c",S+"channels.c",S+"threads.c",S+"sync.c",S+"atomic.c",S+"server.c",S+"os.c",S+"io.c",S+"http.c",S+"csv.c"],
 [("allocation results checked, 'out of memory' exit",R+"runtime.c gray_arena_alloc and callers")],None,["exit status, stderr, stdout"])
p("C11","Sleeps last at least as long as asked and clocks behave",
 "`threads.sleep`, `sleep_s`, `sleep_ms` and `sleep_ns` return no earlier than the requested duration of real elapsed time, even when signals interrupt them and when the wall clock is stepped, and return promptly afterwards; `time.tick`/`elapsed_ms` never go backwards and measure real elapsed time regardless of wall-clock steps; `time.now*` report the wall clock.",
 ["fault_sequences","schedules"],"all signal interruption points, wall-clock steps and scheduling delays",
 "Tests sleep for a few milliseconds on a quiet machine with a well-behaved clock.",
 [S+"threads.c",S+"builtins.c",S+"time.c"],[("interrupted sleeps are restarted with the remaining time",S+"threads.c gray_threads_sleep"),("monotonic clock for ticks",S+"time.c gray_time_tick")],None,["simulated elapsed time"])
p("C12","A file write reported as successful is completely on disk",
 "When a standard-library file-writing call (text, bytes, append, CSV, copy) reports success, the file holds exactly the bytes it should: the whole content, or the old content plus the whole appended data. When the disk is full, an I/O error occurs or the file cannot be opened, at any point up to and including closing the file, the call reports failure (false, an error value, or a panic as documented).",
 ["fault_sequences","inputs"],"every disk-full, write-error, short-write and close-error point for all contents and sizes",
 "Tests only write small files to a healthy disk.",
 [S+"io.c",S+"csv.c"],[("results of write and close checked before reporting success",S+"io.c")],None,["returned bool/Error against simulated file content"])
p("C13","A file read reported as successful returns the whole file",
 "When a standard-library file-reading call (whole text, bytes, lines, CSV) reports success, it returns exactly the file's bytes, however the system splits the reads. When reading fails part-way, the error form returns an error and the plain form stops with a panic; neither ever presents partial data as the whole file.",
 ["fault_sequences","inputs"],"every read-error and short-read point for all contents and sizes",
 "Tests only read small healthy files in one piece.",
 [S+"io.c",S+"csv.c"],[("read result and stream error state checked",S+"io.c")],None,["returned content/Error"])
p("C14","Copy, move and rename never lose the only copy of a file",
 "At every instant during and after `copy_file`, `move_file` or `rename_file`, including when any step fails or the process is killed, the source's complete content exists under the source name or the destination name; success means the destination holds it completely (and, for move and rename, the source name is gone, unless both names led to one file), and failure leaves the source untouched.",
 ["fault_sequences","crash_points"],"every failing step and kill point, on one file system and across file systems",
 "Tests move small files inside one directory of a healthy file system; the cross-device path and all failures are never run.",
 [S+"io.c"],[("rename with copy-then-delete fallback across devices",S+"io.c gray_io_move_file*")],None,["simulated file tree after each step"])
p("C15","Directory operations stay inside the tree and tell the truth",
 "`remove_dir_all` deletes only what lies inside the named directory (a symbolic link inside is removed, never followed), and reports success only if the directory is gone; `make_dir_all` reports success only if the directory exists; `list_dir`, `walk` and `glob` report either the complete set of entries or an error. None of them crashes or lies when any underlying step fails.",
 ["fault_sequences","inputs"],"random trees with files, directories, links and failing system calls at every point",
 "Tests use two-level trees of plain files with no failures and no links.",
 [S+"io.c"],[("recursive traversal with per-entry status",S+"io.c remove_dir_recursive/walk")],None,["simulated file tree and returned values"])
p("C16","Temporary files are unique and gone at exit",
 "Each `temp_file`/`temp_dir` call returns a newly created path that no other call, thread or concurrently running program received, and when the program exits (normally or by panic or exit code) every one of them is deleted, however many were created and from however many threads.",
 ["schedules","histories","fault_sequences"],"all interleavings of temporary-file creation in several threads and programs, any number of them, with creation failures",
 "Tests create one or two temporary files from one thread.",
 [S+"io.c"],[("mkstemp/mkdtemp plus a registry swept at exit",S+"io.c temp registry")],None,["simulated /tmp after exit"])
p("C17","os.exec reports exactly what the child did",
 "`os.exec` returns the child's complete standard output and standard error, its real exit code, and ok=true exactly when the program was launched and exited by itself within the documented limits; no timing of output, pipe fragmentation, interruption by signals or concurrent exec in another thread truncates, mixes, deadlocks or misreports them. It leaves no zombie process and no open descriptor behind, and reports ok=false when the child could not be started.",
 ["fault_sequences","schedules","inputs"],"all fragmentations and timings of child output, signal interruptions, and failures of pipe, fork, read and launch, with concurrent calls",
 "Tests run echo-like commands whose output arrives in one read.",
 [S+"os.c"],[("pipes drained by select loop, then wait",S+"os.c gray_os_exec")],None,["returned tuple, simulated process table and descriptor table"])
p("C18","TCP sockets carry byte streams faithfully and fail cleanly",
 "What one side passes to `net.send` (the number of bytes reported as sent) arrives at the other side's `net.receive` in order, without loss, duplication or invention until the connection ends; a send or receive that fails or times out says so through its documented result, a timeout set on a socket bounds the wait, and no behaviour of the peer (reset, half-close, silence) crashes or kills the program or leaks descriptors.",
 ["fault_sequences","schedules"],"all segmentations, delays, resets, timeouts, interruptions and address-resolution results",
 "Tests talk to nothing or to a closed port; no peer ever misbehaves.",
 [S+"net.c",S+"net.h"],[("thin socket wrappers with result variants",S+"net.c")],None,["bytes delivered, returned values"])
p("C19","The HTTP client returns the whole response or an error",
 "An `http` request is transmitted completely and correctly formed, and its result is either the server's status and complete body exactly as sent, or an error; a connection that breaks, stalls past the timeout or ends before the announced length is never reported as a successful response. A server that stays silent or stops sending is given up on within a bounded time (the client's documented time-out), so such a request ends with an error.",
 ["fault_sequences","schedules","inputs"],"all segmentations, delays, resets and early closes of the exchange, short sends, and response sizes",
 "Tests have no server that fragments, stalls or breaks off.",
 [S+"http.c",S+"net.c"],[("request build, send, receive until close, parse",S+"http.c do_request")],None,["HttpResponse/Error against what the simulated peer sent and received"])
p("C20","The HTTP server answers every request with its own complete response",
 "Each well-formed request that reaches a running server gets exactly one well-formed response produced by the matching handler from that request's own method, path, query, headers and full body, with the complete body the handler returned, no matter how the request is split into segments, how slowly either side moves data, how large the response is, or how many requests are handled at the same time.",
 ["schedules","fault_sequences","inputs"],"all interleavings of concurrent connections and all segmentations and short sends",
 "server.listen is never called by any test because it blocks.",
 [S+"server.c",S+"net.c","grayc/src/codegen/codegen.c"],[("thread per connection with its own request arena",S+"server.c handle_connection")],None,["bytes each simulated client receives"])
p("C21","The HTTP server survives any client behaviour",
 "No client behaviour (garbage, oversized or partial requests, stalling, resetting, disconnecting before or during the response) and no transient failure of accept, thread creation or the allocation made to take a connection on stops the server, crashes it, makes it use freed memory, or permanently consumes a connection slot, descriptor, thread or memory. Once misbehaving clients are gone or timed out, a new well-formed request is answered within a bounded time.",
 ["fault_sequences","schedules"],"all sequences of client misbehaviour and system-call failures",
 "server.listen is never called by any test.",
 [S+"server.c",S+"net.c"],[("read timeout, connection cap with counter, per-connection cleanup",S+"server.c")],[("active_connections","live connection count",S+"server.c")],["later requests answered; simulated descriptors, threads and heap"])
p("C22","Random values stay in their documented range and are never weak",
 "Whatever the underlying sources of randomness return, every `random` function returns a value in its documented range (shuffle a permutation, sample distinct elements, choice an element); equal seeds give equal sequences; generated UUIDs and random hex strings are well-formed, carry the full entropy they were given and never repeat across calls, threads or forks of time while entropy is fresh, time-ordered UUIDs sort by creation time, and when no entropy can be obtained the call fails loudly instead of returning a weak or malformed value.",
 ["fault_sequences","schedules","inputs"],"all outputs of the entropy and pseudo-random sources including extremes, short reads and failures",
 "Tests sample a handful of values from a healthy generator; extremes and failures of the source never occur.",
 [S+"random.c",S+"uuid.c",S+"crypto.c",S+"math.c"],[("range reduction of rand()",S+"random.c"),("getentropy with fallback",S+"uuid.c"),("short-read panic",S+"crypto.c")],None,["returned values"])
p("C23","Console input is delivered intact",
 "Successive `input()` calls return the successive lines of standard input exactly and in order, however the data arrives (short reads, pauses, interruptions, a last line without newline, over-long lines handled as documented), and after the end of input or a read error they return without inventing, repeating or mixing data.",
 ["fault_sequences","inputs"],"all fragmentations and endings of standard input",
 "Tests have no interactive input.",
 [S+"builtins.c"],[("line-buffered read with overflow drain",S+"builtins.c gray_builtin_input")],None,["returned strings"])
p("C24","Formatting in place never loses source code",
 "At every instant while a source file is formatted in place, and whatever fails (disk full, read or write error, out of memory, the formatter being killed), the file's path holds either the complete original or the complete formatted text; the formatter exits with success only if the formatted text is completely written. Formatting keeps every line of code, the file's permissions and a symbolic link that leads to it, and touches no other file.",
 ["crash_points","fault_sequences"],"every kill point and every failing system call during formatting",
 "Formatter tests run on a healthy disk to completion.",
 ["grayc/src/main.c","grayc/src/fmt/fmt.c"],[("format into memory, then replace the file","grayc/src/main.c fmt path")],None,["simulated file content at each step, exit status"])
p("C25","The compiler reports success only for a complete build",
 "`grayc`/`gray build` exits with success only if the requested output (binary or C source) was completely produced from the current source; if reading any source, import or embedded file, writing the intermediate C file, running the C compiler or starting the program fails, it exits non-zero with a message, without crashing. `grayc run` ends with the exit status of the program. A compilation leaves no intermediate file behind (Ctrl-C while the program runs included; only when the C compiler rejects the C source is that file kept, under the name it reports) and never changes or deletes files that are not its own.",
 ["fault_sequences","crash_points"],"every failing system call in a build and every outcome of the C compiler process",
 "Tests build on a healthy machine with a working C compiler.",
 ["grayc/src/main.c","grayc/src/util/buf.c"],[("write intermediate C, invoke cc, check status, clean up","grayc/src/main.c")],None,["exit status, simulated files, recorded cc invocations"])
p("C26","Concurrent compilations do not interfere",
 "Any number of compiler invocations running at the same time, on the same or different sources in the same or different directories, each compile their own source: no invocation compiles, runs, truncates or deletes the intermediate or output file of another, whether or not one of them fails or is interrupted.",
 ["schedules"],"all interleavings of the file operations of two or more compiler processes",
 "Tests run compilations one after another or with unique names.",
 ["grayc/src/main.c"],[("temporary file naming","grayc/src/main.c")],None,["which C text each simulated cc compiles and which output each run executes"])
p("C27","Self-update leaves a working executable at every instant",
 "At every instant during `gray update`/`gray install`, and after a crash, power loss, download failure, disk error or full disk at any point, the installed command's path holds either the complete old executable or the complete new one, and it is executable; the command reports success only when the complete new one is in place, and a failed update leaves the old one in place.",
 ["crash_points","fault_sequences"],"every crash point (with loss of unsynced data), network failure and failing file operation during an install",
 "Update tests exercise version comparison and archive helpers; the install sequence is never interrupted.",
 ["cli/update.go"],[("download to temp, extract, swap with backup","cli/update.go doInstall/copyFile")],None,["simulated disk after every operation and crash"])
p("C28","Update decisions hold under any network and cache behaviour",
 "The update check never fails, blocks or noticeably delays the user's command whatever the network or the cached state does (absent, stale, corrupt, torn, unwritable), asks the network at most once per calendar day (as long as nobody sets the clock back), and never recommends or installs a version that is not newer than the running one unless the user asked for that exact version; only trusted https release locations, and redirects from them over https, are ever downloaded from.",
 ["fault_sequences","histories","inputs"],"all network replies, delays and failures, clock dates, and cache-file states",
 "Tests feed a few well-formed release lists to helpers.",
 ["cli/update.go","cli/main.go"],[("dated cache, short timeout, semver comparison, trusted-prefix check","cli/update.go")],None,["messages printed, requests made, simulated time spent"])
p("C29","The bundled compiler is extracted exactly once and whole",
 "However many `gray` processes start at the same time and wherever any of them is killed or loses power, no process ever runs a compiler or links a runtime library or header that is missing or not byte-for-byte the bundled one: extraction either yields the complete files or reports an error.",
 ["schedules","crash_points","fault_sequences"],"all interleavings of concurrent extractions and all crash and disk-failure points",
 "Tests extract once, alone, into a fresh directory.",
 ["internal/grayc/embedded.go","internal/grayc/grayc.go"],[("content-addressed directory, write to temp then rename, skip if present","internal/grayc/embedded.go writeIfMissing")],None,["simulated ~/.gray/runtime content whenever a process proceeds"])
p("C30","Watch mode always ends up running the latest code, one run at a time",
 "In watch mode, after the last change to a watched file (by write, replace-by-rename or re-creation, of the file or of its directory) a run that started after that change takes place within a bounded time (once any run in progress has ended); bursts of changes are coalesced, runs never overlap, a failing run, an event-queue overflow or a file-watcher error does not stop the watching, and nothing runs when nothing changed.",
 ["schedules","histories","fault_sequences"],"all orders and timings of file-system events, timer firings, run durations and watcher errors",
 "Watch tests cover argument handling and helpers, not the event loop against time.",
 ["cli/watch.go"],[("debounce timer over file-system events","cli/watch.go watchLoop")],None,["start/end of simulated program runs against change times"])
p("C31","gray commands report failure when their work failed",
 "`gray fmt`, `gray doc`, `gray new` and `gray verify` tell the truth: success (exit 0 and a success message) means every file they claim to have written is completely on disk and every input they claim to have processed was read to the end; any disk error, full disk or failing compiler step is reported and never silently skipped, and files they were not asked to replace are left alone. `gray FILE`, `gray build` and `gray check` hand arguments, input and output through and exit with the status of the compiler or program, never with success when it did not run or was killed.",
 ["fault_sequences"],"every failing file operation or child process in these commands",
 "CLI tests run on a healthy disk.",
 ["cli/fmt.go","cli/doc.go","cli/new.go","cli/verify.go","internal/grayc/grayc.go"],[("error results propagated to the exit status","cli/*.go")],None,["exit error, printed messages, simulated disk"])
# --- properties of pure computation: no schedule, clock, fault or interleaving in them ---
NAW="Tests sample a finite set of programs or inputs; the property quantifies over all of them."
p("N01","Accepted programs are type safe",
 "A program the compiler accepts never applies an operation to a value of the wrong type, and the generated C compiles without error.",
 ["programs"],"all source programs",NAW,["grayc/src/typechecker/typechecker.c","grayc/src/codegen/codegen.c"],[("type checker","grayc/src/typechecker/typechecker.c")])
p("N02","Arithmetic never wraps or traps silently",
 "Integer arithmetic, conversion, division and big-integer operations either give the mathematically exact result in the declared width or stop with the documented panic.",
 ["inputs","programs"],"all operand values and widths",NAW,["grayc/src/runtime/runtime.h","grayc/src/runtime/bigint.h","grayc/src/codegen/codegen.c"],[("checked arithmetic","grayc/src/runtime/runtime.h")])
p("N03","Out-of-range accesses always panic",
 "Array, string and map accesses outside the existing elements and nil dereferences always stop with the documented panic and never read or write other memory.",
 ["inputs","programs"],"all programs and index values",NAW,["grayc/src/runtime/array.c","grayc/src/runtime/map.c","grayc/src/codegen/codegen.c"],[("bounds checks","grayc/src/runtime/array.c")])
p("N04","Values that escape a scope survive it",
 "A value returned, stored in an outer variable, container or field, or captured before a scope ends keeps its contents after the scope's memory is reclaimed, and loop temporaries do not accumulate.",
 ["programs"],"all single-threaded programs",NAW,["grayc/src/codegen/codegen.c","grayc/src/runtime/runtime.c"],[("escape deep-copy","grayc/src/codegen/codegen.c")])
p("N05","Formatting preserves meaning and is idempotent",
 "The formatter's output parses to the same program as its input, and formatting it again changes nothing.",
 ["programs"],"all source programs",NAW,["grayc/src/fmt/fmt.c"],[("token-based formatter","grayc/src/fmt/fmt.c")])
p("N06","Codecs and parsers round-trip",
 "Decoding what JSON, CSV, base64, hex, URL, binary and bytes encoders produced gives back the original value, and malformed input gives an error rather than wrong data.",
 ["inputs"],"all values and byte strings",NAW,["grayc/src/stdlib/json.c","grayc/src/stdlib/csv.c","grayc/src/stdlib/encoding.c","grayc/src/stdlib/binary.c"],[("encoders/decoders","grayc/src/stdlib/")])
p("N07","The compiler terminates with a diagnosis on every input",
 "Lexing, parsing, checking and formatting any byte sequence ends without crashing, and every rejected program gets a diagnostic with a valid location.",
 ["inputs"],"all byte sequences",NAW,["grayc/src/lexer/lexer.c","grayc/src/parser/parser.c"],[("error recovery","grayc/src/parser/parser.c")])
p("N08","Collections and strings behave as their reference models",
 "Arrays, maps, strings, math, regex and strconv functions compute what a simple mathematical model of each prescribes, for every input.",
 ["inputs"],"all argument values",NAW,["grayc/src/stdlib/arrays.c","grayc/src/stdlib/maps.c","grayc/src/stdlib/strings.c","grayc/src/stdlib/math.c"],[("library functions","grayc/src/stdlib/")])
p("N09","Database operations are durable and isolated",
 "A committed SQLite operation survives restart, and errors are reported through the documented results.",
 ["crash_points"],"all crash points",NAW,["grayc/src/stdlib/sqlite.c"],[("SQLite wrapper","grayc/src/stdlib/sqlite.c")])
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root,"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x)+"\n")
print(len(P))
