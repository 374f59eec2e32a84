"""The prose of DESIGN.md (see gen_design.py)."""
HEAD = '''
# Deciding Grayscale's guarantees by deterministic simulation

(Generated by tools/gen_design.py from tools/design_text.py, properties.jsonl, tools/props.py, known-findings.txt and seeded/.)

## What is simulated

The repository ships three programs: a C compiler front end (`grayc`), a C runtime and standard library that every compiled `.gray` program links, and a Go command-line tool (`gray`). The parts whose guarantees meet threads, clocks, sockets, processes, disks, entropy or allocation run inside a simulator; pure computation (type checking, arithmetic, codecs, formatting as a function) is not a target of this technique and is listed under `not_applicable`.

No hooks are committed in /repo: the seams are found at link level (C) and at import level (Go), on the working tree, when a check is built. The commits in /repo are `fix:` commits only.

### C side (`sim/`): one process, one OS thread, one seed

* The real runtime and standard library, and the C that the real `grayc` generates for the workload programs `sim/programs/*.gray`, are compiled with `clang -fsanitize=thread -femulated-tls` and linked against *our* `__tsan_*` callbacks: every memory access is a possible preemption point and is checked against a shadow heap (use after free, overflow, double free, leak). For C24-C26 the compiler itself (all of `grayc/src`) is compiled that way and runs as several simulated processes.
* Guest threads are fibers under a seeded scheduler (random walk, sparse preemption, conflict-directed, PCT; drawn per run). Thread-local storage is per fiber. Several instances of one program have separate memory images.
* Every libc and kernel call with an effect is redirected (`objcopy --redefine-syms`) to a simulated kernel (`kernel.cpp`): pthreads, clocks, sleeps, signals, heap, file system with links and mount points, pipes, processes with scripted children, TCP sockets, name resolution, entropy, terminal. stdio is glibc's over simulated descriptors. A symbol that is neither simulated nor on the list of pure functions stops the build (error exit, never a VIOLATION).
* The hand-written assembly (`arch/x86_64/atomic.s`) is lifted instruction by instruction to C (`lift_asm.py`) with the same hooks, so an unlocked read-modify-write can be preempted in its middle and a missing fence shows through a simulated store buffer.
* A run is forked, so runs cannot influence each other. Every decision (preempt? who next? fail this call? how many bytes? what operation?) is drawn from one PRNG derived from the seed, in separate recorded streams.

### Go side (`gosim/`)

* `rewrite/` copies the packages `cli` and `internal/grayc` of the working tree and redirects their imports (`os`, `os/exec`, `os/signal`, `os/user`, `time`, `net/http`, `fsnotify`, `sync`, `io` helpers ...), the `go` statement, channel operations, `select` and map ranges to `simrt/`. One copy of the packages per concurrent process image, so that package variables are not shared between simulated processes. An import that is neither simulated nor known to be pure stops the build.
* `simrt/`: a seeded scheduler that runs one task at a time; processes with signals, sessions and exit status; a disk with page cache, crash semantics (unsynced data and names may be lost or torn at power loss), mounts, permissions, free space; inotify with coalescing and overflow; a clock; an HTTP client against a scripted server; child processes (grayc, sudo, programs) as scripts.
* `harness/`: scenarios and oracles, worker processes, minimiser, replay.

### From a run to a verdict

* A property is decided by seeded search: the check runs its scenarios for the budget on 8 workers, each run with a fresh seed derived from VERIF_SEED. Which faults are on at all, their rates, the scheduler and the workload's shape are drawn per run (swarm), so fault-free and single-fault configurations are frequent.
* Invariants are evaluated during the run (at every change of the simulated file system, at every thread step where needed) and the history is judged at the end. Liveness is progress within a bounded number of steps or simulated time once faults stop.
* A failing run is minimised (delta debugging over the recorded non-default decisions; 0 is always the benign choice) and written as a replay file: property, scenario, seed, the remaining decisions. `python3 tools/check.py --replay FILE` reproduces it in a fresh process, and the check does so itself before it prints VIOLATION; a failure that does not reproduce is an error of the machinery (exit 2).
* Determinism is tested in every check: 24 (thorough: 200) runs are repeated and the hashes of all decisions, outputs and events compared; a mismatch is an error (exit 2).
* `evidence/<id>.json` reports runs and seeds per hour, simulated time, faults fired and opportunities per kind, distinct executions and interleavings (hash of the sequence of switches), the probes reached (rare situations the scenario wants to see), and what ran as real code and what as a stub.
* Build trouble, watchdog expiry and nondeterminism end with status 2, not 1.

### Limits

Sampling: absence of a violation is evidence over the explored runs. Memory model: x86-TSO through a store buffer for the assembly operations and sequential consistency elsewhere. The optimiser of the user's C compiler is not modelled (the guest is compiled with -O1). 128 KiB-ish data sizes are typical; sizes near 2 GiB are not reached. DNS, TLS and the kernel's TCP internals are scripted peers. The Windows and macOS branches are not built here. sqlite is compiled out (vendor/sqlite3.c is not in the repository), so N09 cannot be run.
'''

# property: (_, what is simulated, which faults, what this reaches that tests cannot)
WORK = {
 'C01': ('', 'programs chan.gray with 2-6 threads doing 1-7 random operations each on one or two channels of any capacity', 'spurious wake-ups; every preemption', 'the tests run one schedule; here the order of every lock, wait and wake-up is drawn and each history is checked for linearizability'),
 'C02': ('', 'the same programs, balanced, ended by close, or arbitrary', 'spurious wake-ups; lost-wake-up schedules', 'a missing wake-up shows only when two waiters and two events meet in one order'),
 'C03': ('', 'up to 5 threads locking up to 3 mutexes in order, with try_lock and guarded data', 'spurious wake-ups; preemption inside critical sections', 'exclusion and truthfulness of try_lock at every instruction'),
 'C04': ('', 'random atomic operations and litmus shapes on the lifted assembly', 'preemption between the instructions of one operation; delayed stores', 'an unlocked or unfenced instruction is invisible on a lightly loaded machine'),
 'C05': ('', 'up to 5 threads on spinlocks guarding plain data', 'preemption between instructions; delayed stores', 'as C04'),
 'C06': ('', 'random spawn/join/is_alive/thread_count programs, nested spawns', 'failing pthread_create; spurious wake-ups', 'start and end of threads at every relative time'),
 'C07': ('', 'rounds of spawn/detach/join with bodies of different length, some doing work that overflows their arenas', 'every relative timing of exit, join and detach', 'memory is accounted to the byte after each round, with a shadow heap'),
 'C08': ('', '36 kinds of library work done by 1-3 threads at once (strings, numbers, maps, time, regex, csv, json, ...)', 'preemption at every memory access', 'static buffers and shared caches in the library'),
 'C09': ('', 'up to 5 threads recursing: deep, mutual, early returns, or_return exits, held depths around the limit', 'preemption in the prologue and epilogue', 'the depth of each thread is known to the oracle exactly'),
 'C10': ('', 'fixed computations compared with their own fault-free run, and every io and network scenario (C12-C23) while allocations fail', 'the n-th allocation fails, or all from the n-th on, or a random few, together with the other faults of the scenario', 'each allocation site of the runtime and library fails in some run'),
 'C11': ('', '1-4 threads sleeping and reading clocks', 'signals during sleeps; wall clock stepped forwards and backwards; late wake-ups', 'time is simulated, so hours pass per second and every signal position is reached'),
 'C12': ('', 'sequences of all file-writing calls (files, bytes, lines, csv) by several threads', 'open, write, short write, full disk, close, read and stat failures', 'the file content is compared after every reported success'),
 'C13': ('', 'sequences of all file-reading calls on regular and non-seekable files', 'short reads, read errors at any offset, open and stat failures', 'a truncated result needs an error in the middle of a file'),
 'C14': ('', 'copy, move, rename over links, onto themselves, hard links, across file systems, by several threads', 'failure of every step, full disk, cross-device; a kill at any instant (invariant at each mutation)', 'the only copy must exist at every moment'),
 'C15': ('', 'create, remove, list, walk, glob on random trees with links, file names like "..y", trees deeper than a path may be long, sometimes changed meanwhile', 'unlink, mkdir, rmdir, stat, opendir, readdir failures; a directory swapped for a link', 'nothing outside the tree may change at any mutation'),
 'C16': ('', 'up to 4 threads in one or two programs creating temporary files (also where the name generator repeats itself), ending by return, exit, panic', 'open and mkdir failures; names already taken', 'uniqueness over programs and threads, removal at every kind of end'),
 'C17': ('', 'up to 4 threads running scripted children', 'any fragmentation, early closes, signals, pipe/fork/exec/wait failures, EINTR', 'the exact bytes, status and arguments of every child are known'),
 'C18': ('', '1-3 threads with socket sessions against scripted peers', 'fragmentation, stalls, half-close, reset, refused, failing socket/connect/accept, short sends, EINTR, time-outs, name resolution', 'every byte stream is recorded on both sides'),
 'C19': ('', '1-3 threads doing HTTP requests against a scripted server, also with interim responses', 'fragmentation, stalls, cut-off and lying lengths, resets, silence, short sends', 'the response is success only if complete'),
 'C20': ('', 'the real server with 1-8 concurrent clients', 'requests (also with bare LF line ends) split and delayed at will, short sends, EINTR', 'each response is recomputed from its own request'),
 'C21': ('', 'the real server under 14 kinds of misbehaving client, sometimes over a thousand connections', 'accept, thread creation and allocation failures, resets, descriptor exhaustion', 'threads, descriptors and heap are back to the level after one request'),
 'C22': ('', 'random, uuid and crypto calls by several threads, seeded and not', 'failing and short entropy, missing /dev/urandom, clock steps, a generator returning extreme words', 'every identifier is traced to the entropy bytes supplied'),
 'C23': ('', '1-3 threads reading lines from a terminal or pipe', 'any fragmentation, pauses, EINTR, read errors, zero bytes', 'each line must be one of the input, once, in order'),
 'C24': ('', 'one or two formatters on random sources (also empty, binary, linked, multi-line raw strings)', 'read, write, close, rename, allocation failures, full disk, kill at any instant', 'the invariant is evaluated at each file-system mutation; raw strings are judged by the emitted C'),
 'C25': ('', 'one compiler command (build, -c, run, check) with imports, directory imports, embedded files, pipes; output paths that name a source', 'every file operation, full disk, allocations, failing, killed or absent C compiler, fork, exec, wait, Ctrl-C, kill', 'success only if the C is that of a fault-free compile and the C compiler and program succeeded'),
 'C26': ('', '2-4 compiler processes on the same or different sources, equal names, same or different directories', 'as C25, on one of them', 'each command must get its own code whatever the others do'),
 'C27': ('', 'gray update/install, one or two at once, sudo, links, separate file systems', 'network misbehaviour of 14 kinds, failing and short file operations, full disk, kill, power loss', 'after every single change of the disk, and after every crash, the path holds a complete executable'),
 'C28': ('', 'histories of commands over days', 'absent, stale, corrupt, torn, unwritable cache; clock jumps and time zones; arbitrary release lists; redirects; network failures', 'decisions are compared with a model of the release list and the day'),
 'C29': ('', '1-4 commands of one or two versions on a fresh, partial or damaged directory; extracted files damaged between the runs', 'file operations, full disk, kill at any system call, power loss', 'every compiler run is compared byte for byte with the bundle'),
 'C30': ('', 'watch sessions on a file or directory with a dozen edits as editors make them; directories replaced, new, empty or reached through links; look-alike files that do not belong to the program', 'queue overflow, failing inotify, exec and fork, run times of 0-5 s', 'change and run times are known exactly'),
 'C31': ('', 'gray fmt, fmt --check, doc, new, verify, run, build, check on random trees', 'failing and short file operations, full disk, unreadable inputs, failing, killed or missing children', 'what the exit status claims is compared with the disk'),
}

TAIL = '''
## False alarms corrected (the check was wrong)

* C10: a program that stops for lack of memory while another thread is in a call: the call's result is not judged.
* C15, C12: a path that is a directory makes the documented panic; accepted.
* C16: temporary paths disappear while another thread's exit (panic, out of memory) is cleaning up; accepted from the moment the exit begins.
* C20: a query parameter without a value may or may not be counted; both accepted. A string assigned to a field of a `&param` struct in a nested block is a use after free of the code generator (N04), so the workload avoids it.
* C21: a bystander may be refused while system calls fail; only the probes before and after the storm must be served.
* C25: compiling sources with NUL bytes or without `main` through the raw C text; a cc orphaned by a kill may finish later; duplicated stdio buffers in forked children come from the host's stdio and are flushed before the fork.
* C27: `gray install` verifies after installing; its exit code reports the verification too. A link moved aside by the user between two steps is the user's change.
* C28: with the wall clock set back, "today" may legitimately be a day checked before.
* C31: `gray doc` given the same file twice may repeat its items.

## Knobs

`server_max_connections` (C21: small caps so that the limit is reached cheaply) is read through a redefined constant in the simulated build; `max_fds` lowers the descriptor limit. Nothing else of the code is scaled down.

## Commands

`python3 tools/check.py C01 [--tier thorough] [--time S] [--seed N]`; `--replay FILE [-v]`; `python3 tools/setup.py` builds every group; `python3 tools/gen_manifest.py`, `gen_properties.py`, `gen_design.py` rewrite the generated files.

Quick runs take 15-40 s of exploration plus 3-20 s of building; a whole pass over the checks about 15 minutes. The thorough tier explores each property for 15 minutes.
'''
