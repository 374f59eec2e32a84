"""What each check runs. group -> simulator sources and workload programs; property -> group, budgets and notes."""
GROUPS = {
    'threads': dict(kind='c', programs=['chan', 'conc', 'life', 'deep', 'iso', 'oom']),
    'io': dict(kind='c', programs=['io']),
    'net': dict(kind='c', programs=['sock', 'hcli', 'serv']),
    'grayc': dict(kind='c', programs=[], grayc=True,
        real=['the whole compiler as a process (grayc/src without runtime and stdlib of the working tree: argument handling, reading, lexer, parser, type checker, code generator, diagnostics, formatter, temporary files, C compiler and program invocation), several instances at once'],
        stubs=['libc and kernel calls that have an effect (files, descriptors, processes, waiting, signals, heap) are the simulator\'s; pure libc functions are the host\'s; stdio streams are glibc\'s over simulated descriptors', 'the shell, the C compiler and the compiled programs are scripted processes: cc reads the C file it is given, accepts exactly the complete C of a known source, and writes the output file in steps']),
    'cli': dict(kind='go',
        real=['the whole gray command-line tool (packages cli and internal/grayc of the working tree, with the real cobra, bufio, archive/tar, compress/gzip, encoding/json and path code), compiled once per concurrent process image from a copy whose imports with effects are redirected'],
        stubs=['os, os/exec, os/signal, os/user, time, net/http transport, fsnotify (inotify), sync, goroutines, channels, select and map order are the simulator\'s', 'grayc, sudo and the compiled programs are scripted child processes', 'the release server is a scripted peer behind the HTTP client'],
        assumptions=['the simulated file system, processes, inotify and HTTP client behave like Linux and the Go standard library in the calls used', 'seeded sampling of schedules and faults: absence of a violation is evidence over the explored runs, not a proof']),
}
REAL_RT = 'grayc (the compiler, run natively to produce the C of the workload programs); the C it emits; the whole runtime and standard library (grayc/src/runtime, grayc/src/stdlib) of the working tree'
STUB_RT = 'libc and kernel calls that have an effect (threads, locks, condition variables, clocks, sleeps, heap, files, descriptors, pipes, processes, sockets, entropy) are the simulator\'s; pure libc/libm functions are the host\'s; stdio streams are glibc\'s over simulated descriptors'
ASM = 'x86-64 assembly of the atomic operations is translated instruction by instruction (lift_asm.py) so that non-locked read-modify-writes can be interrupted and plain stores pass through a simulated store buffer'
A_SIM = 'the simulated kernel behaves like Linux in the calls used; the host compiler translates the instrumented code faithfully'
A_SAMP = 'seeded sampling of schedules and faults: absence of a violation is evidence over the explored runs, not a proof'
LEVEL_NOTE_C = 'Seeded search over thread schedules (preemption at every memory access and library call; random-walk, sparse, conflict-directed and PCT schedulers) and over injected faults, with %s as the oracle; samples, does not exhaust. Trusts the simulated kernel and the host compiler.'
LEVEL_NOTE_GO = 'Seeded search over task and process schedules, timings, network replies and injected faults, with the oracle: %s; samples, does not exhaust. Trusts the simulated file system, processes and HTTP client.'

PROPS = {
    'C01': dict(group='threads', quick=20, thorough=900, oracle='a linearizability checker over every operation history (bounded FIFO queue with close)',
        rule='a case is one seeded execution of 2-6 threads doing 1-7 random channel operations each on one or two channels; non-trivial: at least two thread switches or an injected fault; distinct by hash of all decisions, outputs and events'),
    'C02': dict(group='threads', quick=20, thorough=900, oracle='deadlock and bounded-progress detection, a blocked thread being legal only if the queue model says its operation is not enabled',
        rule='a case is one seeded execution of balanced, close-terminated or arbitrary send/receive programs; non-trivial: at least two thread switches or an injected fault'),
    'C03': dict(group='threads', quick=20, thorough=900, oracle='a lock model: exclusion, truthful try_lock, progress of every waiter, torn/lost update detection on guarded data',
        rule='a case is one seeded execution of up to 5 threads locking up to 3 mutexes in order; non-trivial: at least two thread switches or an injected fault'),
    'C04': dict(group='threads', quick=20, thorough=900, oracle='a sequential-consistency/linearizability checker over the atomic operations of every execution',
        rule='a case is one seeded execution of random atomic operations and classic litmus shapes; non-trivial: at least two thread switches or an injected fault'),
    'C05': dict(group='threads', quick=20, thorough=900, oracle='a lock model for spinlocks, including visibility of data written under the lock through a simulated store buffer',
        rule='a case is one seeded execution of up to 5 threads using spin_lock/spin_trylock/spin_unlock; non-trivial: at least two thread switches or an injected fault'),
    'C06': dict(group='threads', quick=20, thorough=900, oracle='a life-cycle model of threads (run once, argument, join after end, is_alive, thread_count, clean stop when creation fails)',
        rule='a case is one seeded execution of random spawn/join/is_alive/thread_count sequences, nested spawns included; non-trivial: at least two thread switches or an injected fault'),
    'C07': dict(group='threads', quick=20, thorough=900, oracle='a shadow heap (use after free, double free, overflow), reaping of every thread and constant heap after each round of spawn/detach/join',
        rule='a case is one seeded execution of several rounds of spawn/detach/join with random relative timing; non-trivial: at least two thread switches or an injected fault'),
    'C08': dict(group='threads', quick=25, thorough=900, oracle='the results of the same computation run alone in the same process, plus the shadow heap',
        rule='a case is one seeded execution of 1-3 threads computing up to 4 of 36 kinds of library workload concurrently; non-trivial: at least two thread switches or an injected fault'),
    'C09': dict(group='threads', quick=25, thorough=900, oracle='the known call depth of every thread against the documented limit',
        rule='a case is one seeded execution of up to 5 threads recursing (deep, mutual, many early returns, held depths); non-trivial: at least two thread switches or an injected fault'),
    'C10': dict(group='threads', more=[('io', '^(file-|copy-|directories-|temporary-|os-exec-|console-|randomness-).*oom$', 0.25), ('net', '^(sockets|http-).*oom$', 0.35)], quick=40, thorough=900, oracle='a fault-free run of the same program in the same execution: same output, or a clean out-of-memory stop after a correct prefix',
        rule='a case is one seeded execution in which the n-th allocation (or every one after it, or a random few) fails; n drawn uniformly over the allocations of the fault-free run; non-trivial: at least two thread switches or an injected fault'),
    'C11': dict(group='io', quick=15, thorough=900, oracle='the simulated monotonic and wall clocks: no early wake-up, bounded oversleep, ticks and elapsed times within the real interval of the calls',
        rule='a case is one seeded execution of 1-4 threads sleeping and reading clocks while signals interrupt the sleeps and the wall clock is stepped; non-trivial: at least two thread switches or an injected fault; distinct by hash of all decisions, outputs and events'),
    'C12': dict(group='io', quick=20, thorough=900, oracle='the content of the simulated file system after every reported success, compared with what was asked to be written',
        rule='a case is one seeded sequence of file-writing calls under open/write/short-write/full-disk/close/read failures; non-trivial: at least two thread switches or an injected fault; distinct by hash of all decisions, outputs and events'),
    'C13': dict(group='io', quick=25, thorough=900, oracle='the file content of the simulated file system, compared with what each successful read returned',
        rule='a case is one seeded sequence of file reads (seekable and not) under short reads and read, open and stat failures; non-trivial: at least two thread switches or an injected fault; distinct by hash of all decisions, outputs and events'),
    'C14': dict(group='io', quick=20, thorough=900, oracle='at every change of the simulated file system the source content is complete under the source or destination name, and results agree with the final state',
        rule='a case is one seeded sequence of copy/move/rename calls, across file systems, onto links and onto themselves, with failures at any step; the invariant is evaluated at every file-system mutation, which covers a kill at any instant; non-trivial: at least two thread switches or an injected fault; distinct by hash of all decisions, outputs and events'),
    'C15': dict(group='io', quick=20, thorough=900, oracle='the simulated file system: nothing outside the tree changes at any mutation, removals and creations are as reported, listings are complete or an error',
        rule='a case is one seeded sequence of directory operations on random trees with links, failures injected, optionally several threads; non-trivial: at least two thread switches or an injected fault; distinct by hash of all decisions, outputs and events'),
    'C16': dict(group='io', quick=20, thorough=900, oracle='the set of paths handed out, checked for freshness, uniqueness over threads and programs, and absence once the program has ended',
        rule='a case is one seeded execution of up to 4 threads in one or two programs creating temporary files and directories and ending by return, exit code or panic; non-trivial: at least two thread switches or an injected fault; distinct by hash of all decisions, outputs and events'),
    'C17': dict(group='io', quick=20, thorough=900, oracle='the script of each simulated child process: its exact output, exit status and arguments, plus zombie and descriptor accounting',
        rule='a case is one seeded execution of up to 4 threads running scripted child processes with arbitrary output fragmentation, closes, signals and failures of pipe/fork/exec; non-trivial: at least two thread switches or an injected fault; distinct by hash of all decisions, outputs and events'),
    'C18': dict(group='net', quick=20, thorough=900, oracle='the byte streams recorded by the simulated network: what was reported as sent is what the connection carries, what was received is a prefix of what the peer sent, and failures have a cause',
        rule='a case is one seeded execution of 1-3 threads running socket sessions (connect, accept, send, receive, time-outs, name resolution) against scripted peers that fragment, stall, half-close, reset or close; non-trivial: at least two thread switches or an injected fault; distinct by hash of all decisions, outputs and events'),
    'C19': dict(group='net', quick=20, thorough=900, oracle='the request bytes and the response the scripted server sent: status, headers and complete body as sent, or an error, within a bounded time',
        rule='a case is one seeded execution of 1-3 threads performing HTTP requests against a scripted server that fragments, stalls, breaks off, resets, lies about lengths or is silent; non-trivial: at least two thread switches or an injected fault; distinct by hash of all decisions, outputs and events'),
    'C20': dict(group='net', quick=20, thorough=900, oracle='for each request a response recomputed from that request alone (route, params, query, headers, body)',
        rule='a case is one seeded execution of 1-8 concurrent clients whose requests and reads are split and delayed arbitrarily, with short sends and interruptions on the server side; non-trivial: at least two thread switches or an injected fault; distinct by hash of all decisions, outputs and events'),
    'C21': dict(group='net', quick=25, thorough=900, oracle='threads, descriptors and heap of the server back to the level after one served request, and a well-formed request answered within bounded time, once misbehaving clients are gone',
        rule='a case is one seeded execution of up to three rounds of misbehaving clients (14 kinds; sometimes more than a thousand connections) with failures of accept, thread creation, allocation, sends and resets; non-trivial: at least two thread switches or an injected fault; distinct by hash of all decisions, outputs and events'),
    'C22': dict(group='io', quick=20, thorough=900, oracle='documented ranges, equality of seeded sequences, and the log of entropy the simulator supplied (each identifier carries fresh bytes of it)',
        rule='a case is one seeded sequence of random/uuid/crypto calls with a hostile generator, failing or short entropy, and clock steps; non-trivial: at least two thread switches or an injected fault; distinct by hash of all decisions, outputs and events'),
    'C23': dict(group='io', quick=20, thorough=900, oracle='the lines of the simulated terminal or pipe input',
        rule='a case is one seeded input delivered in arbitrary fragments with pauses, interruptions and read errors to 1-3 reading threads; non-trivial: at least two thread switches or an injected fault; distinct by hash of all decisions, outputs and events'),
    'C24': dict(group='grayc', quick=20, thorough=900, oracle='at every change of the simulated file system the source path holds the complete original or the complete formatted text (obtained from a fault-free run in the same execution); success only with the latter; mode, link and code lines kept',
        rule='a case is one seeded execution of one or two formatters on a random source (laid out at random, empty, large, binary, linked) under read, write, close, rename and allocation failures, full disk and kills; the invariant is evaluated at every file-system mutation, which covers a kill at any instant; non-trivial: at least two thread switches or an injected fault; distinct by hash of all decisions, outputs and events'),
    'C25': dict(group='grayc', quick=20, thorough=900, oracle='the complete C text of the same source from a fault-free run in the same execution, the script of the C compiler and of the program, and the simulated file system before and after',
        rule='a case is one seeded execution of one compiler command (build, -c, run, check; with imports, directories, embedded files, pipes as source) under failing or short file operations, full disk, failing allocations, a failing, killed or absent C compiler, failing fork, exec and wait, Ctrl-C and kills; non-trivial: at least two thread switches or an injected fault; distinct by hash of all decisions, outputs and events'),
    'C26': dict(group='grayc', quick=20, thorough=900, oracle='which C text every simulated C compiler run reads and which program every run executes, against the source the command was given, and the simulated file system before and after',
        rule='a case is one seeded interleaving of 2-4 compiler processes on the same or different sources with equal or different names, some with faults, Ctrl-C or a kill; non-trivial: at least two thread switches or an injected fault; distinct by hash of all decisions, outputs and events'),
    'C27': dict(group='cli', quick=20, thorough=900, oracle='after every single change of the simulated disk, and after every crash, the installed path holds one of the two complete executables; success only with the new one',
        rule='a case is one seeded update or install (one or two at once, with or without sudo, links, separate file systems) under network misbehaviour, failing file operations, full disk, kills and power loss with loss of unsynced data; non-trivial: at least two task switches or an injected fault; distinct by hash of all decisions, outputs and events'),
    'C28': dict(group='cli', quick=20, thorough=900, oracle='a model of the release list and of the day of the last check: which versions may be recommended or installed, how many requests, how much simulated time, which hosts',
        rule='a case is one seeded history of commands over days with a cache that is absent, stale, corrupt, torn or unwritable, clock jumps and arbitrary release lists, delays, redirects and network failures; non-trivial: at least two task switches or an injected fault; distinct by hash of all decisions, outputs and events'),
    'C29': dict(group='cli', quick=20, thorough=900, oracle='whenever a simulated compiler runs, its own content and every library and header beside it equal the bundle of the command that started it, byte for byte',
        rule='a case is one seeded execution of 1-4 commands (of one or two versions) starting at arbitrary times on a fresh, partly extracted or damaged directory, with file operations failing, full disk, kills at any system call and power loss; non-trivial: at least two task switches or an injected fault; distinct by hash of all decisions, outputs and events'),
    'C30': dict(group='cli', quick=20, thorough=900, oracle='the recorded change times against the start and end times of the simulated program runs',
        rule='a case is one seeded session of a watched program or directory with up to a dozen edits in the ways editors save files, bursts, unrelated changes, run durations of 0-5 s, queue overflow and watcher, exec and fork failures; non-trivial: at least two task switches or an injected fault; distinct by hash of all decisions, outputs and events'),
    'C31': dict(group='cli', quick=20, thorough=900, oracle='the simulated disk after the command compared with what its exit status and messages claim, given sources drawn with known content, a reference formatter and the shipped templates',
        rule='a case is one seeded gray fmt, fmt --check, doc, new, verify, run, build or check command on a random tree under failing or short file operations, full disk, unreadable inputs and failing, killed or missing child processes; non-trivial: at least two task switches or an injected fault; distinct by hash of all decisions, outputs and events'),
}
for _p in PROPS.values():
    if GROUPS[_p['group']]['kind'] == 'go': _p.setdefault('level_note', LEVEL_NOTE_GO % _p['oracle'])
