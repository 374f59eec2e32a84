// Deterministic simulator: core interfaces.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <functional>
#include <memory>
#include <unordered_map>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32;

// ---------------------------------------------------------------- choices
enum Stream { ST_CFG, ST_PREEMPT, ST_PICK, ST_FAULT, ST_OP, ST_DATA, ST_TIME, ST_N };
extern const char *stream_names[ST_N];
struct TraceEnt { u32 stream; u32 val; u64 idx; };
const u32 TRACE_MAX = 1u << 16;

enum Fault {
  F_MALLOC, F_THREAD, F_SPURIOUS, F_OPEN, F_READ_EIO, F_READ_SHORT, F_WRITE_EIO, F_WRITE_ENOSPC,
  F_WRITE_SHORT, F_CLOSE, F_RENAME, F_UNLINK, F_MKDIR, F_RMDIR, F_STAT, F_OPENDIR, F_READDIR,
  F_PIPE, F_FORK, F_EXEC, F_EINTR_SLEEP, F_EINTR_SELECT, F_EINTR_WAIT, F_EINTR_READ, F_EINTR_SOCK,
  F_ENTROPY_FAIL, F_ENTROPY_SHORT, F_CLOCK_STEP, F_ACCEPT, F_SOCKET, F_CONNECT, F_SEND_SHORT, F_RESET,
  F_RESOLVE, F_KILL, F_STALL, F_LINKSWAP, F_XDEV, F_SLOW, F_CCFAIL, F_N
};
extern const char *fault_names[F_N];

const int NPROBE = 64;
enum Verdict { V_NONE = 0, V_OK = 1, V_VIOLATION = 2, V_ERROR = 3, V_KNOWN = 4 };
struct RunResult {             // shared memory between run child and worker
  int verdict; u32 ntrace; u32 trace_lost;
  u64 steps, switches, points, simtime, hash_sched, hash_all, evcount, mempts;
  u64 faults[F_N];
  u64 fault_elig[F_N];
  u64 probes[NPROBE];
  char msg[1500];
  char cls[96];                 // violation class (stable key used by minimiser / known findings)
  char sample[3000];            // human-readable account of the run
  TraceEnt trace[TRACE_MAX];
};
extern RunResult *R;

u32 pick(Stream s, u32 n);                        // 0..n-1, default 0
bool chance(Stream s, u32 num, u32 den);          // default false
bool fault(Fault f);                              // consult the run's fault plan
void fault_fired(Fault f);
extern u64 fault_nth[F_N]; extern bool fault_sticky[F_N]; // fail the n-th opportunity (and, when sticky, all later ones)
extern u32 fault_rate[F_N];                       // num per 65536 for the run (0 = disabled)
extern bool verbose; extern std::function<bool(Fault)> fault_filter; // faults it rejects are not eligible

// ---------------------------------------------------------------- fibers
struct Proc;
struct Fiber {
  int id; void *sp; char *stack; size_t stack_sz;
  enum St { RUN, BLOCK, DONE } st;
  std::function<bool()> ready; u64 deadline; bool timed_out; bool interruptible; bool intr;
  const char *why;
  std::function<void()> fn;
  Proc *proc; bool actor; bool daemon; std::string name; int err;
  void *retval; bool detached; bool joined; int joiners; bool reaped;
  std::vector<void*> tls; std::map<u32, void*> keys;
  i64 prio; u64 run_streak; int yields;
  // asm store buffer (TSO)
  struct SB { char *addr; u64 val; int sz; };
  std::deque<SB> sb; u64 sb_since = 0, pts = 0, ypts = 0; bool in_yield = false;
  bool is_main; bool nosched;
};
extern Fiber *cur;
extern std::vector<Fiber*> fibers;
extern u64 now_ns; extern i64 wall_off;
Fiber *spawn_actor(const std::string &name, std::function<void()> fn, Proc *p = nullptr);
Fiber *spawn_fiber(const std::string &name, Proc *p, std::function<void()> fn);
bool block(const char *why, std::function<bool()> ready, u64 deadline = ~0ull); // true if ready, false on timeout
void point_sync(const char *what);
void yield_now();
void actor_sleep(u64 ns);
[[noreturn]] void end_run();                      // finish the run (oracles run, child exits)
[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void sim_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void logline(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void hash_mix(u64 v);
void probe(int i);
void check_access(const void *a, size_t n, bool w, const char *who);
void access_range(const void *a, size_t n, bool w);
u64 heap_live_bytes(Proc *p); u64 heap_live_blocks(Proc *p);
std::string heap_leak_report(Proc *p);
void mem_tick(const void *a, bool w);

// ---------------------------------------------------------------- kernel objects
struct Inode {
  enum T { FILE, DIR, LINK } t; int ino; int dev; u32 mode; std::string data;
  std::map<std::string, std::shared_ptr<Inode>> ents; std::weak_ptr<Inode> parent; int nlink = 1;
};
typedef std::shared_ptr<Inode> InodeP;
struct Pipe { std::string buf; int readers = 0, writers = 0; size_t cap = 65536; };
struct Seg { std::string data; u64 at; };
struct Endpoint;
struct Conn { // one direction pair
  std::shared_ptr<Endpoint> a, b;
};
struct Endpoint {
  std::deque<Seg> in; size_t inbytes = 0; size_t rcvbuf = 65536;
  bool peer_closed = false;  // FIN received
  u64 fin_at = 0;
  bool reset = false;        // RST received
  bool closed = false;       // this side closed
  bool shut_wr = false;
  std::weak_ptr<Endpoint> peer; std::string total_in, total_out; u64 id = 0, made = 0; bool was_reset = false;
  int local_port = 0, peer_port = 0;
};
extern std::map<std::string, i64> knobs; // limits of the code under test that a scenario may shrink (simbuild.py, KNOBS)
typedef std::shared_ptr<Endpoint> EndP;
struct Listener { int port; std::deque<EndP> q; int backlog; bool open = true; };
struct OFD { // open file description
  enum T { FILE, PIPE_R, PIPE_W, SOCK, LISTEN, RAWSOCK, URANDOM, NUL, TTYIN, CAPTURE } t;
  InodeP ino; size_t pos = 0; int flags = 0; bool append = false, rd = false, wr = false;
  std::shared_ptr<Pipe> pipe; EndP ep; std::shared_ptr<Listener> lis; int refs = 0; std::string *cap = nullptr;
  u64 rcvtimeo = 0, sndtimeo = 0; int bound_port = 0; bool werr_pending = false; std::string path; bool nonblock = false;
  bool dirty = false; InodeP dir; int connecting = 0;
};
typedef std::shared_ptr<OFD> OFDP;
struct Fd { OFDP o; bool cloexec = false; };
struct Proc {
  int pid, ppid, parent0 = 0; std::string name; std::map<int, Fd> fds; std::map<std::string, std::string> env; std::map<std::string, char*> envp;
  std::string cwd = "/work"; std::vector<void (*)()> atexit_fns; bool exited = false; int status = 0; bool reaped = false; int killed_by = 0;
  std::string out, err, in; size_t in_pos = 0; std::vector<void*> files; bool sigpipe_ignored = false; bool exiting = false;
  std::vector<std::string> argv; void *mod = nullptr; bool guest = true; u64 live_bytes = 0, live_blocks = 0;
  u32 rand_state = 1; bool scripted = false; int max_fds = 256; u32 umask = 022; std::map<int, void*> sigh; int in_system = 0;
  std::function<void()> on_exit;
  std::string status_str() const;
};
extern std::vector<Proc*> procs;
Proc *new_proc(const std::string &name, int ppid = 1);
Proc *start_guest(const std::string &so, const std::vector<std::string> &argv, const char *entry = "sim_guest_main");
void proc_exit(Proc *p, int status);
void close_all(Proc *p); void group_sigint(Proc *lead);
int fd_alloc(Proc *p, OFDP o, int min = 0);

// fs helpers for scenarios (no faults, no points)
extern InodeP fs_root;
extern u64 disk_quota; // bytes, ~0 = unlimited
u64 disk_used();
void fs_mkdirs(const std::string &path);
void fs_put(const std::string &path, const std::string &data);
void fs_remove(const std::string &path);
bool fs_get(const std::string &path, std::string &out, bool follow = true);
bool fs_exists(const std::string &path, bool follow = false);
bool fs_isdir(const std::string &path);
void fs_symlink(const std::string &target, const std::string &path); void fs_link(const std::string &a, const std::string &b); bool fs_same(const std::string &a, const std::string &b); bool fs_islink(const std::string &path);
void fs_mount(const std::string &path, int dev);
std::vector<std::string> fs_list(const std::string &dir);
std::string fs_dump(const std::string &dir);
extern std::function<void(const char *op, const std::string &path)> fs_observer; // called after each mutation
extern std::function<bool(Proc *, const std::vector<std::string> &argv)> exec_exists; // path lookup for exec
extern std::function<void(Proc *)> exec_script;   // actor body of a launched process; returns exit status through proc_exit
extern std::function<int(const std::string &host, std::vector<u32> &addrs)> resolver;

// net helpers for actors
EndP net_connect_actor(int port);                 // null if refused
bool net_listening(int port);
std::shared_ptr<Listener> net_listen_actor(int port);
EndP net_accept_actor(std::shared_ptr<Listener> l, u64 timeout_ns);
bool ep_send(EndP e, const std::string &d, bool segment = true);  // blocking; false if peer gone
// returns >0 bytes appended, 0 eof, -1 reset, -2 timeout
int ep_recv(EndP e, std::string &out, size_t max, u64 timeout_ns);
void ep_close(EndP e); void ep_reset(EndP e); void ep_shutdown_wr(EndP e);
bool ep_send_t(EndP e, const std::string &d, u64 timeout_ns); // false: peer gone or timed out
extern std::map<int, EndP> last_ep; // fiber -> endpoint it connected or accepted last
u64 count_open_socks(Proc *p); u64 count_open_fds(Proc *p);
extern size_t net_rcvbuf_min; extern u64 net_delay_max; extern u32 seg_mode;

// actor-level (scripted process) io on fds
long act_write(Proc *p, int fd, const std::string &d);   // -1 on EPIPE
long act_read(Proc *p, int fd, std::string &out, size_t max);

// ---------------------------------------------------------------- events
struct Ev { u64 seq; int fiber; i64 kind, a, b, c; std::string s; u64 t; };
extern std::vector<Ev> events;
Ev &add_event(i64 kind, i64 a = 0, i64 b = 0, i64 c = 0, const std::string &s = "");
extern i64 params[64]; extern std::string sparams[64];

// ---------------------------------------------------------------- run control
extern u64 max_steps;
extern std::function<void(const char *why)> on_deadlock;   // default: violation
extern std::function<void()> on_steplimit;                // default: violation livelock
extern bool expect_clean_heap;
extern std::function<void()> step_hook; extern u64 step_hook_every;
extern bool sched_frozen; extern bool time_jumps;
struct SchedCfg { int policy; u32 p_mem, p_conf, p_sync; int pct_d; bool pct_conf; };
extern SchedCfg sched;
extern bool tso_enabled; void store_buffer_drain();
void choose_sched();                                    // draws a scheduling policy for the run

struct Scenario {
  const char *name; const char *prop; std::vector<const char*> guests;   // .so names
  std::function<void()> setup;      // draws configuration, creates procs/actors
  std::function<void()> check;      // oracle at end of run (may call violation)
  u32 weight = 1;
};
std::vector<Scenario> &scenarios();
struct RegScenario { RegScenario(Scenario s) { scenarios().push_back(s); } };
void known_or_violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
extern std::vector<std::string> probe_names;
int probe_id(const char *name);
#define PROBE(n) do { static int _p = probe_id(n); probe(_p); } while (0)
extern u64 run_seed;
std::string hexdump(const std::string &s, size_t max = 80);
